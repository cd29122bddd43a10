"""E02 lengths and geometry against the current context."""
import json
import math
import operator
import os
import struct

from .. import geomodel
from ..engine import Check
from ..genprog import PARS, SHAPES, VIEWBOXES, ProgGen
from ..model import HTML, SVG
from ..prog import ROOT, Prog, Skip, handle, walk
from .twin import differ, plain, tally

QUERIES = ['geometry', 'bbox', 'ctm', 'screen_ctm', 'path', 'path_trans',
           'total_length', 'view_box', 'viewport', 'vtm', 'computed',
           'inherited', 'transform', 'par']
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '<': operator.lt, '==': operator.eq,
       '>=': operator.ge, '+=': operator.iadd, '-=': operator.isub,
       '*=': operator.imul, '/=': operator.itruediv, 'abs': None,
       'neg': None, 'pow': None}
TEXTS = ['10%', '50%', '100%', '1vw', '10vh', '5vmin', '5vmax', '2em',
         '1.5rem', '12px', '7', '1in', '2cm', '-5%', '33.3%', '10pt', '0.5em',
         '0', '3pc', '4mm', '8q']
UNITS = [None, 'px', '%', 'vw', 'vh', 'vmin', 'vmax', 'em', 'rem', 'cm',
         'mm', 'in', 'pt', 'pc', 'q']


class Fresh:
    """Answers from processes that have seen nothing but the question: a
    server forked before the run starts forks one child per question."""

    def __init__(self, fn):
        a, self.out = os.pipe()
        self.inp, b = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(a)
            os.close(b)
            return
        try:
            os.close(self.out)
            os.close(self.inp)
            while True:
                data = self.receive(a)
                if data is None:
                    os._exit(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        self.send(b, json.dumps(fn(json.loads(data))).encode())
                        os._exit(0)
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                        os._exit(97)
                if os.waitpid(pid, 0)[1]:
                    os._exit(98)
        finally:
            os._exit(99)

    @staticmethod
    def send(fd, data):
        data = struct.pack('!I', len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    @staticmethod
    def receive(fd):
        out = b''
        want = 4
        while len(out) < want:
            chunk = os.read(fd, want - len(out))
            if not chunk:
                return None
            out += chunk
            if want == 4 and len(out) == 4:
                want = struct.unpack('!I', out)[0]
                out = b''
                if want == 0:
                    return b''
                break
        while len(out) < want:
            chunk = os.read(fd, want - len(out))
            if not chunk:
                return None
            out += chunk
        return out

    def ask(self, what):
        self.send(self.out, json.dumps(what).encode())
        data = self.receive(self.inp)
        if data is None:
            raise RuntimeError('the fresh process gave no answer')
        return json.loads(data)

    def close(self):
        os.close(self.out)
        os.close(self.inp)
        os.waitpid(self.pid, 0)


class LenGen(ProgGen):
    """Documents whose geometry depends on their context."""

    def common_attr(self):
        rng = self.rng
        name = rng.choice(['font-size'] * 4 + ['style', 'transform', 'id',
                                               'display', 'fill',
                                               'stroke-width', 'line-height',
                                               'letter-spacing'])
        if name == 'style':
            return name, rng.choice([
                'font-size: 10px', 'font-size: 2em; fill: red', 'fill: blue',
                'font-size: 150%', 'display: none',
                'font-size: 30px !important'])
        if name == 'font-size':
            return name, rng.choice(['10px', '20px', '2em', '150%', '1.5rem',
                                     'small', 'x-large', 'larger', '24',
                                     'smaller', '12pt', 'inherit'])
        if name == 'id':
            return name, rng.choice(['a', 'b', 'c'])
        if name == 'display':
            return name, rng.choice(['none', 'inline'])
        if name == 'transform':
            return name, rng.choice(['translate(10 20)', 'scale(2)',
                                     'rotate(45 10 10)', 'none',
                                     'translate(5) scale(2 3)'])
        if name in ('stroke-width', 'letter-spacing'):
            return name, self.length(False)
        if name == 'line-height':
            return name, rng.choice(['normal', '1.5', '20px', '120%'])
        return name, rng.choice(['red', 'blue'])

    def g_win(self):
        rng = self.rng
        name = rng.choice(['inner_width', 'inner_width', 'inner_height',
                           'inner_height', 'page_zoom_scale', 'screen.width',
                           'screen.media'])
        value = {'inner_width': [320, 640, 1024], 'page_zoom_scale': [1, 2],
                 'inner_height': [200, 480, 768], 'screen.width': [480, 1280],
                 'screen.media': ['screen', 'print']}[name]
        self.emit('win', name, rng.choice(value))


def settings(prog):
    root = prog.doc.document_element
    return {'inner_width': prog.win.inner_width,
            'inner_height': prog.win.inner_height,
            'page_zoom_scale': prog.win.page_zoom_scale,
            'screen.width': prog.win.screen.width,
            'screen.media': prog.win.screen.media,
            'zoom': [root.current_scale, list(root.current_translate)]
            if hasattr(root, 'current_scale') else None}


def answers(prog, names, what):
    out = {}
    for h in names:
        for q in what:
            args = [True] if q == 'path' else []
            out[h + ':' + q] = plain(prog.step(['q', h, q] + args))
    return out


def lengths_of(prog, held):
    from svgpy import SVGLength
    out = {}
    for key, h, number, unit, direction in held:
        length = SVGLength(float(number), context=prog.el(h),
                           direction=direction)
        if unit is not None:
            length.new_value(float(number), unit)
        out[key] = readings(length)
    return out


def readings(length):
    out = []
    for unit in (None, '%', 'vmin'):
        try:
            out.append(length.value(unit))
        except Exception as exc:
            out.append(type(exc).__name__)
    return out


def reference(question):
    """What a process says that only ever saw the present state."""
    prog = Prog()
    for name, value in question['settings'].items():
        if name != 'zoom':
            prog.op_win(name, value)
    prog.reload(question['text'].encode('utf-8'))
    if question['settings']['zoom']:
        prog.op_zoom(*question['settings']['zoom'])
    return {'answers': answers(prog, question['names'], question['asked']),
            'lengths': lengths_of(prog, question['held'])}


class E02(Check):
    RUNS = {'quick': 480, 'thorough': 60000}
    RULE = ('random histories of size, viewBox, font-size, geometry, '
            'transform, window and zoom changes and moves within and between '
            'two documents with windows of their own, interleaved with '
            'queries, kept lengths and arithmetic on them; at seeded points '
            'every answer compared with a fresh process that only sees the '
            'present serialisation, and viewport-relative lengths with an '
            'independent model; non-trivial: two comparisons after a change')

    # -- generation ---------------------------------------------------------
    def gen(self, rng, index, tier):
        ops = []
        gens = {}
        fonts = 0.4 if rng.random() < 0.1 else 0
        texts = TEXTS + (['2ex', '3ch', '1.5ic', '1cap'] * 3 if fonts else [])
        html = rng.choice('A' 'B') if rng.random() < 0.12 else None
        for who in 'AB':
            g = gens[who] = LenGen(
                rng, prefix=who, fonts=fonts, comment=0, pi=0, outer=0, text=.2,
                tail=0, content=0, cdata=0, cls=0, data=0, geom=9, set=4,
                win=3, zoom=1, move=3, detach=.7, restore=1, style=1)
            g.plain = False
            if who == html:
                # the root element is not an svg element
                size = rng.choice(['', ' font-size="10px"',
                                   ' font-size="23px"', ' font-size="2em"'])
                g.emit('load', '<html xmlns="{}" data-h="r"{}><svg xmlns="{}"'
                       ' data-h="v0" font-size="14px"/></html>'.format(
                           HTML, size, SVG))
                g.tags[ROOT] = 'html'
                g.tags['v0'] = 'svg'
                g.inside['v0'] = ROOT
                g.parent = lambda g=g: g.element(
                    ('g', 'svg', 'symbol', 'a', 'switch')) or 'v0'
            g.start(rng.randint(1, 4) if who == 'A' else rng.choice([0, 2]))
            # viewports, and shapes that depend on them
            for _ in range(rng.choice([1, 2, 3])):
                h = g.new('v')
                tag = rng.choice(['svg', 'svg', 'symbol', 'g'])
                attrib = {}
                if tag == 'g':
                    attrib['font-size'] = rng.choice(['20px', '10pt', '2em'])
                else:
                    for n in ('width', 'height'):
                        if rng.random() < .6:
                            attrib[n] = rng.choice(['50%', '200', '10vw',
                                                    '25vmax', '3in'])
                    if rng.random() < .5:
                        attrib['viewBox'] = rng.choice(VIEWBOXES)
                    if rng.random() < .3:
                        attrib['preserveAspectRatio'] = rng.choice(PARS)
                g.emit('make', h, 'svg', tag, attrib, g.parent(), None, 'doc')
                g.tags[h] = tag
            for _ in range(rng.choice([1, 2, 3])):
                h = g.new('s')
                tag = rng.choice(['rect', 'circle', 'ellipse', 'line'])
                attrib = {n: rng.choice(texts) for n in {
                    'rect': ['x', 'width', 'height'], 'circle': ['cx', 'r'],
                    'ellipse': ['cx', 'rx', 'ry'],
                    'line': ['x1', 'y2']}[tag]}
                attrib = {k: v.lstrip('-') for k, v in attrib.items()}
                g.emit('make', h, 'svg', tag, attrib, g.parent(), None, 'doc')
                g.tags[h] = tag
            ops += [['on', who, op] for op in g.ops]
        n = 0
        keys = []
        if index % 3 == 2:
            return {'ops': ops + self.sums(rng, gens['A'])}
        for _ in range(rng.choice([8, 16, 32])):
            who = 'A' if rng.random() < 0.7 else 'B'
            g = gens[who]
            r = rng.random()
            tags = SHAPES + ['g', 'svg', 'symbol', 'use']
            if rng.random() < 0.06:
                n += 1
                self.stir(rng, who, g, ops, 'L{}'.format(n))
                keys.append('L{}'.format(n))
            elif r < 0.12 or (r < 0.3 and not keys):
                n += 1
                keys.append('L{}'.format(n))
                ops.append(['hold', keys[-1], g.element(tags),
                            rng.choice(texts), rng.choice([0, 1, 2, 1, 2,
                                                           None])])
            elif r < 0.22:
                for _ in range(rng.choice([1, 3, 6])):
                    n += 1
                    ops.append(['arith', 'L{}'.format(n), rng.choice(keys),
                                rng.choice(sorted(OPS)), rng.choice(keys)
                                if rng.random() < .8 else
                                rng.choice([2, 0.5, -1])])
                    keys.append('L{}'.format(n))
            elif r < 0.26 and keys:
                ops.append(['convert', rng.choice(keys), rng.choice(UNITS)])
            elif r < 0.36 and keys:
                ops.append(['askl', rng.choice(keys), rng.choice(UNITS),
                            rng.choice([None, None, 0, 1, 2])])
            elif r < 0.42:
                h = g.node()
                if h:
                    other = 'B' if who == 'A' else 'A'
                    ops.append(['cross', h, other, gens[other].parent(),
                                gens[other].index()])
            elif r < 0.55:
                ops.append(['look', g.element(tags), rng.choice(QUERIES)])
            elif r < 0.62:
                ops.append(['check', rng.choice('AB'), rng.randrange(1000)])
            else:
                g.ops = []
                g.one()
                ops += [['on', who, op] for op in g.ops]
        ops += [['check', 'A', rng.randrange(1000)] for _ in '12']
        ops.append(['check', 'B', rng.randrange(1000)])
        return {'ops': ops}

    @staticmethod
    def sums(rng, g):
        """A run of arithmetic on a few lengths of few elements."""
        hs = [g.element(SHAPES + ['g', 'svg']) for _ in range(2)]
        texts = rng.sample(TEXTS, 3) + [rng.choice(['7', '0', '-2.5'])]
        ops = []
        for n in range(rng.choice([3, 5])):
            ops.append(['hold', 'L{}'.format(n), rng.choice(hs),
                        rng.choice(texts), rng.choice([0, 1, 1, 2])])
        for n in range(n + 1, n + rng.choice([10, 25])):
            r = rng.random()
            key = rng.choice(['L{}'.format(k) for k in range(min(n, 8))])
            if r < .1:
                ops.append(['convert', key, rng.choice(UNITS)])
            elif r < .2:
                ops.append(['askl', key, rng.choice(UNITS), None])
            else:
                ops.append(['arith', 'L{}'.format(n), key, rng.choice(
                    sorted(OPS) + ['+', '-', '+=', '-=']),
                    'L{}'.format(rng.randrange(min(n, 8)))
                    if rng.random() < .8 else rng.choice([2, 0.5, -1])])
        return ops + [['check', 'A', hs[0]]]

    @staticmethod
    def stir(rng, who, g, ops, key):
        """Asks an element, changes something above it, and asks again."""
        h = g.element(SHAPES + ['svg', 'symbol'])
        what = rng.sample(QUERIES, 2) + ['computed', 'geometry']
        ops.append(['hold', key, h, rng.choice(['2em', '50%', '10vmin',
                                                '1.5rem']),
                    rng.choice([0, 1, 2])])
        for q in what:
            ops.append(['look', h, q])
        ops.append(['askl', key, None, None])
        above = [h]
        while above[-1] in g.inside and g.inside[above[-1]] not in above:
            above.append(g.inside[above[-1]])
        target = rng.choice(above + [ROOT])
        name = rng.choice(['font-size', 'font-size', 'width', 'height',
                           'viewBox', 'preserveAspectRatio', 'transform'])
        value = {'width': ['50%', '300', '20vw', '4in'],
                 'height': ['25%', '500', '30vh', '5cm'],
                 'viewBox': VIEWBOXES, 'preserveAspectRatio': PARS,
                 'font-size': ['11px', '23px', '3em', '18pt', 'larger',
                               'xx-large'],
                 'transform': ['rotate(45 10 10)', 'translate(5) scale(2 3)',
                               'scale(.5) rotate(90 1 2)']}[name]
        ops.append(['on', who, ['set', target, name, rng.choice(value),
                                rng.choice(['attr', 'set',
                                            'set_attribute'])]])
        ops.append(['check', who, h])

    # -- execution ----------------------------------------------------------
    def run(self, scenario, ctx):
        self.fresh = Fresh(reference)
        try:
            self.progs = {'A': Prog(), 'B': Prog()}
            self.progs['B'].op_win('inner_width', 500)
            self.progs['B'].op_win('inner_height', 900)
            self.held = {}
            self.looked = []
            self.looks = self.sums_done = 0
            self.checks = self.changes = 0
            for op in scenario['ops']:
                ctx.event(op)
                getattr(self, 'op_' + op[0])(ctx, *op[1:])
            ctx.nontrivial = self.checks >= 2 or self.sums_done >= 5
        finally:
            self.fresh.close()

    def home(self, h):
        """The document a node is in now."""
        for who, prog in self.progs.items():
            for node in walk(prog.doc.document_element):
                if handle(node) == h and (
                        h != ROOT or node is prog.doc.document_element):
                    return who, prog, node
        raise Skip(h)

    def op_on(self, ctx, who, op):
        order = [who] + [w for w in 'AB' if w != who]
        for w in order:
            obs = self.progs[w].step(op)
            if obs != ['skip'] or op[0] in ('win', 'zoom', 'make'):
                break
        if tally(ctx, op, plain(obs)):
            self.changes += 1

    def op_look(self, ctx, h, what):
        try:
            prog = self.home(h)[1]
        except Skip:
            return
        prog.step(['q', h, what])
        self.looked.append(what)
        self.looks += 1
        ctx.count('op.look')

    def op_cross(self, ctx, h, other, parent, index):
        dst = self.progs[other]
        try:
            who, src, node = self.home(h)
            target = dst.el(parent)
        except Skip:
            return
        if who == other or node.getparent() is None:
            return
        dst.place(target, node, index)
        self.changes += 1
        ctx.count('op.cross')

    # -- lengths ------------------------------------------------------------
    def where(self, length):
        """The handle and home of the context of a length, if it has one."""
        node = length.context
        try:
            who, prog, found = self.home(handle(node))
        except Skip:
            return None
        return (who, prog) if found is node else None

    def raw(self, length):
        return repr(length.value(length.unit)), length.unit

    def unchanged(self, ctx, what, but=()):
        for key, (length, raw) in self.held.items():
            if key not in but:
                now = self.raw(length)
                ctx.check(now == raw, 'operand', lambda: '{} changed {} from '
                          '{} to {}'.format(what, key, raw, now))

    def keep(self, key, length):
        self.held[key] = [length, self.raw(length)]

    def op_hold(self, ctx, key, h, text, direction):
        from svgpy import SVGLength
        try:
            node = self.home(h)[2]
        except Skip:
            return
        if not hasattr(node, 'get_view_box'):
            return
        self.keep(key, SVGLength(text, context=node, direction=direction))
        number, unit = geomodel.split(text)
        ctx.check(self.raw(self.held[key][0]) == (repr(number), unit),
            'parsed',
            lambda: '{!r}: {}'.format(text, self.held[key][1]))
        ctx.count('op.hold')

    def usable(self, *keys):
        return all(k in self.held and self.where(self.held[k][0])
                   for k in keys)

    def op_arith(self, ctx, key, a, op, b):
        if not self.usable(a) or (isinstance(b, str) and not self.usable(b)):
            return
        x = self.held[a][0]
        y = self.held[b][0] if isinstance(b, str) else b
        px = [v.value() if isinstance(b, str) or v is x else v
              for v in (x, y)]
        changed = ()
        try:
            if op == 'abs':
                got, want = abs(x), None
            elif op == 'neg':
                got, want = -x, -px[0]
            elif op == 'pow':
                got, want = x ** 2, None
            else:
                want = None
                if op[0] in '+-' and isinstance(b, str) and \
                        y.context is x.context and \
                        x._direction == y._direction:
                    want = OPS[op[0]](*px)
                if op[0] in '*/' and not isinstance(b, str):
                    want = OPS[op[0]](*px)
                if op.endswith('=') and op[0] in '+-*/':
                    changed = (a,)
                got = OPS[op](x, y)
        except (ArithmeticError, TypeError, ValueError) as exc:
            ctx.count('rejected.arith')
            ctx.event(type(exc).__name__)
            got = None
        self.unchanged(ctx, '{} {} {}'.format(a, op, b), changed)
        for k in changed:
            self.held[k][1] = self.raw(self.held[k][0])
        if got is None or isinstance(got, bool):
            return
        ctx.check(bool(changed) == (got is x), 'in-place', op)
        if want is not None and self.where(got):
            now = got.value()
            ctx.check(math.isclose(now, want, rel_tol=1e-9, abs_tol=1e-6),
                      'arithmetic', lambda: '{} {} {} is {}, expected {}'
                      .format(str(x), op, y, now, want))
        if not changed:
            self.keep(key, got)
        ctx.count('op.arith')
        self.sums_done += 1

    def op_convert(self, ctx, key, unit):
        if not self.usable(key):
            return
        length, raw = self.held[key]
        before = length.value()
        try:
            length.convert(unit)
        except (ArithmeticError, ValueError) as exc:
            ctx.count('rejected.convert')
            ctx.event(type(exc).__name__)
            self.unchanged(ctx, 'failed conversion')
            return
        self.unchanged(ctx, 'conversion of ' + key, (key,))
        self.held[key][1] = self.raw(length)
        now = length.value()
        ctx.check(length.unit == unit and math.isclose(
            now, before, rel_tol=1e-9, abs_tol=1e-6), 'convert',
            lambda: '{} to {}: {}, was {}'.format(raw, unit, now, before))
        ctx.count('op.convert')

    def op_askl(self, ctx, key, unit, direction):
        if not self.usable(key):
            return
        length = self.held[key][0]
        try:
            length.value(unit, direction)
            length.tostring(unit, direction)
        except (ArithmeticError, ValueError) as exc:
            ctx.event(type(exc).__name__)
        self.unchanged(ctx, 'reading ' + key)
        self.model(ctx, length, key)
        ctx.count('op.ask')

    # -- the independent model ----------------------------------------------
    @staticmethod
    def window(prog):
        return prog.win.inner_width, prog.win.inner_height

    @staticmethod
    def font_size(node):
        try:
            return float(node.get_computed_style()['font-size'])
        except Exception:
            return None

    def near(self, ctx, kind, got, want, what):
        ctx.count('probe.' + kind)
        ctx.check(all(math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-6)
                      for a, b in zip(got, want)), kind,
                  lambda: '{}: {}, expected {}'.format(
                      what, list(got), list(want)))

    def model(self, ctx, length, key):
        prog = self.where(length)[1]
        want = geomodel.resolve(
            self.window(prog), length.context, '{!r}{}'.format(
                length.value(length.unit), length.unit or ''),
            length._direction, self.font_size)
        if want is not None:
            self.near(ctx, 'length', [length.value('px')], [want],
                      '{} ({}) in {}'.format(key, str(length),
                                             handle(length.context)))

    def model_element(self, ctx, prog, node, turn):
        """One element against the independent model."""
        h = handle(node)
        win = self.window(prog)
        sizes = geomodel.viewport(win, node)
        if hasattr(node, 'get_viewport_size') and sizes is not None:
            self.near(ctx, 'viewport', [
                v.value() for v in node.get_viewport_size()][2:], sizes[0], h)
        if not hasattr(node, 'get_ctm'):
            return
        name = 'screen_ctm' if turn % 2 else 'ctm'
        root = prog.doc.document_element
        want = geomodel.ctm(win, node, (
            root.current_scale, root.current_translate)
            if turn % 2 and root.local_name == 'svg' else None)
        if want is not None:
            m = getattr(node, 'get_' + name)()
            self.near(ctx, name, (m.a, m.b, m.c, m.d, m.e, m.f), want, h)
        size = geomodel.geometry(win, node, self.font_size)
        if not size:
            return
        try:
            got = node.get_computed_geometry()
        except Exception:
            ctx.count('rejected.geometry')
            return
        names = sorted(size)
        self.near(ctx, 'geometry', [got[n] for n in names],
                  [size[n] for n in names], '{} {}'.format(h, names))
        if node.local_name == 'line' and len(size) == 4:
            points = [(size['x1'], size['y1']), (size['x2'], size['y2'])]
            length = math.dist(*points)
            if not length:
                return
        elif node.local_name == 'rect' and len(size) == 6 and \
                not size['rx'] and not size['ry'] and \
                min(size['width'], size['height']) > 0:
            x, y, w, d = [size[n] for n in ('x', 'y', 'width', 'height')]
            points = [(x, y), (x + w, y), (x, y + d), (x + w, y + d)]
            length = 2 * (w + d)
        else:
            return
        m = geomodel.transform(node.get('transform'))
        points = [geomodel.apply(m, *p) for p in points]
        xs, ys = zip(*points)
        box = node.get_bbox()
        self.near(ctx, 'bbox', (box.x, box.y, box.width, box.height),
                  (min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)),
                  h)
        self.near(ctx, 'total_length', [node.get_total_length()], [length], h)

    # -- comparison ---------------------------------------------------------
    def op_check(self, ctx, who, turn):
        prog = self.progs[who]
        root = prog.doc.document_element
        nodes = [n for n in walk(root) if n.node_type == 1]
        names = [handle(n) for n in nodes]
        if isinstance(turn, str):
            # the element the question is about, with what was asked before
            first = names.index(turn) if turn in names else 0
            turn = self.looks
        else:
            first = turn % len(nodes)
        names = (names[first:] + names[:first])[:4]
        asked = (QUERIES[turn % 14:] + QUERIES[:turn % 14])[:5]
        asked += [q for q in self.looked[-4:] if q not in asked]
        held = []
        for key, (length, raw) in sorted(self.held.items()):
            at = self.where(length)
            if at and at[0] == who:
                held.append([key, handle(length.context), raw[0], raw[1],
                             length._direction])
        want = self.fresh.ask({
            'text': prog.save('document', 'utf-8').decode('utf-8'),
            'settings': settings(prog), 'names': names, 'asked': asked,
            'held': held})
        got = answers(prog, names, asked)
        for name in sorted(got):
            ctx.check(got[name] == want['answers'][name],
                      'stale:' + name.split(':')[1],
                      lambda: '{} in {}: {}'.format(
                          name, who, differ(got[name],
                                            want['answers'][name],
                                            'now / fresh')))
        for key in want['lengths']:
            length = self.held[key][0]
            for a, b in zip(readings(length), want['lengths'][key]):
                ctx.check(a == b or (
                    isinstance(a, float) and isinstance(b, float)
                    and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)),
                    'stale-length', lambda: '{} ({}) in {}: {} / fresh {}'
                    .format(key, str(length), handle(length.context), a, b))
            self.model(ctx, length, key)
        self.unchanged(ctx, 'comparison')
        for node in (nodes[first:] + nodes[:first])[:4]:
            self.model_element(ctx, prog, node, turn)
        ctx.state(sorted(got.items()))
        ctx.count('op.check')
        ctx.count('op.check-lengths', len(want['lengths']))
        self.checks += bool(self.changes)
        self.changes = 0


CHECKS = {'E02': E02}
