"""S01 style sheet objects."""
import copy
from collections import OrderedDict

from .. import net, trace
from ..engine import Check

BASE = 'http://sheets.example/'
SELECTORS = ['a', 'rect', '.c', '#i', 'g > rect', 'a, b', 'svg|path',
             'rect:first-child', '*', '[x="1"]']
MEDIA = ['screen', 'print', 'all', 'not print', '(color)',
         '(min-width: 100px)', 'screen and (color)', 'speech', 'tv']
# written, read
VALUES = {
    'fill': [('red', 'red'), ('BLUE', 'BLUE'), ('CurrentColor', 'currentcolor'), ('none', 'none'),
             ('Inherit', 'inherit'), ('#abc', '#abc'), (' lime ', 'lime')],
    'stroke': [('green', 'green'), ('INITIAL', 'initial'), ('none', 'none')],
    'stroke-width': [('1', '1'), ('2px', '2px'), (' 3% ', '3%')],
    'stroke-dasharray': [('1 2', '1 2'), ('1,  2', '1, 2'),
                         ('5\n6', '5 6')],
    'Opacity': [('0.5', '0.5'), ('1', '1')],
    'FONT-SIZE': [('12px', '12px'), ('LARGER', 'LARGER'), ('2em', '2em')],
    'font-style': [('italic', 'italic'), ('normal', 'normal')],
    'font-family': [('serif', 'serif'), ('"A B", serif', '"A B", serif')],
    'line-height': [('1.5', '1.5'), ('normal', 'normal')],
    'overflow-x': [('hidden', 'hidden'), ('scroll', 'scroll')],
    'overflow-y': [('hidden', 'hidden'), ('visible', 'visible')],
    'text-decoration-line': [('underline', 'underline'), ('none', 'none')],
    'text-decoration-color': [('Red', 'Red'), ('TRANSPARENT', 'transparent'), ('#00f', '#00f')],
    'text-wrap': [('nowrap', 'nowrap'), ('wrap', 'wrap')],
    'mask-image': [('none', 'none')],
    'mask-clip': [('border-box', 'border-box'), ('initial', 'initial')],
    'mask-border-repeat': [('stretch', 'stretch')],
    'font-variant-caps': [('small-caps', 'small-caps'),
                          ('normal', 'normal')],
    'font-kerning': [('auto', 'auto'), ('none', 'none')],
    '--v': [('1', '1'), ('a b', 'a b'), ('X', 'X')],
    '--V': [('2', '2'), ('calc(1px + 2px)', 'calc(1px + 2px)')],
    '-x-own': [('z', 'z')],
    'unknown': [('w(1)', 'w(1)'), ('"s;t"', '"s;t"')],
}
SHORT = {
    'overflow': ['hidden', 'scroll hidden', 'inherit', 'visible'],
    'text-decoration': ['underline', 'underline red', 'none', 'inherit'],
    'white-space': ['pre', 'nowrap', 'normal', 'pre-line', 'inherit'],
    'font-synthesis': ['none', 'weight', 'weight style'],
    'font-variant': ['normal', 'small-caps', 'none', 'inherit'],
    'font': ['12px serif', 'italic bold 10px "A B"', 'inherit',
             'small-caps 12px/1.5 serif'],
    'mask': ['none', 'url(#m)', 'inherit', 'border-box'],
    'mask-border': ['url(#m) 10', 'inherit', 'none'],
}
BADVALUES = ['red;blue', 'red !important', ')', 'a; b: c', '}x']
BADNAMES = ['', '1a', 'a b', 'a:b', 'fill;', '-', 'a{', '-1x', ' fill']
BADPRIORITY = ['x', '!important', 'important ', '1']
JUNK = ['', ' ', '/* no rule */', 'garbage', '@unknown {a {b: c}}', '}',
        '@media screen;', '@font-face;', '<!-- -->', '@charset "utf-8";',
        '@font-feature-values F;']
# those that do not become part of the next rule
CLOSED = [j for j in JUNK if j[:1] == '@']
FACE = [('font-family', '"F"'), ('src', 'local("x")'),
        ('font-weight', '400')]
FEATURES = ['annotation', 'character-variant', 'ornaments', 'styleset',
            'stylistic', 'swash']
KIND = {'style': 1, 'import': 3, 'media': 4, 'ff': 5, 'ns': 10, 'ffv': 14}


# -- rule specifications ----------------------------------------------------
def gen_decl(rng, n=None):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5]) if n is None else n):
        # tinycss2 here does not read custom properties from a style sheet
        name = rng.choice([n for n in sorted(VALUES) if n[:2] != '--'])
        w, r = rng.choice(VALUES[name])
        out.append([name, w, r, rng.random() < 0.3])
    return out


def gen_media(rng, low=0):
    return rng.sample(MEDIA, rng.choice([low, 1, 1, 2, 3]))


def gen_rule(rng, depth=0, imports=True):
    r = rng.random()
    if r < 0.5:
        return {'k': 'style', 'sel': rng.choice(SELECTORS),
                'decl': gen_decl(rng)}
    if r < 0.72 and depth < 2:
        return {'k': 'media', 'media': gen_media(rng),
                'rules': [gen_rule(rng, depth + 1, imports)
                          for _ in range(rng.choice([0, 1, 2, 3]))]}
    if r < 0.8:
        return {'k': 'ns', 'prefix': rng.choice(['', 'svg', 'p']),
                'uri': rng.choice(['http://www.w3.org/2000/svg', 'u:x'])}
    if r < 0.86:
        return {'k': 'ff', 'decl': [[n, v, v, False] for n, v in
                                    rng.sample(FACE, rng.randint(1, 3))]}
    if r < 0.91:
        values = {}
        for f in rng.sample(FEATURES, rng.randint(1, 3)):
            values[f] = {rng.choice(['nice', 'b']):
                         [rng.randint(0, 9) for _ in
                          range(rng.randint(1, 3))]}
        return {'k': 'ffv', 'family': rng.choice(['F', '"F G"']),
                'values': values}
    if r < 0.97 and imports:
        return {'k': 'import', 'url': BASE + 'i{}.css'.format(
            rng.randrange(3)), 'media': gen_media(rng)}
    return {'k': 'junk', 'text': rng.choice(CLOSED)}


def decl_text(decl):
    return '; '.join('{}: {}{}'.format(n, w, ' !important' if i else '')
                     for n, w, r, i in decl)


def rule_text(spec):
    k = spec['k']
    if k == 'style':
        return '{} {{ {} }}'.format(spec['sel'], decl_text(spec['decl']))
    if k == 'media':
        return '@media {} {{ {} }}'.format(
            ', '.join(spec['media']),
            '\n'.join(rule_text(x) for x in spec['rules']))
    if k == 'ns':
        return '@namespace {} "{}";'.format(spec['prefix'], spec['uri'])
    if k == 'ff':
        return '@font-face {{ {} }}'.format(decl_text(spec['decl']))
    if k == 'ffv':
        return '@font-feature-values {} {{ {} }}'.format(
            spec['family'],
            ' '.join('@{} {{ {} }}'.format(f, ' '.join(
                '{}: {};'.format(n, ' '.join(map(str, v)))
                for n, v in m.items())) for f, m in spec['values'].items()))
    if k == 'import':
        return '@import "{}" {};'.format(spec['url'],
                                         ', '.join(spec['media']))
    return spec['text']


def sheet_text(specs):
    return '\n/* c */\n'.join(rule_text(s) for s in specs)


# -- the model --------------------------------------------------------------
class Node:
    """A rule or a sheet of the list model, bound to the real object."""

    def __init__(self, kind):
        self.kind = kind
        self.real = None
        self.rules = None
        self.decl = None
        self.media = None
        self.readonly = False
        self.fixed = {}
        self.parent_rule = None
        self.parent_sheet = None
        self.sheet = None
        self.detached = False


class S01(Check):
    RUNS = {'quick': 3000, 'thorough': 60000}
    RULE = ('random histories of rule insertions and deletions (several '
            'rules, nested groups, imports over the simulated network, '
            'invalid text, an exception injected at a random library line), '
            'media list edits and declaration edits on sheets, nested groups '
            'and detached rules, against a list model; every sheet, rule, '
            'media list and declaration block ever seen compared after every '
            'step; non-trivial: five accepted edits')
    STUB = ['urllib.request.urlopen (simulated network)']

    # -- generation ---------------------------------------------------------
    def gen(self, rng, index, tier):
        routes = {BASE + 'i{}.css'.format(i): [
            gen_rule(rng, 1) for _ in range(rng.choice([0, 1, 3]))]
            for i in range(2)}
        sheets = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            how = rng.choice(['text', 'text', 'load', 'doc'])
            sheets.append([how, [gen_rule(rng, 0, how != 'doc') for _ in
                                 range(rng.choice([0, 1, 3, 5]))]])
        faults = [{'n': rng.randrange(6),
                   'kind': rng.choice(net.HARD_FAULTS), 'at': rng.random()}
                  for _ in range(rng.choice([0, 0, 1, 2]))]
        ops = [self.gen_op(rng) for _ in range(rng.choice([4, 8, 15, 30]))]
        return {'routes': routes, 'sheets': sheets, 'faults': faults,
                'ops': ops}

    def gen_op(self, rng):
        r = rng.random()
        t, at = rng.randrange(60), rng.randrange(40)
        if r < 0.2:
            specs = [gen_rule(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            k = None
            if rng.random() < 0.3:
                # anywhere, or in the body of insert_rule itself
                k = int(2 ** rng.uniform(0, 10))
                if rng.random() < 0.5:
                    k = -rng.randint(1, 9)
            return ['insert', t, at, specs, k]
        if r < 0.23:
            return ['insertbad', t, at, rng.choice(JUNK)]
        if r < 0.33:
            return ['delete', t, at,
                    rng.randrange(1, 4) if rng.random() < 0.2 else None]
        if r < 0.35:
            return ['deletebad', t, rng.choice([0, 1, 7])]
        if r < 0.58:
            how = rng.choice(['append', 'append_medium', 'delete_medium',
                              'insert', 'setitem', 'delitem', 'text',
                              'condition', 'clear', 'pop', 'remove',
                              'extend', 'reverse', 'comma', 'absent'])
            return ['media', t, how, gen_media(rng, 1), at]
        if r < 0.62:
            return ['readonly', t, rng.random() < 0.5]
        if r < 0.64:
            return ['disabled', t, rng.random() < 0.5]
        if r < 0.72:
            return ['remove', t, at, rng.choice(['remove_property', 'del',
                                                 'empty', 'short', 'pop'])]
        if r < 0.8:
            s = rng.choice(sorted(SHORT))
            return ['short', t, s, rng.choice(SHORT[s]),
                    rng.choice(['', 'important', 'IMPORTANT'])]
        if r < 0.86:
            return ['setbad', t, rng.choice(['value', 'name', 'priority',
                                             'overflow']),
                    rng.randrange(20), at]
        name = rng.choice(sorted(VALUES))
        w, want = rng.choice(VALUES[name])
        return ['set', t, rng.choice([name, name, name.upper()
                                      if name[:2] != '--' else name]),
                w, want, rng.choice([None, None, '', 'important',
                                     'Important']),
                rng.random() < 0.3]

    # -- execution ----------------------------------------------------------
    def run(self, scenario, ctx):
        from svgpy import css
        from svgpy.exception import NoModificationAllowedError
        self.css, self.denied = css, NoModificationAllowedError
        self.ctx = ctx
        self.sheets, self.groups, self.rules = [], [], []
        self.decls, self.medias = [], []
        self.server = net.Server(
            ctx, {u: {'body': sheet_text(s), 'ctype': 'text/css'}
                  for u, s in scenario['routes'].items()},
            scenario['faults']).install()
        self.routes = scenario['routes']
        self.docs = []
        self.accepted = 0
        for how, specs in scenario['sheets']:
            self.open_sheet(how, specs)
        self.verify('start')
        for op in scenario['ops']:
            getattr(self, 'op_' + op[0])(*op[1:])
            ctx.event(op)
            self.verify(op)
        self.finish()
        ctx.nontrivial = self.accepted >= 5

    def open_sheet(self, how, specs):
        text = sheet_text(specs)
        self.ordinal = len(self.server.requests)
        sheet = Node('sheet')
        if how == 'text':
            sheet.real = self.css.CSSStyleSheet(media='screen, print')
            sheet.media = ['screen', 'print']
            sheet.real.insert_rule(text)
        elif how == 'load':
            url = BASE + 'own{}.css'.format(len(self.sheets))
            self.server.routes[url] = {'body': text, 'ctype': 'text/css'}
            failed = self.failing(self.ordinal)
            self.ordinal += 1
            sheet.real = self.css.CSSParser.parse(url)
            sheet.location = url
            sheet.media = []
            if failed:
                specs = []
        else:
            from svgpy.window import SVGDOMImplementation
            doc = SVGDOMImplementation().create_svg_document()
            style = doc.create_element_ns('http://www.w3.org/2000/svg',
                                          'style')
            style.text = text
            style.attributes['media'] = 'screen, tv'
            doc.document_element.append(style)
            real = doc.style_sheets
            self.docs.append((doc, specs, real))
            sheet.real = real[-1]
            sheet.media = ['screen', 'tv']
            self.ctx.check(sheet.real.owner_node is style, 'owner-node')
        if how != 'load':
            sheet.location = None
        sheet.rules = []
        sheet.owner = None
        sheet.disabled = False
        self.add_sheet(sheet)
        self.bind(self.build(specs, sheet, None), sheet.real.css_rules,
                  sheet)
        sheet.rules[:] = self.built

    def failing(self, ordinal):
        return any(f['n'] == ordinal for f in self.server.faults)

    def add_sheet(self, sheet):
        self.sheets.append(sheet)
        self.medias.append(sheet)

    # the nodes of specs as the parser reads them, in request order
    def build(self, specs, sheet, parent_rule):
        out = []
        for s in specs:
            k = s['k']
            if k == 'junk':
                continue
            node = Node(k)
            node.parent_sheet, node.parent_rule = sheet, parent_rule
            node.spec = s
            if k in ('style', 'ff'):
                node.decl = OrderedDict()
                for n, w, r, important in s['decl']:
                    self.put(node.decl, self.key(n), r,
                             'important' if important else '')
            if k == 'media':
                node.media = list(s['media'])
                node.rules = self.build(s['rules'], sheet, node)
            if k == 'import':
                node.media = list(s['media'])
                node.sheet = sub = Node('sheet')
                sub.owner = node
                sub.disabled = False
                sub.location = s['url']
                sub.rules = []
                if s['url'] in self.ancestors(sheet):
                    sub.location = None
                else:
                    failed = self.failing(self.ordinal)
                    self.ordinal += 1
                    if not failed and s['url'] in self.routes:
                        sub.rules = self.build(self.routes[s['url']], sub,
                                               node)
            out.append(node)
        self.built = out
        return out

    def ancestors(self, sheet):
        out = []
        while sheet is not None:
            out.append(sheet.location)
            sheet = sheet.owner.parent_sheet if sheet.owner else None
        return out

    @staticmethod
    def key(name):
        return name if name.startswith('--') else name.lower()

    @staticmethod
    def put(decl, name, value, priority):
        if name in decl:
            decl.move_to_end(name)
        decl[name] = (value, priority)

    # binds nodes just built to the real rules
    def bind(self, nodes, real, where):
        self.ctx.check(len(nodes) == len(real), 'rule-count', lambda:
                       '{}: {} rules, expected {}'.format(
                           where.kind, [r.css_text for r in real],
                           [n.spec for n in nodes]))
        for node, r in zip(nodes, real):
            self.ctx.check(not any(x.real is r for x in self.rules),
                           'shared-rule', lambda: repr(r))
            node.real = r
            node.fixed = {'css_text': r.css_text}
            self.ctx.equal(r.type, KIND[node.kind], 'rule-type',
                           repr(node.spec))
            self.rules.append(node)
            if node.decl is not None:
                self.decls.append(node)
            if node.media is not None:
                self.medias.append(node)
            if node.kind == 'media':
                self.groups.append(node)
                self.bind(node.rules, r.css_rules, node)
            if node.sheet is not None:
                sub = node.sheet
                sub.real = r.style_sheet
                sub.media = list(r.style_sheet.media)
                self.ctx.check(sub.real is not None, 'import-sheet', '')
                self.add_sheet(sub)
                self.bind(sub.rules, sub.real.css_rules, sub)

    # -- choices ------------------------------------------------------------
    def pick(self, seq, t):
        return seq[t % len(seq)] if seq else None

    def container(self, t):
        return self.pick(self.sheets + self.groups, t)

    def ok(self, name):
        self.accepted += 1
        self.ctx.count('op.' + name)

    def reject(self, name, exc=None):
        self.ctx.count('fault.rejected')
        self.ctx.count('rejected.' + name)

    # -- rules --------------------------------------------------------------
    def op_insert(self, t, at, specs, k):
        node = self.container(t)
        at %= len(node.rules) + 1
        text = sheet_text(specs)
        if k is None and at == 0 and node.kind == 'sheet' and len(text) % 2:
            call = lambda: node.real.insert_rule(text)
        else:
            call = lambda: node.real.insert_rule(text, at)
        self.ordinal = len(self.server.requests)
        before = list(node.real.css_rules)
        if k is not None:
            hit, got = trace.inject_at(
                abs(k), call, (lambda code: code.co_name == 'insert_rule')
                if k < 0 else None)
            if hit:
                self.ctx.count('fault.interrupt')
                now = list(node.real.css_rules)
                if len(now) == len(before) and all(
                        a is b for a, b in zip(now, before)):
                    return
                self.ctx.count('probe.interrupted_after_insert')
        else:
            got = call()
            hit = False
        if not hit:
            self.ctx.equal(got, at, 'insert-result', text)
        sheet = node if node.kind == 'sheet' else node.parent_sheet
        parent = node.owner if node.kind == 'sheet' else node
        nodes = self.build(specs, sheet, parent)
        real = node.real.css_rules
        self.ctx.check(len(real) == len(before) + len(nodes), 'rule-count',
                       lambda: 'inserting {!r}: {} rules'.format(
                           text, len(real)))
        self.bind(nodes, real[at:at + len(nodes)], node)
        node.rules[at:at] = nodes
        self.ok('insert')

    def op_insertbad(self, t, at, text):
        node = self.container(t)
        try:
            node.real.insert_rule(text, at % (len(node.rules) + 1))
        except Exception as exc:
            self.ctx.event('refused', repr(exc)[:80])
        self.reject('rule')

    def op_delete(self, t, at, k):
        node = self.container(t)
        if not node.rules:
            return
        at %= len(node.rules)
        call = lambda: node.real.delete_rule(at)
        if k is None:
            call()
        else:
            hit, _ = trace.inject_at(k, call)
            if hit:
                self.ctx.count('fault.interrupt')
                if len(node.real.css_rules) == len(node.rules):
                    return
        node.rules[at].detached = True
        del node.rules[at]
        self.ok('delete')

    def op_deletebad(self, t, beyond):
        node = self.container(t)
        try:
            node.real.delete_rule(len(node.rules) + beyond)
        except Exception:
            self.reject('delete')
            return
        self.ctx.check(False, 'delete-beyond', 'a rule that is not there '
                       'was deleted')

    # -- media lists --------------------------------------------------------
    def op_media(self, t, how, media, at):
        node = self.pick(self.medias, t)
        if node is None:
            return
        real, want, m = node.real.media, node.media, media[0]
        if how in ('append', 'append_medium'):
            getattr(real, how)(m + ' ' * (at % 2))
            if m not in want:
                want.append(m)
        elif how == 'extend':
            real.extend(media)
            for x in media:
                if x not in want:
                    want.append(x)
        elif how in ('delete_medium', 'remove', 'pop', 'delitem', 'setitem'):
            if not want:
                return self.op_media(t, 'absent', media, at)
            i = at % len(want)
            if how == 'delete_medium':
                x = want[i]
                real.delete_medium(x)
                want.remove(x)
            elif how == 'remove':
                x = want[i]
                real.remove(x)
                want.remove(x)
            elif how == 'pop':
                self.ctx.equal(real.pop(i), want.pop(i), 'media-pop')
            elif how == 'delitem':
                del real[i]
                del want[i]
            else:
                real[i] = want[i] = m
        elif how == 'insert':
            i = at % (len(want) + 1)
            real.insert(i, ' ' * (at % 3) + m)
            want.insert(i, m)
        elif how in ('text', 'condition'):
            text = ' , '.join(media) if at % 3 else ''
            if how == 'condition' and node.kind == 'media':
                node.real.condition_text = text
            else:
                real.media_text = text
            want[:] = media if text else []
        elif how == 'clear':
            real.clear()
            want.clear()
        elif how == 'reverse':
            real.reverse()
            want.reverse()
        elif how == 'comma':
            (real.append_medium if at % 2 else real.delete_medium)(
                'screen, print')
            return self.reject('media')
        else:
            try:
                real.delete_medium('nothing')
            except Exception:
                pass
            try:
                del real[len(want) + at]
            except IndexError:
                return self.reject('media')
            self.ctx.check(False, 'media-beyond', 'a medium that is not '
                           'there was deleted')
        self.ok('media.' + how)

    def op_disabled(self, t, value):
        node = self.pick(self.sheets, t)
        node.real.disabled = node.disabled = value

    # -- declarations -------------------------------------------------------
    def op_readonly(self, t, value):
        node = self.pick(self.decls, t)
        if node is not None:
            node.real.style.readonly = node.readonly = value

    def guarded(self, node, call):
        if not node.readonly:
            call()
            return True
        try:
            call()
        except self.denied:
            self.reject('readonly')
            return False
        self.ctx.check(False, 'readonly', 'a read-only block was changed')

    def op_set(self, t, name, w, want, priority, item):
        node = self.pick(self.decls, t)
        if node is None:
            return
        style, key = node.real.style, self.key(name)
        if item and priority is None:
            def call():
                style[name] = w
        else:
            def call():
                if priority is None:
                    style.set_property(name, w)
                else:
                    style.set_property(name, w, priority)
        if self.guarded(node, call):
            if priority is None:
                priority = node.decl.get(key, ('', ''))[1]
            self.put(node.decl, key, want, priority.lower())
            self.ok('set')

    def longhands(self, name):
        out = []
        for s in SHORT[name]:
            for n in self.fresh([(name, s, '')]).keys():
                if n not in out:
                    out.append(n)
        return out

    def fresh(self, settings):
        sheet = self.css.CSSStyleSheet()
        sheet.insert_rule('x {}')
        style = sheet.css_rules[0].style
        for n, v, p in settings:
            style.set_property(n, v, p)
        return style

    def op_short(self, t, name, value, priority):
        node = self.pick(self.decls, t)
        if node is None:
            return
        style = node.real.style
        if self.guarded(node, lambda: style.set_property(name, value,
                                                         priority)):
            for n, (v, p) in self.fresh([(name, value, priority)]).items():
                self.put(node.decl, n, v, p)
            self.ok('short')

    def op_remove(self, t, at, how):
        node = self.pick(self.decls, t)
        if node is None:
            return
        style = node.real.style
        if how == 'short':
            name = sorted(SHORT)[at % len(SHORT)]
            if self.guarded(node, lambda: style.remove_property(name)):
                for n in self.longhands(name):
                    node.decl.pop(n, None)
                self.ok('remove')
            return
        names = list(node.decl) + ['absent-one']
        name = names[at % len(names)]
        want = node.decl.get(name, ('', ''))[0]
        written = name.upper() if at % 2 and name[:2] != '--' else name

        def call():
            if how == 'del':
                del style[written]
            elif how == 'empty':
                style.set_property(written, ' ' * (at % 3))
            elif how == 'pop':
                self.ctx.equal(style.pop(written), want, 'removed-value')
            else:
                self.ctx.equal(style.remove_property(written), want,
                               'removed-value')
        if self.guarded(node, call):
            node.decl.pop(name, None)
            self.ok('remove')

    def op_setbad(self, t, what, i, at):
        node = self.pick(self.decls, t)
        if node is None:
            return
        style = node.real.style
        names = list(node.decl) or ['fill']
        name = names[at % len(names)]
        args = {'value': (name, BADVALUES[i % len(BADVALUES)]),
                'name': (BADNAMES[i % len(BADNAMES)], 'red'),
                'priority': (name, 'red', BADPRIORITY[i % len(BADPRIORITY)]),
                'overflow': ('overflow', ['foo', 'hidden scroll visible',
                                          'inherit initial'][i % 3])}[what]
        try:
            style.set_property(*args)
        except self.denied:
            self.ctx.check(node.readonly, 'refused', repr(args))
        self.reject(what)

    # -- oracle -------------------------------------------------------------
    def verify(self, op):
        where = 'after {}'.format(op)
        eq, check = self.ctx.equal, self.ctx.check
        for node in self.sheets + self.groups:
            real = node.real.css_rules
            check(len(real) == len(node.rules) and all(
                r is n.real for r, n in zip(real, node.rules)), 'rule-list',
                lambda: '{}: {} has {}, expected {}'.format(
                    where, node.kind, [r.css_text for r in real],
                    [n.spec for n in node.rules]))
        for node in self.sheets:
            check(node.real.owner_rule is (node.owner and node.owner.real),
                  'owner-rule', where)
            eq(node.real.location, node.location, 'location', where)
            eq(node.real.disabled, node.disabled, 'disabled', where)
            if node.owner is not None:
                check(node.owner.real.style_sheet is node.real,
                      'import-sheet', where)
        for node in self.medias:
            m, want = node.real.media, node.media
            eq(list(m), want, 'media', where)
            eq((m.length, len(m)), (len(want),) * 2, 'media-length', where)
            eq([m.item(i) for i in range(len(want))], want, 'media-item',
               where)
            eq(m.media_text, ', '.join(want).lower(), 'media-text', where)
            if node.kind == 'media':
                eq(node.real.condition_text, m.media_text, 'condition',
                   where)
        for node in self.rules:
            r = node.real
            if not node.detached:
                check(r.parent_style_sheet is node.parent_sheet.real,
                      'parent-sheet', lambda: '{}: {}'.format(where,
                                                              node.spec))
                check(r.parent_rule is (node.parent_rule and
                                        node.parent_rule.real),
                      'parent-rule', lambda: '{}: {}'.format(where,
                                                             node.spec))
            eq(r.css_text, node.fixed['css_text'], 'css-text', where)
            eq(r.type, KIND[node.kind], 'rule-type', where)
            if node.kind == 'style':
                eq(r.selector_text, node.spec['sel'], 'selector', where)
            elif node.kind == 'ns':
                eq((r.prefix, r.namespace_uri),
                   (node.spec['prefix'], node.spec['uri']), 'namespace',
                   where)
            elif node.kind == 'import':
                eq(r.href, node.spec['url'], 'href', where)
            elif node.kind == 'ffv':
                eq(r.font_family, node.spec['family'], 'family', where)
                got = {f: {n: list(v) for n, v in
                           getattr(r, f.replace('-', '_')).items()}
                       for f in FEATURES}
                eq({f: m for f, m in got.items() if m},
                   node.spec['values'], 'features', where)
        for node in self.decls:
            self.verify_style(node.real.style, node.decl, where)
            check(node.real.style.parent_rule is node.real, 'style-parent',
                  where)
            eq(node.real.style.readonly, node.readonly, 'readonly', where)
        self.ctx.state([(n.kind, len(n.rules)) for n in
                        self.sheets + self.groups])
        self.ctx.state([list(n.decl.items()) for n in self.decls])

    def verify_style(self, style, want, where):
        eq = self.ctx.equal
        eq(list(style.items()), list(want.items()), 'declarations', where)
        names = list(want)
        eq((style.length, len(style)), (len(want),) * 2, 'length', where)
        eq([style.item(i) for i in range(len(want))], names, 'item', where)
        eq((list(style), list(style.keys()), list(style.values())),
           (names, names, list(want.values())), 'names', where)
        for n in names:
            up = n if n[:2] == '--' else n.upper()
            eq((style.get_property_value(up), style[n], n in style,
                style.get_property_priority(n)),
               (want[n][0], want[n][0], True, want[n][1]), 'value',
               '{}: {}'.format(where, n))
        eq((style['nothing'], 'nothing' in style,
            style.get_property_priority('nothing')), ('', False, ''),
           'absent', where)

    def text_of(self, nodes):
        out = []
        for n in nodes:
            spec = dict(n.spec)
            if n.decl is not None:
                spec['decl'] = [[k, v, v, p == 'important']
                                for k, (v, p) in n.decl.items()
                                if k[:2] != '--']
            if n.media is not None:
                spec['media'] = n.media
            if n.kind == 'media':
                out.append('@media {} {{ {} }}'.format(
                    ', '.join(n.media), self.text_of(n.rules)))
            elif n.kind != 'import':
                out.append(rule_text(spec))
        return '\n'.join(out)

    def same(self, nodes, real, where):
        nodes = [n for n in nodes if n.kind != 'import']
        self.ctx.equal([r.type for r in real], [KIND[n.kind] for n in nodes],
                       'reparse-rules', where)
        for n, r in zip(nodes, real):
            if n.decl is not None:
                self.verify_style(r.style, OrderedDict(
                    (k, v) for k, v in n.decl.items() if k[:2] != '--'),
                    where)
            if n.media is not None:
                self.ctx.equal(list(r.media), n.media, 'reparse-media',
                               where)
            if n.rules is not None:
                self.same(n.rules, r.css_rules, where)

    def finish(self):
        # the state reached is the one a new parse of it gives, and the
        # shorthands do not depend on the history
        for node in self.sheets:
            sheet = self.css.CSSStyleSheet()
            text = self.text_of(node.rules)
            sheet.insert_rule(text)
            self.same(node.rules, sheet.css_rules, 'reparse of ' + text)
            repr(node.real)
        for node in self.decls:
            style = self.fresh([(n, v, p) for n, (v, p) in
                                node.decl.items()])
            for s in SHORT:
                self.ctx.equal(
                    (node.real.style[s],
                     node.real.style.get_property_priority(s)),
                    (style[s], style.get_property_priority(s)), 'shorthand',
                    '{} of {}'.format(s, list(node.decl.items())))
        # sheets of a document are read anew
        for doc, specs, old in self.docs:
            ua = len(old[0].css_rules)
            for r in list(old[0].css_rules):
                style = getattr(r, 'style', None)
                if style is not None:
                    style.set_property('fill', 'red', 'important')
            old[0].css_rules.clear()
            self.ordinal = len(self.server.requests)
            again = doc.style_sheets
            self.ctx.equal(len(again[0].css_rules), ua, 'user-agent-sheet')
            self.ctx.check(not any('red' in r.css_text or getattr(
                r, 'style', {}).get('fill') == ('red', 'important')
                for r in again[0].css_rules), 'user-agent-sheet')
            sheet = Node('sheet')
            sheet.owner, sheet.location = None, None
            nodes = self.build(specs, sheet, None)
            self.same(nodes, again[-1].css_rules, 'sheet of the document')
            self.ctx.equal(list(again[-1].media), ['screen', 'tv'],
                           'sheet-media')

    def simplify(self, scenario):
        for i in range(len(scenario['sheets'])):
            out = copy.deepcopy(scenario)
            out['sheets'][i][1] = []
            yield out
            for j in range(len(scenario['sheets'][i][1])):
                out = copy.deepcopy(scenario)
                del out['sheets'][i][1][j]
                yield out
        for i in range(len(scenario['faults'])):
            out = copy.deepcopy(scenario)
            del out['faults'][i]
            yield out
        for u in scenario['routes']:
            if scenario['routes'][u]:
                out = copy.deepcopy(scenario)
                out['routes'][u] = []
                yield out


CHECKS = {'S01': S01}
