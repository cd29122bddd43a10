"""D04 inline style."""
import gc
import io
import re

import tinycss2

from ..engine import Check
from ..model import HTML, SVG
from ..web import DEFAULTS, PROPS

RAW = ['clip-path', 'filter', 'content', 'unknown-x', '--custom', '--Custom',
       'will-change', '-x-vendor', 'cue']
VALUES = ['none', 'a', 'url("a;b")', 'url(#p)', 'url("x:y")', '"a;b"',
          '"it\'s"', "'q\"t'", 'f(1, 2)', 'f(a;b)', '{a:b}', '[a;b]', 'a:b',
          'a b c', '"!important"', 'f(!important)', '"}"', '"/*"', 'a/b',
          'a, b', '\xe9', '"\u65e5;"', '#fff', '1px', '50%', '-1.5e3',
          'url(http://h/p?a=b&c=d#e)', '"\\";"', 'f(")")', '"<&>"', 'var(--a)',
          'a\\;b', '(;)', '"a  b"', 'f( )', '.5em', '+3', 'calc(1px + 2%)',
          'url(data:image/png;base64,AAAA)', 'Aa', 'url(#Pq)', '"Ab"', 'Fn(X)', '"a:b;c:d !important"']
BAD_VALUES = ['a; fill: x', 'a;', ';', '!', 'a !important', '!important', 'a)',
              ')', ']', '}', 'a} b', 'b ; stroke : y', '! x', 'a!']
BAD_NAMES = ['a:b', 'a;b', 'a b', '1x', 'a/**/b', '"a"', 'a(', '!', ':', ';',
             'fill:', '{', '#a', 'a}']
ABSENT = ['none-such', 'd', 'fill-x', '--none', 'zoom']
OTHER = ['class', 'data-k', 'lang', 'data-x'] + PROPS


def canon(nodes):
    """The text of a value, comments gone and white space collapsed outside
    of strings, by the CSS parser alone."""
    if isinstance(nodes, str):
        nodes = tinycss2.parse_component_value_list(nodes)

    def text(items):
        out = ''
        for n in items:
            if n.type == 'comment':
                continue
            if n.type == 'whitespace':
                if not out.endswith('\0'):
                    out += '\0'
            elif n.type == 'function':
                out += n.name + '(' + text(n.arguments) + ')'
            elif n.type in ('() block', '[] block', '{} block'):
                out += n.type[0] + text(n.content) + n.type[1]
            elif n.type == 'ident':
                out += n.value
            else:
                out += n.serialize()
        return out
    return text(nodes).strip('\0').replace('\0', ' ')


def fold(name):
    return name if name.startswith('--') else name.lower()


def cascade(decls):
    out = {}
    for name, value, important in decls:
        name = fold(name)
        if not important and out.get(name, ('', ''))[1]:
            continue
        out[name] = (canon(value), 'important' if important else '')
    return out


def parse(text):
    """The declarations of a style attribute.  (The CSS parser splits the
    text into tokens; the one installed does not know custom properties.)"""
    decls, current = [], []
    for n in tinycss2.parse_component_value_list(text or '') + [None]:
        if n is None or n == ';':
            decls.append(current)
            current = []
        elif n.type != 'comment':
            current.append(n)
    out = []
    for nodes in decls:
        if ':' not in nodes:
            continue
        at = nodes.index(':')
        name = ''.join(n.serialize() for n in nodes[:at]).strip()
        value = [n for n in nodes[at + 1:]]
        while value and value[-1].type == 'whitespace':
            value.pop()
        important = False
        if value and value[-1].type == 'ident' and \
                value[-1].lower_value == 'important':
            rest = value[:-1]
            while rest and rest[-1].type == 'whitespace':
                rest.pop()
            if rest and rest[-1] == '!':
                important = True
                value = rest[:-1]
        out.append([name, value, important])
    return cascade(out)


class D04(Check):
    RUNS = {'quick': 3000, 'thorough': 120000}
    RULE = ('random histories of attribute writes, style writes and removals '
            '(valid and not), other attributes, moves, collections and '
            'reparses on a small tree; both sides compared with a '
            'declaration map read by a CSS parser; non-trivial: attribute '
            'and style writes that took effect')

    # -- generation -------------------------------------------------------------
    def gen(self, rng, index, tier):
        n = rng.choice([1, 2, 3, 5])
        els = ['r'] + ['e{}'.format(i) for i in range(n)]
        ops = []
        for i, h in enumerate(els[1:]):
            ops.append(['make', h, rng.choice(['g', 'g', 'rect', 'text', 'svg',
                                               'use', 'html:div', 'a']),
                        rng.choice(els[:i + 1])])
        pool = rng.sample(RAW, 3) + rng.sample(PROPS, 3)
        for _ in range(rng.choice([6, 12, 24, 40])):
            h = rng.choice(els)
            r = rng.random()
            if r < 0.25:
                ops.append(self.raw(rng, pool, h))
            elif r < 0.55:
                ops.append(self.put(rng, pool, h))
            elif r < 0.65:
                ops.append(['remove', h, self.name(rng, pool), rng.choice(
                    ['remove_property', 'empty', 'del', 'pop']),
                    rng.random() < 0.4])
            elif r < 0.72:
                if rng.random() < 0.7:
                    name, value = rng.choice(pool), rng.choice(BAD_VALUES)
                else:
                    name, value = rng.choice(BAD_NAMES), rng.choice(VALUES)
                ops.append(['bad', h, name, value, rng.choice(
                    [None, '', 'important']), rng.random() < 0.4])
            elif r < 0.74:
                ops.append(['bad', h, rng.choice(pool), rng.choice(VALUES),
                            rng.choice(['!important', 'x', ' ', 'Importantx']),
                            rng.random() < 0.4])
            elif r < 0.80:
                name = rng.choice(OTHER)
                ops.append(['other', h, name, self.keyword(rng) if name in PROPS
                            else rng.choice(['v', '', 'fill: red', None])])
            elif r < 0.83:
                ops.append(['gc'])
            elif r < 0.86:
                ops.append(['hold', h])
            elif r < 0.89:
                ops.append(['move', h, rng.choice(els)])
            elif r < 0.91:
                ops.append(['reload', rng.choice(['document', 'root']),
                            rng.choice(['utf-8', 'utf-16', 'us-ascii'])])
            else:
                ops.append(['look', h, rng.choice(['both', 'style', 'attr',
                                                   'computed'])])
            if rng.random() < 0.4:
                ops.append(['look', h, rng.choice(
                    ['both', 'both', 'style', 'attr', 'computed'])])
        return {'ops': ops}

    @staticmethod
    def keyword(rng):
        return rng.choice(['v1', 'v2', 'v3', 'v-4', 'inherit'])

    def name(self, rng, pool):
        name = rng.choice(pool)
        if rng.random() < 0.15 and not name.startswith('--'):
            name = rng.choice([name.upper(), name.title()])
        return name

    def value(self, rng, name):
        if name.lower() in PROPS:
            return self.keyword(rng)
        return rng.choice(VALUES)

    def raw(self, rng, pool, h):
        if rng.random() < 0.1:
            decls, text = [], rng.choice([None, '', ' ', ';', ';;', 'junk',
                                          'junk;', '/* fill: a */'])
        else:
            decls, parts = [], []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                name = self.name(rng, pool)
                value = self.value(rng, name)
                imp = rng.random() < 0.25
                decls.append([name, value, imp])
                parts.append('{}{}:{}{}{}'.format(
                    rng.choice(['', '', ' ', '\t', '\n  ']) + name,
                    rng.choice(['', '', '', ' ']),
                    rng.choice(['', ' ', ' ', '\n', ' /*c*/']) + value,
                    rng.choice(['', '', ' ', '\t', '/* ; */', ' /*:*/ ']),
                    rng.choice(['!important', ' !important', ' ! important',
                                ' !IMPORTANT', '!important ']) if imp else ''))
                if rng.random() < 0.08:
                    parts.append(rng.choice(['', ' ', 'junk', ' /* a: b */']))
            text = ';'.join(parts) + rng.choice(['', ';', '; ', ' ;'])
            if rng.random() < 0.3:
                text = '; '.join(x.strip() for x in parts)
        return ['raw', h, decls, text, rng.choice(
            ['set', 'set', 'set_attribute', 'attributes', 'attr', 'attrib'])]

    def put(self, rng, pool, h):
        name = self.name(rng, pool)
        value = self.value(rng, name)
        while '  ' in value:    # set_property collapses white space
            value = self.value(rng, name)
        if rng.random() < 0.1:
            value = ' ' + value + '  '
        return ['put', h, name, value, rng.choice(
            [None, None, None, '', 'important', 'IMPORTANT']),
            rng.choice(['set', 'set', 'item']),
            rng.random() < 0.4]

    # -- execution --------------------------------------------------------------
    def run(self, scenario, ctx):
        from svgpy.window import SVGDOMImplementation, Window
        self.impl = SVGDOMImplementation()
        self.win = Window(self.impl)
        self.doc = self.win.document
        self.doc.document_element.set('data-h', 'r')
        self.model = {'r': {}}      # element -> declarations
        self.attrs = {'r': {'data-h': 'r'}}
        self.held = {}
        writes = set()
        for op in scenario['ops']:
            kind = op[0]
            if kind == 'gc':
                gc.collect()
                ctx.count('fault.gc')
                continue
            if kind == 'reload':
                self.held = {}
                self.reload(op[1], op[2])
                ctx.count('fault.crash')
                continue
            h = op[1]
            if h not in self.model and kind != 'make':
                continue
            done = getattr(self, 'op_' + kind)(ctx, *op[1:])
            ctx.event(op)
            if done:
                writes.add(kind)
                ctx.count('op.' + kind)
        for h in sorted(self.model):
            self.op_look(ctx, h, 'both')
            self.op_look(ctx, h, 'computed')
        ctx.nontrivial = {'raw', 'put'} <= writes

    def find(self, h):
        for el in self.doc.document_element.iter():
            if el.get('data-h') == h:
                return el
        raise KeyError(h)

    def style(self, h, held):
        if held and h in self.held:
            return self.held[h].style if h.endswith('1') else \
                self.held[h + '.style']
        return self.find(h).style

    def reload(self, how, encoding):
        root = self.doc.document_element
        data = (self.doc if how == 'document' else root).tostring(
            encoding=encoding)
        self.doc.remove(root)
        del root
        self.doc.append(self.impl.parse(io.BytesIO(data)))

    def op_make(self, ctx, h, tag, parent):
        if parent not in self.model:
            return False
        ns = SVG
        if tag.startswith('html:'):
            ns, tag = HTML, tag[5:]
        el = self.doc.create_element_ns(ns, tag)
        el.set('data-h', h)
        self.find(parent).append(el)
        self.model[h] = {}
        self.attrs[h] = {'data-h': h}
        return True

    def op_raw(self, ctx, h, decls, text, how):
        el = self.find(h)
        if how == 'set' and text is not None:
            el.set('style', text)
        elif how == 'attrib':
            if text is None:
                el.attrib.pop('style', None)
            else:
                el.attrib['style'] = text
        elif how == 'set_attribute':
            if text is None:
                el.remove_attribute('style')
            else:
                el.set_attribute('style', text)
        elif how == 'attr' and text is not None:
            if 'style' in el.attributes:
                el.attributes['style'].value = text
            else:
                attr = self.doc.create_attribute('style')
                attr.value = text
                el.set_attribute_node(attr)
        elif text is None:
            el.attributes.pop('style', None)
        else:
            el.attributes['style'] = text
        self.model[h] = cascade(decls)
        return True

    def op_put(self, ctx, h, name, value, priority, how, held):
        style = self.style(h, held)
        decls = self.model[h]
        key = fold(name)
        now = decls.get(key, ('', ''))[1]
        if priority and not now:
            priority = None     # known finding D04-important
        if how == 'item':
            priority = None
            style[name] = value
        else:
            style.set_property(name, value, priority)
        decls[key] = (canon(value), now if priority is None else
                      priority.lower())
        return True

    def op_probe(self, ctx, h, name, value):
        # known finding D04-important, never generated
        self.find(h).style.set_property(name, value, 'important')
        self.model[h][name] = (value, 'important')
        return True

    def op_remove(self, ctx, h, name, how, held):
        style = self.style(h, held)
        decls = self.model[h]
        key = fold(name)
        if how == 'remove_property':
            got = style.remove_property(name)
            want = decls.get(key, ('', ''))[0]
            ctx.check(canon(got) == want, 'removed',
                      lambda: 'remove_property({!r}) returned {!r}, the value '
                      'was {!r}'.format(name, got, want))
        elif how == 'empty':
            style.set_property(name, '')
        elif key not in decls or key != name:
            return False
        elif how == 'del':
            del style[name]
        else:
            style.pop(name)
        decls.pop(key, None)
        return True

    def op_bad(self, ctx, h, name, value, priority, held):
        style = self.style(h, held)
        before = self.find(h).get('style')
        try:
            style.set_property(name, value, priority)
        except ValueError:
            ctx.count('rejected')
        after = self.find(h).get('style')
        ctx.check(parse(before) == parse(after), 'ignored',
                  lambda: 'set_property({!r}, {!r}, {!r}) changed the '
                  'attribute from {!r} to {!r}'.format(
                      name, value, priority, before, after))
        return True

    def op_other(self, ctx, h, name, value):
        el = self.find(h)
        if value is None:
            el.attrib.pop(name, None)
            self.attrs[h].pop(name, None)
        else:
            el.set(name, value)
            self.attrs[h][name] = value
        return True

    def op_hold(self, ctx, h):
        self.held[h] = self.find(h)
        self.held[h + '.style'] = self.held[h].style
        return True

    def op_move(self, ctx, h, parent):
        if h == 'r' or parent not in self.model:
            return False
        node, target = self.find(h), self.find(parent)
        cur = target
        while cur is not None:
            if cur is node:
                return False
            cur = cur.getparent()
        target.append(node)
        return True

    # -- oracle ----------------------------------------------------------------
    def op_look(self, ctx, h, what):
        el = self.find(h)
        want = self.model[h]
        if what == 'computed':
            self.computed(ctx, h, el)
            return True
        attr = el.get('style')
        order = ['attr', 'style'] if len(h) % 2 else ['style', 'attr']
        for side in order:
            if what not in (side, 'both'):
                continue
            if side == 'attr':
                got = parse(attr)
                ctx.check(got == want, 'attribute',
                          lambda: '{}: style="{}" says {}, expected {}'.format(
                              h, attr, got, want))
                rest = {k: v for k, v in el.attrib.items() if k != 'style'}
                ctx.equal(rest, self.attrs[h], 'disturbed', h + ' attributes')
            else:
                self.object(ctx, h, el.style, attr, want)
                if h in self.held:
                    self.object(ctx, h, self.held[h + '.style'], attr, want)
        ctx.state([sorted(want.items())])
        return True

    def object(self, ctx, h, style, attr, want):
        got = {k: (canon(v), p) for k, (v, p) in style.items()}
        ctx.check(got == want, 'object',
                  lambda: '{}: style object {}, expected {} (style="{}")'
                  .format(h, got, want, attr))
        ctx.equal([len(style), style.length], [len(want)] * 2, 'length', h)
        names = [style.item(i) for i in range(style.length)]
        ctx.equal(sorted(names), sorted(want), 'names', h)
        ctx.equal(sorted(style), sorted(want), 'iter', h)
        for name, (value, priority) in want.items():
            up = name if name.startswith('--') else name.upper()
            for n in (name, up):
                one = (canon(style.get_property_value(n)),
                       style.get_property_priority(n))
                ctx.check(one == (value, priority), 'value',
                          lambda: '{}: {} is {}, expected {}'.format(
                              h, n, one, (value, priority)))
        for name in ABSENT:
            one = [style.get_property_value(name),
                   style.get_property_priority(name), name in style]
            ctx.equal(one, ['', '', False], 'absent', h + ' ' + name)

    def computed(self, ctx, h, el):
        want = {}
        cur = el
        while cur is not None:
            own = self.model[cur.get('data-h')]
            attrs = self.attrs[cur.get('data-h')]
            for p in PROPS:
                value = own[p][0] if p in own else attrs.get(p, 'inherit')
                if p not in want and value != 'inherit':
                    want[p] = value
            cur = cur.getparent()
        for p in PROPS:
            want.setdefault(p, DEFAULTS[p])
        style = el.get_computed_style()
        got = {p: style.get(p) for p in PROPS}
        diff = {p: (got[p], want[p]) for p in PROPS if got[p] != want[p]}
        ctx.check(not diff, 'computed',
                  lambda: '{}: got, expected {} in {}'.format(
                      h, diff, self.doc.tostring(encoding='unicode')))


CHECKS = {'D04': D04}
