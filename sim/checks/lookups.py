"""D08 lookups."""
import gc

from .. import lookup
from ..engine import Check
from ..genprog import ProgGen
from ..model import HTML, SVG
from ..prog import ROOT, Prog, Skip, handle
from .twin import kind_of, plain, tally

IDS = ['a', 'b', 'a b', "it's", 'q"t', '"\'', 'x-1', '1', '\xe9l', '\u65e5',
       ' a', 'a ', '#a', 'A', '$x', '*', 'a]b', '\t', '&lt;', '-', '--', '\\']
CLASSES = ['c1', 'c2', 'C1', "d'", 'q"', 'caf\xe9', '\xa0', 'a.b', '$n', '-',
           'c', '1', '\u3000', 'c1c2', ')', '*', '\\', '#', '[x]']
GAPS = [' ', '  ', '\t', '\n', ' \n\t', '\r']
TAGS = ['rect', 'g', 'svg', 'text', 'div', 'thing', 'a-b', 'x.y', '\xe9', '*',
        'Rect', 'path', 'g\'', '']
ATTRS = ['fill', 'id', 'class', 'data-h', 'lang', 'x', 'style', 'none']
VALUES = ['red', 'none', 'a', '', 'c1', 'en', 'en-US', 'x y', 'it\'s', 'q"',
          '\xe9', 'hello', '1', '\n']
PREFIXED = ('<s:svg xmlns:s="{0}" xmlns:h="{1}" data-h="r" id="a">'
            '<s:g data-h="z1" class="c1"><h:div data-h="z2" id="b"/>'
            '<s:rect data-h="z3" class=" c1\tc2 "/></s:g>'
            '<s:a-b data-h="z4"/><rect data-h="z5"/></s:svg>').format(
                SVG, HTML)
PREFIXED_TAGS = {'z1': 'g', 'z2': 'div', 'z3': 'rect', 'z4': 'a-b',
                 'z5': 'rect'}


class LookProg(Prog):
    def scope(self, h):
        """(object asked, its element, elements in scope)"""
        if h is None:
            root = self.doc.document_element
            if root is None:
                raise Skip(h)
            return self.doc, root, lookup.elements(root)
        node = self.el(h)
        scope = lookup.elements(node)
        if type(node).__name__ != 'SVGSVGElement':
            scope = scope[1:]
        return node, node, scope

    def look(self, h, what, args, nsmap):
        """(answer, expected)"""
        obj, node, scope = self.scope(h)
        kw = {}
        if nsmap is not None and what not in ('select', 'by_local', 'use'):
            kw['nsmap'] = self.lend(dict(nsmap))
        if what == 'by_id':
            if not hasattr(obj, 'get_element_by_id'):
                raise Skip(h)
            return (obj.get_element_by_id(args[0], **kw),
                    lookup.by_id(scope, args[0]))
        if what == 'by_class':
            return (obj.get_elements_by_class_name(args[0], **kw),
                    lookup.by_class(scope, args[0]))
        if what == 'by_tag':
            return (obj.get_elements_by_tag_name(args[0], **kw),
                    lookup.by_tag(scope, args[0]))
        if what == 'by_tag_ns':
            return (obj.get_elements_by_tag_name_ns(*args, **kw),
                    lookup.by_tag_ns(scope, *args))
        if what == 'by_local':
            if not hasattr(obj, 'get_elements_by_local_name'):
                raise Skip(h)
            return (obj.get_elements_by_local_name(args[0]),
                    lookup.by_local(lookup.elements(node)[h is not None:],
                                    args[0]))
        if what == 'use':
            if node.local_name != 'use' or node.href is None or \
                    node.href[:1] != '#':
                raise Skip(h)
            return (node.instance_root,
                    lookup.by_id(lookup.elements(node.get_root_node()),
                                 node.href[1:]))
        selector = args[0]
        names = dict(node.nsmap)
        if None in names:
            names['svg'] = names.pop(None)
        if not self.declared(selector, names):
            raise Skip(h)
        scope = lookup.elements(node)
        want = lookup.select(scope, selector, names, node)
        if want != lookup.select(scope, selector, names, None):
            raise Skip(h)   # depends on elements outside the subtree
        text = lookup.text_of(selector)
        got = obj.query_selector_all(text)
        first = obj.query_selector(text)
        if first is not (want[0] if want else None):
            return (first, want[0] if want else None)
        return got, want

    @staticmethod
    def declared(selector, names):
        for alternative in selector:
            for _, c in alternative:
                for x in (c, c.get('not', {})):
                    if x.get('tag') and x['tag'][0] and \
                            x['tag'][0] not in names:
                        return False
        return True


class D08(Check):
    RUNS = {'quick': 8000, 'thorough': 250000}
    RULE = ('random histories of edits interleaved with lookups of every '
            'kind on the document and on elements in and out of it, with '
            'collections; every answer compared with a plain walk; '
            'non-trivial: four lookups that found something')

    def gen(self, rng, index, tier):
        g = ProgGen(rng, fonts=0, set=2, cls=2, text=.5, win=0, zoom=0,
                    points=0, pathdata=0, transform=0, style=.3, geom=.5)
        g.plain = False     # the namespace they report depends on the place
        if rng.random() < 0.2:
            g.emit('load', PREFIXED)
            g.tags.update(PREFIXED_TAGS)
        g.start(rng.choice([3, 6, 10]))
        ops = [['op', op] for op in g.ops]
        pool = {'ids': rng.sample(IDS, 4), 'cls': rng.sample(CLASSES, 4)}
        for h in list(g.tags):
            if rng.random() < 0.6:
                ops.append(self.mark(rng, g, pool, h))
        for _ in range(rng.choice([8, 16, 30])):
            r = rng.random()
            if r < 0.2:
                g.ops = []
                g.one()
                ops += [['op', op] for op in g.ops]
            elif r < 0.4:
                ops.append(self.mark(rng, g, pool, g.element()))
            elif r < 0.43:
                ops.append(['gc'])
            else:
                ops.append(self.look(rng, g, pool))
        return {'ops': ops}

    def mark(self, rng, g, pool, h):
        if rng.random() < 0.5:
            name, value = 'id', rng.choice(pool['ids'])
        else:
            name = 'class'
            value = rng.choice(['', '', '\n', '  ']) + rng.choice(GAPS).join(
                rng.sample(pool['cls'], rng.randint(1, 3))) + rng.choice(
                    ['', '', '\t'])
        how = rng.choice(['set', 'set_attribute', 'attributes', 'attr'])
        return ['op', ['set', h, name, value, how]]

    def look(self, rng, g, pool):
        h = None if rng.random() < 0.35 else g.element()
        what = rng.choice(['by_id', 'by_id', 'by_class', 'by_class', 'by_tag',
                           'by_tag_ns', 'by_local', 'select', 'select',
                           'select', 'use'])
        if what == 'by_id':
            if h is not None and rng.random() < 0.7:
                h = g.element(('svg',))
            args = [rng.choice(pool['ids'] + IDS[:3])]
        elif what == 'by_class':
            args = [rng.choice(['', ' ', '\f']) + rng.choice(
                GAPS + ['\f']).join(rng.sample(pool['cls'],
                                               rng.choice([0, 1, 1, 2])))]
        elif what == 'by_tag':
            args = [rng.choice(TAGS + ['s:rect', 'h:div', 's:svg'])]
        elif what == 'by_tag_ns':
            args = [rng.choice([SVG, SVG, HTML, '*', "it's", 'http://x']),
                    rng.choice(TAGS)]
        elif what == 'by_local':
            args = [rng.choice([t for t in TAGS if t != '*'])]
        elif what == 'use':
            h = g.element(('use',))
            if h is None:
                h = ROOT
            args = []
        else:
            args = [[self.alternative(rng, pool)
                     for _ in range(rng.choice([1, 1, 1, 2]))]]
        nsmap = rng.choice([None, None, {}, {'s': SVG}, {'s': HTML,
                                                         'q': 'urn:x'}])
        return ['look', h, what, args, nsmap]

    def alternative(self, rng, pool):
        out = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            comb = rng.choice([' ', '>', '>', '+', '~'])
            c = self.compound(rng, pool)
            if comb == '+':     # cssselect compares qualified names here too
                c.pop('tag', None)
            out.append([comb, c])
        return out

    def compound(self, rng, pool, simple=False):
        # no type in :not(): cssselect compares qualified names there
        c = {}
        kinds = ['tag', 'id', 'cls', 'attr', 'pseudo', 'not']
        for kind in ([rng.choice(kinds[1:-1])] if simple else
                     rng.sample(kinds, rng.choice([1, 1, 2]))):
            if kind == 'tag':
                c['tag'] = [rng.choice(['svg', 'svg', '']),
                            rng.choice([t for t in TAGS if t and "'" not in t]
                                       )]
                if c['tag'][1] == '*':
                    c['tag'][0] = ''
            elif kind == 'id':
                c['id'] = rng.choice(pool['ids'])
            elif kind == 'cls':
                c['cls'] = rng.sample(pool['cls'], rng.choice([1, 1, 2]))
            elif kind == 'attr':
                op = rng.choice(['', '', '=', '~=', '|=', '^=', '$=', '*='])
                value = rng.choice(VALUES)
                if op == '~=' and len(lookup.words(value)) != 1:
                    op = '='
                c['attr'] = [[rng.choice(ATTRS), op, value]]
            elif kind == 'pseudo':
                c['pseudo'] = [rng.choice(
                    ['first-child', 'last-child', 'only-child', 'root',
                     'empty', 'nth-child(2n+1)', 'nth-child(3)',
                     'nth-last-child(2)'])]
            elif not simple:
                c['not'] = self.compound(rng, pool, True)
        return c

    def run(self, scenario, ctx):
        prog = LookProg()
        found = 0
        for item in scenario['ops']:
            if item[0] == 'gc':
                gc.collect()
                ctx.count('fault.gc')
                continue
            if item[0] == 'op':
                obs = plain(prog.step(item[1]))
                ctx.event(item, obs)
                tally(ctx, item[1], obs)
                continue
            _, h, what, args, nsmap = item
            try:
                got, want = prog.look(h, what, args, nsmap)
            except Skip:
                ctx.count('op.skip')
                prog.lent = []
                continue
            changed = prog.settle()
            ctx.check(not changed, 'argument:' + what,
                      '{}: argument before / after: {}'.format(item, changed))
            ctx.count('lookup.' + what)
            same = (got is want if not isinstance(want, list) else
                    len(got) == len(want) and
                    all(a is b for a, b in zip(got, want)))
            text = (args if what != 'select' else
                    [lookup.text_of(args[0])])
            ctx.event(h, what, text, self.show(got))
            ctx.check(same, 'lookup:' + what,
                      lambda: '{} of {}: {!r}: got {}, expected {} in {}'
                      .format(what, h or 'document', text, self.show(got),
                              self.show(want), prog.doc.tostring(
                                  encoding='unicode')))
            if got is not None and got != []:
                found += 1
                ctx.state([what, text, self.show(got)])
        ctx.nontrivial = found >= 4

    @staticmethod
    def show(value):
        if isinstance(value, list):
            return [handle(n) for n in value]
        return None if value is None else handle(value)


CHECKS = {'D08': D08}
