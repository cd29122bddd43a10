"""F01 interrupted queries, F02 interrupted edits."""
import copy
import gc

from lxml import etree

from ..engine import Check
from ..genprog import ProgGen
from ..prog import Prog, Skip, handle, norm, walk
from ..trace import Injected, Lines, Spots
from .twin import differ, isolated, kind_of, plain, tally


def in_finalizer(frame):
    while frame is not None:
        if frame.f_code.co_name == '__del__':
            return True
        frame = frame.f_back
    return False


class InjectedMemory(MemoryError):
    pass


SECOND = 'second'
KINDS = {'interrupt': Injected, 'memory': InjectedMemory}


def interrupt(k, kind, fn):
    """Runs fn, raising an exception before its k-th library line (never
    inside a finaliser, where the interpreter swallows it).  Returns (raised
    through fn, place, result)."""
    hit = [None]

    def action(n, frame):
        if n >= k and hit[0] is None and not in_finalizer(frame):
            hit[0] = '{}:{}'.format(frame.f_code.co_name, frame.f_lineno)
            raise KINDS[kind](k)
    try:
        with Lines(action):
            result = fn()
    except (Injected, InjectedMemory):
        return True, hit[0], None
    return False, hit[0], result


def pick_places(rng):
    """[position, exception kind]: a fraction of the operation's lines,
    10**9 + distance from its end, or one of its functions and a line."""
    return [[rng.choice([rng.randrange(10000), 10 ** 9 + rng.randrange(40),
                         [rng.randrange(10000), rng.randrange(10000)],
                         [rng.randrange(10000), rng.randrange(10000)]]),
             rng.choice(['interrupt', 'interrupt', 'memory'])]
            for _ in range(rng.choice([0, 1, 1, 2, 3]))]


def line_of(w, spots):
    """The line a place means in an undisturbed execution; 0: none."""
    if not spots.n:
        return 0
    if isinstance(w, list):
        return spots.pick(*w)
    if w >= 10 ** 9:
        return max(1, spots.n - (w - 10 ** 9))
    return w % spots.n + 1


class F01(Check):
    RUNS = {'quick': 1200, 'thorough': 30000}
    SHRINK = ('ops', 'build')
    RULE = ('queries on a generated document, each interrupted by an '
            'exception injected at a seeded library line, then the whole '
            'document compared with its state before and the query asked '
            'again; non-trivial: four interruptions')

    def gen(self, rng, index, tier):
        g = ProgGen(rng, fonts=0.01).start(rng.choice([2, 5, 8]))
        for _ in range(rng.choice([0, 6, 15])):
            g.one()
        for _ in range(rng.choice([0, 2])):
            g.g_keep()
        build = g.ops
        g.ops = []
        g.weights = {'q': 8, 'qd': 3, 'ask': 1}
        for _ in range(rng.choice([4, 8])):
            g.one()
        ops = []
        for op in g.ops:
            where = pick_places(rng)
            ops.append([op, where])
        return {'build': build, 'ops': ops,
                'start': rng.choice(['cold', 'warm'])}

    def simplify(self, scenario):
        for i, (op, where) in enumerate(scenario['ops']):
            for j in range(len(where)):
                ops = copy.deepcopy(scenario['ops'])
                del ops[i][1][j]
                yield dict(scenario, ops=ops)

    def run(self, scenario, ctx):
        prog = Prog()
        for op in scenario['build']:
            prog.step(op)
        if scenario['start'] == 'warm':
            prog.hold = []
            prog.step(['qd', 'document'])
        gc.collect()
        # what undisturbed queries answer, in a process of their own

        def calm():
            out = []
            for op, where in scenario['ops']:
                spots = Spots(lambda: prog.step(op))
                out.append([spots.result,
                            [line_of(w, spots) for w, _ in where]])
            return out

        def look():
            return [prog.dump(), prog.styles(), [
                prog.step(['ask', key]) for key in sorted(prog.keep)]]
        before = isolated(look)
        want = isolated(calm)
        hits = 0
        for i, (op, where) in enumerate(scenario['ops']):
            obs, places = want[i]
            for k, (_, kind) in zip(places, where):
                if not k:
                    continue
                cut, place, got = interrupt(k, kind, lambda: prog.step(op))
                ctx.event(op, k, kind, cut)
                hits += cut
                ctx.count('fault.' + kind, place is not None)
                if place and not cut:
                    ctx.count('interrupt.swallowed')
            got = plain(prog.step(op))
            ctx.event(op, got)
            tally(ctx, op, got)
            ctx.check(got == obs, 'query:' + kind_of(op),
                      '{}: after interruptions at {} / undisturbed: {}'.format(
                          op, where, differ(got, obs)))
            ctx.state(got)
            now = plain(prog.dump())
            ctx.check(now == before[0], 'query-changed:' + kind_of(op),
                      '{} interrupted at {}: document after / before: '
                      '{}'.format(op, where, differ(now, before[0])))
        now = plain(look())
        ctx.check(now == before, 'query-changed:end',
                  'document after / before all queries: ' +
                  differ(now, before))
        ctx.nontrivial = hits >= 4


class EditProg(Prog):
    """A program that keeps every node it ever made, so that an interrupted
    edit can be looked at and repeated."""

    def __init__(self):
        from svgpy.window import Window
        super().__init__()
        self.nodes = {}
        # a second document, for moves across documents
        self.doc2 = Window(self.impl).document
        self.doc2.document_element.set('data-h', SECOND)
        self.held = []      # Attr objects
        self.note()

    def note(self):
        # a node may be left in a scratch element of the library, outside of
        # every document
        for node in list(self.nodes.values()):
            parent = node.getparent()
            if parent is not None and parent.getparent() is None and not any(
                    n is parent for n in self.nodes.values()):
                etree._Element.remove(parent, node)
        for top in self.tops():
            for node in walk(top):
                self.nodes.setdefault(handle(node), node)

    def tops(self):
        if not hasattr(self, 'held'):
            return super().tops()
        out = []
        placed = []
        for doc in (self.doc, self.doc2):
            root = doc.document_element
            if root is not None:
                out.append(root)
                placed.extend(doc.child_nodes)
        for h in sorted(self.nodes):
            node = self.nodes[h]
            if node.getparent() is None and not any(
                    n is node for n in placed):
                out.append(node)
        return out

    def owned(self, node):
        top = node
        while top.getparent() is not None:
            top = top.getparent()
        for doc in (self.doc, self.doc2):
            if any(n is top for n in doc.child_nodes):
                return node.owner_document is doc
        return None

    def dump(self, serial=True):
        doc = self.doc2
        return super().dump(serial) + norm([
            ['#second', doc.child_nodes, doc.document_element,
             doc.tostring(encoding='utf-8')]])

    def find(self, h):
        if h not in self.nodes:
            raise Skip(h)
        return self.nodes[h]

    def step(self, op):
        obs = super().step(op)
        self.note()
        return obs

    # repeatable edits
    def op_put(self, h, parent, how, ref):
        node, target = self.find(h), self.el(parent)
        if h == SECOND:
            raise Skip(h)
        current = target
        while current is not None:
            if current is node:
                raise Skip(h)
            current = current.getparent()
        if ref is not None:
            ref = self.find(ref)
            if ref is node or ref.getparent() is not target:
                raise Skip(h)
        if how == 'append':
            target.append(node)
        elif how == 'append_child':
            target.append_child(node)
        elif how == 'prepend':
            if target.text:
                raise Skip(h)   # moves the leading text in several steps
            target.prepend(node)
        elif how == 'extend':
            target.extend([node])
        elif how == 'insert':
            target.insert(0, node)
        elif how == 'before':
            target.insert_before(node, ref)
        return None

    def op_swap(self, h, ref, how):
        """Replaces ref by h."""
        node, old = self.find(h), self.find(ref)
        target = old.getparent()
        if h == SECOND:
            raise Skip(h)
        if target is None and node.getparent() is not None and how == 'rep':
            return None     # done
        current = target
        while current is not None:
            if current is node:
                raise Skip(h)
            current = current.getparent()
        if target is None or old is node or target is not self.find('r') and \
                target.local_name == 'x':
            raise Skip(h)
        if how == 'child':
            target.replace_child(node, old)
        else:
            target.replace(old, node)
        return None

    def op_outer2(self, h, where):
        """Places a comment or an instruction beside the root element."""
        node, doc = self.find(h), self.doc
        if node.node_type == 1 or node.tail:
            raise Skip(h)
        if where == 'append':
            doc.append(node)
        elif where == 'child':
            doc.append_child(node)
        elif where == 'before':
            doc.insert_before(node, doc.document_element)
        else:
            doc.prepend(node)
        return None

    def op_hold(self, h, name):
        """Keeps the Attr object of an attribute."""
        attr = self.el(h).get_attribute_node(name)
        if attr is not None:
            self.held.append(attr)

    def torn_attrs(self):
        for attr in self.held:
            owner = attr.owner_element
            if owner is None:
                if not isinstance(attr.value, str):
                    return '{}: detached without a value'.format(attr.name)
            elif attr.value != owner.get(attr.name):
                return '{}: {!r} / {!r}'.format(attr.name, attr.value,
                                                owner.get(attr.name))
        return ''

    def op_drop(self, h, how):
        node = self.find(h)
        parent = node.getparent()
        if parent is None:
            if node.node_type != 1 and any(
                    n is node for n in self.doc.child_nodes):
                self.doc.remove(node)
            return None     # done
        if how == 'remove':
            parent.remove(node)
        else:
            parent.remove_child(node)
        return None


def agree(dump):
    """First disagreement between the views of one element, or ''."""
    for item in dump:
        if not (isinstance(item, list) and len(item) == 2
                and isinstance(item[1], dict)):
            continue
        h, v = item
        attrib = v['attrib']
        if v['owner'] is False:
            return '{}: owner document'.format(h)
        if v['attributes'] != attrib or v['names'] != list(attrib) and \
                sorted(v['names']) != sorted(attrib):
            return '{}: attributes {!r} / {!r}'.format(
                h, v['attributes'], attrib)
        if any(o != '#' + h for o in v['owners']):
            return '{}: Attr owners {!r}'.format(h, v['owners'])
        words = attrib.get('class', '').split()
        if v['class_list'] != list(dict.fromkeys(words)):
            return '{}: class_list {!r} / {!r}'.format(
                h, v['class_list'], words)
        if (v['class_name'] or '') != attrib.get('class', '') or (
                v['id'] or '') != attrib.get('id', ''):
            return '{}: class_name or id'.format(h)
        if 'dataset' in v:
            data = {k: x for k, x in attrib.items()
                    if k.startswith('data-')}
            if sorted(data.values()) != sorted(v['dataset'].values()):
                return '{}: dataset {!r} / {!r}'.format(
                    h, v['dataset'], data)
    return ''


def entries(dump):
    out = {}
    for item in dump:
        if isinstance(item, list) and item and isinstance(item[0], str) \
                and item[0] != 'bytes' and not item[0].startswith('#'):
            out[item[0]] = item
    return out


class F02(Check):
    RUNS = {'quick': 1500, 'thorough': 30000}
    SHRINK = ('ops', 'build')
    RULE = ('single edits on a generated document, each interrupted by an '
            'exception injected at a seeded library line, the state then '
            'compared with the states before and after, and the edit '
            'repeated beside the same program without interruptions; '
            'non-trivial: four interrupted edits')
    ATOMIC = ('set', 'unset', 'cls', 'data', 'style', 'cdata', 'text',
              'tail', 'points', 'pathdata', 'transform')

    def gen(self, rng, index, tier):
        g = ProgGen(rng, fonts=0)
        g.plain = False     # the namespace they report depends on the place
        if rng.random() < 0.4:
            g.tags[SECOND] = 'svg'
        g.start(rng.choice([3, 6, 9]))
        for _ in range(rng.choice([0, 4, 10])):
            g.one(('make', 'comment', 'pi', 'set', 'geom', 'style', 'text',
                   'detach', 'tail', 'cls', 'data', 'outer'))
        g.other.extend(op[1] for op in g.ops if op[0] == 'outer')
        made = [op for op in g.ops if op[0] in ('set', 'geom')]
        for _ in range(rng.choice([0, 0, 3]) if made else 0):
            g.emit('hold', *rng.choice(made)[1:3])
        build = g.ops
        g.ops = []
        ops = []
        g.weights = dict(g.weights, put=4, swap=1, drop=1.5, outer2=1)
        g.g_outer2 = lambda: g.emit('outer2', g.node() or 'x', rng.choice(
            ['append', 'child', 'before', 'prepend']))
        g.g_put = lambda: self.put(g)
        g.g_swap = lambda: g.emit('swap', g.node() or 'x', g.node() or 'x',
                                  rng.choice(['rep', 'child']))
        g.g_drop = lambda: g.emit('drop', g.node() or 'x',
                                  rng.choice(['remove', 'child']))
        for _ in range(rng.choice([4, 10])):
            g.one(('set', 'geom', 'unset', 'cls', 'data', 'style', 'text',
                   'tail', 'content', 'cdata', 'points', 'pathdata', 'zoom',
                   'put', 'swap', 'drop', 'transform', 'outer2'))
        for op in g.ops:
            if op[0] == 'transform_add' or (op[0] == 'cls' and
                                            op[2] == 'toggle'):
                continue
            ops.append([op, pick_places(rng)])
        return {'build': build, 'ops': ops}

    def put(self, g):
        rng = g.rng
        h = g.node()
        if h is None:
            return
        how = rng.choice(['append', 'append_child', 'prepend', 'extend',
                          'insert', 'before', 'before', 'before'])
        g.emit('put', h, g.parent(), how,
               g.node() if how == 'before' else None)

    simplify = F01.simplify

    def related(self, prog, op):
        """Handles an edit may change, before it is run."""
        out = {op[1]}
        for h in (op[1], op[2] if op[0] in ('put', 'swap') else None,
                  op[4] if op[0] == 'put' else None):
            node = prog.nodes.get(h)
            if node is None:
                continue
            out.add(h)
            if op[0] in ('put', 'swap', 'drop', 'outer2'):
                for near in (node.getparent(), node.getprevious(),
                             node.getnext()):
                    if near is not None:
                        out.add(handle(near))
        if op[0] in ('put', 'swap', 'drop', 'content', 'outer2'):
            for h in list(out):
                node = prog.nodes.get(h)
                if node is not None and node.node_type == 1 and (
                        op[0] in ('put', 'content') and h in op[1:3]):
                    out.update(handle(n) for n in node)
        return out

    def run(self, scenario, ctx):
        prog, ref = EditProg(), EditProg()
        for op in scenario['build']:
            prog.step(op)
            ref.step(op)
        hits = 0
        for op, where in scenario['ops']:
            before = plain(prog.dump())
            spots = Spots(lambda: ref.step(op))
            after = plain(ref.dump())
            related = None
            for w, kind in where:
                if not spots.n:
                    continue
                if related is None:
                    related = self.related(prog, op) | self.related(ref, op)
                cut, place, got = interrupt(line_of(w, spots), kind,
                                            lambda: prog.step(op))
                prog.lent = []
                ctx.event(op, w, kind, cut)
                ctx.count('fault.' + kind, place is not None)
                if place and not cut:
                    ctx.count('interrupt.swallowed')
                if not cut:
                    break
                hits += 1
                prog.note()
                mid = plain(prog.dump())
                text = agree(mid) or prog.torn_attrs()
                ctx.check(not text, 'torn-views:' + op[0],
                          '{} interrupted at {} ({}): {}'.format(
                              op, w, place, text))
                if op[0] in self.ATOMIC:
                    ctx.check(mid in (before, after), 'torn:' + op[0],
                              '{} interrupted at {} ({}): document / before: '
                              '{} document / after: {}'.format(
                                  op, w, place, differ(mid, before),
                                  differ(mid, after)))
                    continue
                a, b = entries(before), entries(mid)
                ctx.check(set(a) == set(b) or op[0] == 'content',
                          'torn-nodes:' + op[0],
                          '{} interrupted at {} ({}): nodes {}'.format(
                              op, w, place, set(a) ^ set(b)))
                for h in sorted(set(a) & set(b) - related):
                    x, y = self.local(a[h]), self.local(b[h])
                    ctx.check(x == y,
                              'torn-other:' + op[0],
                              '{} interrupted at {} ({}): {} changed: '
                              '{}'.format(op, w, place, h,
                                          differ(y, x)))
            got = prog.step(op)
            ctx.event(op, plain(got))
            tally(ctx, op, plain(got))
            now = plain(prog.dump())
            ctx.check(now == after, 'repeat:' + op[0],
                      '{} after interruptions at {} / uninterrupted: '
                      '{}'.format(op, where, differ(now, after)))
            text = agree(now) or prog.torn_attrs()
            ctx.check(not text, 'views:' + op[0],
                      '{} after interruptions at {}: {}'.format(
                          op, where, text))
            ctx.state(now[1:2])
        now, want = plain(prog.styles()), plain(ref.styles())
        ctx.check(now == want, 'repeat:end',
                  'styles at the end, interrupted / uninterrupted: ' +
                  differ(now, want))
        ctx.nontrivial = hits >= 4

    @staticmethod
    def local(entry):
        """An entry without what follows from another node being in or out of
        the tree (root and owner of a subtree)."""
        if isinstance(entry[1], dict):
            return {k: v for k, v in entry[1].items()
                    if k not in ('root', 'owner', 'tag')}
        return entry[:4]


CHECKS = {'F01': F01, 'F02': F02}
