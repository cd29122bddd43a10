"""Generator of DOM histories: drives the model only."""
from .model import SVG
from .world import ATTR_NAMES, STRINGS, TAGS, World, doc_xml


class Gen:
    def __init__(self, rng, ctx=None, tags=TAGS, strings=STRINGS,
                 attr_values=None):
        self.rng = rng
        self.w = World.__new__(World)
        from .model import Model
        self.w.model = Model()
        self.w.held = {}
        self.w.docs = {}
        self.n = 0
        self.ops = []
        self.tags = tags
        self.strings = strings
        self.attr_values = attr_values or ['1', 'a b', 'red', '10px', 'x&y<"']
        self.max_nodes = rng.choice([6, 10, 16])
        self.weights = None

    def new_id(self):
        self.n += 1
        return 'n{}'.format(self.n)

    def emit(self, op):
        """Appends op and applies it to the model if it is valid."""
        if not self.w.valid(op):
            return False
        held = self.w.held
        if op[0] not in ('gc', 'parsedoc', 'drop'):
            for a in op[1:]:
                for b in (a if isinstance(a, list) else [a]):
                    if isinstance(b, str) and b in self.w.model.nodes:
                        held[b] = True
        if op[0] == 'text_content':
            for c in self.w.model.nodes[op[1]].children:
                held[c.id] = True
        self.w.apply_model(op)
        if op[0] in ('el', 'com', 'pi', 'sub'):
            held[op[1]] = True
        elif op[0] == 'doc':
            held[op[2]] = True
        elif op[0] == 'drop':
            held.pop(op[1], None)
        self.w.prune()
        self.ops.append(op)
        return True

    # -- pieces ------------------------------------------------------------
    def nodes(self, kinds='ecp'):
        return [n for n in self.w.model.nodes.values() if n.kind in kinds]

    def pick(self, kinds='ecp'):
        nodes = self.nodes(kinds)
        return self.rng.choice(nodes) if nodes else None

    def string(self):
        return self.rng.choice(self.strings)

    def attrs(self, p=0.5):
        rng = self.rng
        out = {}
        while rng.random() < p and len(out) < 3:
            out[rng.choice(ATTR_NAMES)] = rng.choice(self.attr_values)
        out.pop('style', None)
        return out

    def spec(self, depth, kind=None, root=False):
        rng = self.rng
        kind = kind or rng.choice('eeeeecp')
        s = {'id': self.new_id(), 'kind': kind}
        if kind == 'c':
            s['text'] = rng.choice(['note', 'c d', '\xe9'])
        elif kind == 'p':
            s['tag'] = rng.choice(['pi', 'target'])
            s['text'] = rng.choice(['a="b"', 'x y'])
        else:
            s['tag'] = '{%s}svg' % SVG if root else rng.choice(
                [t for t in self.tags if t.startswith('{')])
            s['attrs'] = self.attrs()
            if rng.random() < 0.5:
                s['text'] = self.string()
            if root:
                s['isroot'] = True
            if depth > 0:
                s['children'] = [self.spec(depth - 1)
                                 for _ in range(rng.randint(0, 3))]
        if not root and rng.random() < 0.4:
            s['tail'] = self.string()
        return s

    def start(self, ndocs=None, parsed=0.5):
        rng = self.rng
        for i in range(ndocs if ndocs is not None else rng.randint(1, 2)):
            did = 'd{}'.format(i)
            if rng.random() < parsed:
                spec = {'before': [], 'after': [],
                        'root': self.spec(2, 'e', True)}
                for key in ('before', 'after'):
                    while rng.random() < 0.4:
                        s = self.spec(0, rng.choice('cp'))
                        s.pop('tail', None)
                        spec[key].append(s)
                self.emit(['parsedoc', did, spec, doc_xml(spec)])
            else:
                self.emit(['doc', did, self.new_id()])

    def create(self):
        rng = self.rng
        did = rng.choice(list(self.w.model.docs) or [None])
        how = rng.choice(['doc', 'doc', 'parser'])
        owner = did if how == 'doc' else None
        kind = rng.choice('eeeecp')
        nid = self.new_id()
        if kind == 'e':
            return self.emit(['el', nid, rng.choice(self.tags), self.attrs(),
                              owner, how])
        if kind == 'c':
            return self.emit(['com', nid, rng.choice(['c1', 'a-b', 'note']),
                              owner, how])
        return self.emit(['pi', nid, rng.choice(['pi', 'tgt']),
                          rng.choice(['a="1"', 'data']), owner, how])

    def args(self, parent, strings=True):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if strings and rng.random() < 0.35:
                out.append(['s', self.string()])
            else:
                n = self.pick()
                if n is not None:
                    out.append(n.id)
        return out

    def tree_op(self):
        rng = self.rng
        m = self.w.model
        kind = rng.choice(
            ['append'] * 3 + ['prepend'] * 3 + ['extend'] * 2
            + ['append_child', 'insert', 'insert', 'insert_before',
               'insert_before', 'replace', 'replace_child', 'remove',
               'remove_child', 'remove_self', 'addnext', 'addprev', 'text',
               'tail', 'text_content', 'data', 'sub', 'dappend', 'dprepend',
               'dinsert', 'dinsert_before', 'dremove', 'dsetroot',
               'dreplace'])
        p = self.pick('e')
        n = self.pick()
        if p is None or n is None:
            return self.create()
        pid = p.id
        child = rng.choice(p.children) if p.children else None
        if kind in ('append', 'prepend'):
            return self.emit([kind, pid, self.args(p)])
        if kind == 'extend':
            return self.emit([kind, pid, self.args(p, False),
                              rng.choice(['list', 'tuple', 'gen'])])
        if kind == 'append_child':
            return self.emit([kind, pid, n.id])
        if kind == 'insert':
            return self.emit([kind, pid,
                              rng.randint(-len(p.children),
                                          len(p.children) + 1), n.id])
        if kind == 'insert_before':
            ref = child.id if child is not None and rng.random() < 0.8 \
                else None
            return self.emit([kind, pid, n.id, ref])
        if kind in ('replace', 'replace_child'):
            return child is not None and self.emit([kind, pid, child.id,
                                                    n.id])
        if kind in ('remove', 'remove_child'):
            return child is not None and self.emit([kind, pid, child.id])
        if kind == 'remove_self':
            return self.emit([kind, pid])
        if kind in ('addnext', 'addprev'):
            return child is not None and self.emit([kind, child.id, n.id])
        if kind in ('text', 'text_content'):
            return self.emit([kind, pid, rng.choice([self.string(), '',
                                                     self.string()])])
        if kind == 'tail':
            return self.emit([kind, n.id, self.string()])
        if kind == 'data':
            return self.emit([kind, n.id, rng.choice(['d1', 'd 2', 'z']),
                              rng.choice(['data', 'node_value',
                                          'text_content'])])
        if kind == 'sub':
            return self.emit([kind, self.new_id(), pid,
                              rng.choice(self.tags),
                              rng.choice([None, 0, 1,
                                          len(p.children), -1])])
        did = rng.choice(list(m.docs))
        kids = m.docs[did].child_nodes()
        c = self.pick('cp')
        if kind in ('dappend', 'dprepend'):
            ids = []
            for _ in range(rng.choice([1, 1, 2])):
                c = self.pick('cp')
                if c is not None:
                    ids.append(c.id)
            op = [kind, did, ids]
            if kind == 'dappend':
                op.append(rng.choice(['append', 'extend', 'gen', 'child']))
            return bool(ids) and self.emit(op)
        if kind == 'dsetroot':
            return self.emit([kind, did, pid])
        if not kids:
            return False
        if kind == 'dinsert':
            return c is not None and self.emit(
                [kind, did, rng.randrange(len(kids)), c.id])
        if kind == 'dinsert_before':
            return c is not None and self.emit(
                [kind, did, c.id, rng.choice([None]
                                             + [k.id for k in kids])])
        if kind == 'dremove':
            return self.emit([kind, did, rng.choice(kids).id,
                              rng.choice([0, 1])])
        if kind == 'dreplace':
            old = rng.choice(kids)
            new = p if old.kind == 'e' else c
            return new is not None and self.emit([kind, did, old.id, new.id,
                                                  rng.choice([0, 1])])
        return False

    def gc_op(self):
        rng = self.rng
        if rng.random() < 0.3:
            return self.emit(['gc'])
        held = sorted(self.w.held)
        if not held:
            return False
        for nid in rng.sample(held, min(len(held), rng.randint(1, 4))):
            self.emit(['drop', nid])
        return self.emit(['gc'])

    def attr_op(self):
        rng = self.rng
        n = self.pick('e')
        if n is None:
            return False
        if n.attrs and rng.random() < 0.3:
            return self.emit(['delattr', n.id, rng.choice(sorted(n.attrs))])
        name = rng.choice([a for a in ATTR_NAMES if a != 'style'])
        how = rng.choice(['set', 'map']) if name.startswith('{') \
            else rng.choice(['set', 'map', 'setattr'])
        return self.emit(['setattr', n.id, name,
                          rng.choice(self.attr_values), how])

    def history(self, steps, mix):
        """mix: list of (weight, method name)."""
        names = [name for _, name in mix]
        weights = [w for w, _ in mix]
        for _ in range(steps):
            if len(self.w.model.nodes) < self.max_nodes \
                    and self.rng.random() < 0.3:
                self.create()
            for _ in range(6):
                name = self.rng.choices(names, weights)[0]
                if getattr(self, name)():
                    break
        return self.ops
