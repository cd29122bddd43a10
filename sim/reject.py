"""D03: operations with invalid arguments, and what they must leave alone."""
import gc

from .engine import Violation
from .model import SVG, XLINK
from .world import World, split_tag

BADTEXT = ['a\x00b', '\x0c', '\ud800']
BADNAME = ['a b', '', '1a', 'x:y:z', '<', 'a>', '\x00', '{', 'a{b}']
ELOPS = ['append', 'prepend', 'extend', 'append_child', 'insert',
         'insert_before', 'replace', 'replace_child', 'remove',
         'remove_child', 'addnext', 'addprevious']
DOCOPS = ['append', 'prepend', 'extend', 'append_child', 'insert',
          'insert_before', 'replace', 'replace_child', 'remove',
          'remove_child']


class RejectWorld(World):
    """A World that can also be asked for things it must refuse."""

    def arg(self, a):
        if isinstance(a, str):
            return self.ref(a)
        kind = a[0]
        if kind == 's':
            return a[1]
        if kind == 'int':
            return 7
        if kind == 'none':
            return None
        if kind == 'obj':
            return object()
        if kind == 'doc':
            return self.docs[a[1]]
        if kind == 'attr':
            attr = self.parser_of(None).create_attribute('extra')
            attr.value = 'v'
            return attr
        if kind == 'list':
            return [self.arg(x) for x in a[1]]
        raise ValueError(a)

    def args_known(self, args):
        for a in args:
            if isinstance(a, str):
                if a not in self.model.nodes:
                    return False
            elif isinstance(a, list) and a[0] == 'doc':
                if a[1] not in self.docs:
                    return False
            elif isinstance(a, list) and a[0] == 'list':
                if not self.args_known(a[1]):
                    return False
        return True

    def watched(self):
        return {nid: (sut.owner_document, sut.parent_node,
                      sut.get_root_node())
                for nid, sut in self.held.items()}

    def bad(self, op):
        """Returns None (not applicable), False (accepted) or the error."""
        _, target, method, args = op
        m = self.model
        if target in m.docs:
            obj = self.docs[target]
        elif target in m.nodes:
            obj = None
        else:
            return None
        flat = [a for a in args]
        if method not in RAW and not self.args_known(
                flat[1:] if method in INDEXED else flat):
            return None
        if obj is None:
            obj = self.ref(target)
        values = [a if method in RAW or (method in INDEXED and i == 0)
                  else self.arg(a) for i, a in enumerate(args)]
        call = self.bind(obj, method, values, target)
        if call is None:
            return None
        before = self.watched()
        try:
            call()
        except Exception as exc:
            error = exc
        else:
            return False
        self.ctx.count('fault.rejected')
        self.ctx.count('rejected.' + method)
        after = self.watched()
        for nid, seen in before.items():
            for what, a, b in zip(('owner', 'parent', 'root'), seen,
                                  after[nid]):
                if a is not b:
                    raise Violation('rejected:' + what + ':' + method, (
                        '{} raised {!r} but the {} of {} changed from {!r} '
                        'to {!r}').format(op, error, what, nid, a, b))
        return error

    def replaced_root(self, op):
        """replace(root, comment or instruction) emptied the document."""
        _, target, method, args = op
        m = self.model
        if target not in m.docs or method not in ('replace',
                                                  'replace_child'):
            return False
        old, new = args if method == 'replace' else args[::-1]
        root = m.docs[target].root
        return (root is not None and old == root.id
                and isinstance(new, str) and new in m.nodes
                and m.nodes[new].kind != 'e'
                and len(self.docs[target]) == 0)

    def bind(self, obj, method, values, target):
        if method == 'set:text':
            return lambda: setattr(obj, 'text', values[0])
        if method == 'set:tail':
            n = self.model.nodes.get(target)
            if n is None or n.parent is None:
                return None
            return lambda: setattr(obj, 'tail', values[0])
        if method.startswith('set:'):
            if not hasattr(obj, method[4:]):
                return None
            return lambda: setattr(obj, method[4:], values[0])
        if method == 'map':
            return lambda: obj.attributes.__setitem__(*values)
        if method == 'mapdel':
            return lambda: obj.attributes.__delitem__(*values)
        if method == 'mapattr':
            other = self.ref(values[1]) if values[1] in self.model.nodes \
                else None
            if other is None or other is obj:
                return None
            node = other.get_attribute_node(values[0])
            if node is None:
                return None
            return lambda: getattr(obj, values[2])(node)
        if method == 'style':
            return lambda: obj.style.set_property(*values)
        if method.startswith('tok:'):
            return lambda: getattr(obj.class_list, method[4:])(*values)
        if method == 'data':
            return lambda: obj.dataset.__setitem__(*values)
        fn = getattr(obj, method, None)
        if fn is None:
            return None
        if method == 'extend' and values and isinstance(values[0], list):
            if len(values) > 1:
                return lambda: fn(x for x in values[0])
        if method == 'create_sub_element_kw':
            return None
        return lambda: fn(*values)


RAW = {'set:text', 'set:tail', 'set:text_content', 'set:data',
       'set:node_value', 'map', 'mapdel', 'mapattr', 'style', 'data',
       'set_attribute', 'set_attribute_ns', 'remove_named', 'set',
       'create_sub_element', 'create_sub_element_ns', 'toggle_attribute',
       'tok:add', 'tok:remove', 'tok:replace', 'tok:insert', 'tok:append',
       'tok:extend', 'tok:toggle', 'set:id', 'set:class_name'}
INDEXED = {'insert'}


class BadGen:
    """Makes invalid operations for the state a generator has reached."""

    def __init__(self, gen):
        self.g = gen
        self.rng = gen.rng

    def bad_value(self):
        r = self.rng
        docs = list(self.g.w.model.docs)
        return r.choice([['int'], ['none'], ['obj'], ['attr'],
                         ['doc', r.choice(docs)], ['s', r.choice(BADTEXT)]])

    def ancestors(self, nid):
        out = []
        n = self.g.w.model.nodes[nid]
        while n is not None:
            if not (n.before or n.after):
                out.append(n.id)
            n = n.parent
        return out

    def mixed(self, target):
        """Valid arguments with an invalid one somewhere among them."""
        r = self.rng
        g = self.g
        args = []
        for _ in range(r.randrange(0, 3)):
            if r.random() < 0.3:
                args.append(['s', r.choice(['t1', ' x '])])
            else:
                n = g.pick()
                if n is not None and not (n.before or n.after):
                    args.append(n.id)
        anc = self.ancestors(target) if target in g.w.model.nodes else []
        if r.random() < 0.45 and anc:
            bad = r.choice(anc)
        else:
            bad = self.bad_value()
        args.insert(r.randint(0, len(args)), bad)
        return args

    def accepted(self, op):
        """True for an operation the model knows to be fine."""
        w = self.g.w
        target, method, args = op
        if method not in ELOPS or not args:
            return False
        flat = args[0][1] if method == 'extend' else args
        if any(isinstance(a, list) and (
                a[0] != 's' or a[1] in BADTEXT
                or method not in ('append', 'prepend')) for a in flat):
            return False
        if target in w.docs or target in w.model.docs:
            if method in ('append', 'extend', 'append_child', 'prepend'):
                return all(isinstance(a, str) for a in flat) and w.valid(
                    ['dappend', target, flat])
            if method in ('remove', 'remove_child'):
                return w.valid(['dremove', target, args[0]])
            return False
        trans = {'append': lambda: ['append', target, flat],
                 'prepend': lambda: ['append', target, flat],
                 'extend': lambda: ['extend', target, flat],
                 'append_child': lambda: ['append_child', target, args[0]],
                 'insert': lambda: ['append_child', target, args[1]],
                 'insert_before': lambda: ['insert_before', target] + args,
                 'replace': lambda: ['replace', target] + args,
                 'replace_child': lambda: ['replace', target, args[1],
                                           args[0]],
                 'remove': lambda: ['remove', target, args[0]],
                 'remove_child': lambda: ['remove', target, args[0]],
                 'addnext': lambda: ['addnext', target, args[0]],
                 'addprevious': lambda: ['addnext', target, args[0]]}
        if method not in trans:
            return False
        return w.valid(trans[method]())

    def op(self):
        for _ in range(6):
            op = self.any_op()
            if op is not None and not self.accepted(op):
                return op
        return None

    def any_op(self):
        r = self.rng
        g = self.g
        m = g.w.model
        kind = r.choices(['el', 'leaf', 'doc', 'text', 'attr', 'sub', 'tok'],
                         [10, 2, 8, 2, 5, 2, 3])[0]
        n = g.pick('cp' if kind == 'leaf' else 'e')
        if n is None:
            return None
        if kind in ('el', 'leaf'):
            method = r.choice(ELOPS)
            t = n.id
            children = [c.id for c in n.children]
            if method in ('append', 'prepend') and kind == 'el':
                return [t, method, self.mixed(t)]
            if method == 'extend':
                args = [['list', self.mixed(t)]]
                if r.random() < 0.4:
                    args.append(['s', 'gen'])
                return [t, method, args]
            one = r.choice(self.mixed(t))
            any_node = g.pick()
            other = any_node.id if any_node is not None and not (
                any_node.before or any_node.after) else ['none']
            if method in ('append', 'append_child', 'prepend', 'addnext',
                          'addprevious', 'remove', 'remove_child'):
                if method.startswith('remove') and r.random() < 0.6:
                    one = other
                return [t, method, [one]]
            if method == 'insert':
                return [t, method, [r.choice([0, 1, -1, 99]), one]]
            ref = r.choice(children + [other, other])
            if method == 'insert_before':
                return [t, method, r.choice([[one, ref], [other, ref]])]
            if method == 'replace':
                return [t, method, r.choice([[ref, one], [other, one],
                                             [other, other]])]
            return [t, method, r.choice([[one, ref], [one, other]])]
        if kind == 'doc':
            did = r.choice(list(m.docs))
            d = m.docs[did]
            method = r.choice(DOCOPS)
            kids = [c.id for c in d.child_nodes()]
            pool = [x.id for x in g.nodes() if not (x.before or x.after)]
            if not pool:
                return None
            mix = []
            for _ in range(r.randrange(0, 3)):
                mix.append(r.choice(pool))
            bad = r.choice([self.bad_value(), ['s', 'text'],
                            r.choice(pool)])
            mix.insert(r.randint(0, len(mix)), bad)
            one = r.choice([bad, r.choice(pool)])
            ref = r.choice(kids + [r.choice(pool), ['none'], ['int']])
            if method in ('append', 'prepend'):
                return [did, method, mix]
            if method == 'extend':
                return [did, method, [['list', mix]]
                        + ([['s', 'gen']] if r.random() < 0.4 else [])]
            if method in ('append_child', 'remove', 'remove_child'):
                return [did, method, [one]]
            if method == 'insert':
                return [did, method, [r.choice([0, 1, 2, -1, 50]), one]]
            if method == 'insert_before':
                return [did, method, [one, ref]]
            if method == 'replace':
                return [did, method, [ref, one]]
            return [did, method, [one, ref]]
        if kind == 'text':
            x = g.pick()
            # text and tail are lxml's own properties
            name = 'text_content' if x.kind == 'e' else r.choice(
                ['data', 'node_value', 'text_content'])
            return [x.id, 'set:' + name, [r.choice(BADTEXT + [5, 1.5])]]
        if kind == 'attr':
            how = r.randrange(8)
            bad = r.random() < 0.5
            name = r.choice(BADNAME) if bad else r.choice(
                ['id', 'fill', 'data-a', '{%s}href' % XLINK])
            value = r.choice(BADTEXT + [5]) if not bad or r.random() < 0.3 \
                else 'v'
            if how == 0:
                return [n.id, 'set', [name, value]]
            if how == 1:
                return [n.id, 'set_attribute', [name, value]]
            if how == 2:
                return [n.id, 'map', [name, value]]
            if how == 3:
                ns, local = (None, name) if bad else split_tag(name)
                return [n.id, 'set_attribute_ns',
                        [r.choice([ns, 'http://www.w3.org/2000/svg', 'a b']),
                         local, value]]
            if how == 4:
                return [n.id, 'mapdel', [r.choice(['nosuch'] + BADNAME)]]
            if how == 5:
                return [n.id, r.choice(['set:id', 'set:class_name']),
                        [r.choice(BADTEXT)]]
            if how == 6 and r.random() < 0.2:
                return [n.id, 'style', [r.choice(['fill', 'font-size']),
                                        r.choice(BADTEXT)]]
            others = [x for x in g.nodes('e') if x.attrs and x is not n]
            if not others:
                return None
            o = r.choice(others)
            return [n.id, 'mapattr', [r.choice(sorted(o.attrs)), o.id,
                                      r.choice(['set_attribute_node',
                                                'set_attribute_node_ns',
                                                'remove_attribute_node'])]]
        if kind == 'sub':
            bad = r.choice(BADNAME)
            how = r.randrange(4)
            attrib = None
            index = r.choice([None, 0, 1])
            if how == 0:
                return [n.id, 'create_sub_element', [bad, index]]
            if how == 1:
                return [n.id, 'create_sub_element_ns', [SVG, bad, index]]
            if how == 2:
                attrib = {r.choice(BADNAME + ['fill']):
                          r.choice(BADTEXT + [5])}
                return [n.id, 'create_sub_element', ['g', index, attrib]]
            return [n.id, 'create_sub_element', ['g', 'x']]
        if r.random() < 0.7:    # something that could get lost
            g.emit(['setattr', n.id, 'class', r.choice(
                ['a t1 b', 't1 a', 'b', 'b  t1']), 'set'])
        tok = [r.choice(['t1', 'a', 'b'])
               for _ in range(r.choice([0, 1, 1, 2, 3]))]
        tok.insert(r.randint(0, len(tok)), r.choice(['', 'a b', '\tx', 'c\n',
                                                     'n\x00']))
        how = r.choice(['add', 'remove', 'replace', 'insert', 'append',
                        'extend', 'data', 'toggle'])
        if how == 'data':
            return [n.id, 'data', [r.choice(['a-b', 'a b', 'ok', '<']),
                                   r.choice(BADTEXT + ['v'])]]
        if how == 'replace':
            tok = (tok + ['t1'])[:2]
        elif how == 'insert':
            tok = [0, tok[0]]
        elif how in ('append', 'toggle'):
            tok = [r.choice(['', 'a b', 'n\x00'])]
        elif how == 'extend':
            tok = [tok]
        return [n.id, 'tok:' + how, tok]
