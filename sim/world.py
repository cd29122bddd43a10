"""DOM world: the same operations applied to the real library and the model."""
import gc

from .engine import Violation
from .model import HTML, SVG, XLINK, XML, Model

TAGS = [SVG_TAG for SVG_TAG in (
    '{%s}g' % SVG, '{%s}rect' % SVG, '{%s}text' % SVG, '{%s}tspan' % SVG,
    '{%s}svg' % SVG, '{%s}desc' % SVG, '{%s}path' % SVG, '{%s}unknown' % SVG,
    '{%s}style' % SVG, '{%s}div' % HTML, '{http://example.org/x}thing', 'g',
    '{%s}use' % SVG, '{%s}title' % SVG, '{%s}marker' % SVG,
    '{%s}view' % SVG)]
STRINGS = ['a', 'hello', ' ', 'x & y', '<b>', 'caf\xe9', '\u65e5\u672c',
           'two\nlines', "it's \"quoted\"", ']]>', '\U0001f600', '0']
ATTR_NAMES = ['id', 'class', 'fill', 'x', 'data-a', 'style', 'transform',
              '{%s}href' % XLINK, '{%s}lang' % XML, 'width']


def split_tag(tag):
    if tag.startswith('{'):
        ns, local = tag[1:].split('}')
        return ns, local
    return None, tag


def xml_escape(text):
    return (text.replace('&', '&amp;').replace('<', '&lt;')
            .replace('>', '&gt;').replace('"', '&quot;')
            .replace('\r', '&#13;').replace('\n', '&#10;'))


class World:
    """Executes operations on the real library and on the model."""

    def __init__(self, ctx):
        from lxml import etree
        from svgpy import SVGParser
        # lxml picks ns0, ns1... for unknown namespaces and can let two of
        # them collide when nodes move; that is outside the code under test
        etree.register_namespace('xlink', XLINK)
        etree.register_namespace('x', 'http://example.org/x')
        self.SVGParser = SVGParser
        self.ctx = ctx
        self.model = Model()
        self.docs = {}
        self.parsers = {}
        self.held = {}
        self.counter = 0

    # -- references --------------------------------------------------------
    def ref(self, nid):
        node = self.model.nodes[nid]
        if nid in self.held:
            return self.held[nid]
        sut = self.locate(node)
        self.held[nid] = sut
        return sut

    def locate(self, node):
        """Finds the library's node by position, using lxml primitives."""
        if node.top is not None:
            root = self.locate_or_held(node.top)
            if node in node.top.before:
                back = len(node.top.before) - node.top.before.index(node)
                cur = root
                for _ in range(back):
                    cur = cur.getprevious()
                return cur
            cur = root
            for _ in range(node.top.after.index(node) + 1):
                cur = cur.getnext()
            return cur
        path = []
        cur = node
        while cur.parent is not None:
            path.append(cur.index())
            cur = cur.parent
        sut = self.root_ref(cur)
        for i in reversed(path):
            sut = sut[i]
        return sut

    def locate_or_held(self, node):
        if node.id in self.held:
            return self.held[node.id]
        return self.locate(node)

    def root_ref(self, root):
        if root.id in self.held:
            return self.held[root.id]
        if root.rootof is not None:
            return self.docs[root.rootof].document_element
        for n in root.walk():
            if n.id in self.held:
                cur = self.held[n.id]
                while cur.getparent() is not None:
                    cur = cur.getparent()
                return cur
        for n in root.before:
            if n.id in self.held:
                cur = self.held[n.id]
                for _ in range(len(root.before) - root.before.index(n)):
                    cur = cur.getnext()
                return cur
        raise LookupError('unreachable ' + root.id)

    def prune(self):
        """Forgets nodes of detached trees nobody holds a reference into."""
        m = self.model
        lost = []
        seen = {}
        for n in m.nodes.values():
            root = (n.top or n).root()
            if root.rootof is not None:
                continue
            key = id(root)
            if key not in seen:
                seen[key] = any(x.id in self.held for x in root.walk()) \
                    or any(x.id in self.held
                           for x in root.before + root.after)
            if not seen[key]:
                lost.append(n.id)
        for nid in lost:
            del m.nodes[nid]

    def reachable_without(self, nid):
        node = self.model.nodes[nid]
        if node.top is not None:
            node = node.top
        root = node.root()
        if root.rootof is not None:
            return True
        return any(n.id in self.held and n.id != nid for n in root.walk())

    # -- validity ----------------------------------------------------------
    def get(self, nid):
        return self.model.nodes.get(nid)

    def valid(self, op):
        m = self.model
        name = op[0]
        g = self.get
        if name in ('gc', 'doc', 'parsedoc'):
            return True
        if name in ('el', 'com', 'pi'):
            return op[1] not in m.nodes and (op[-2] is None
                                             or op[-2] in m.docs)
        if name in ('append', 'prepend'):
            p = g(op[1])
            if p is None or p.kind != 'e':
                return False
            seen = set()
            for a in op[2]:
                if isinstance(a, list):
                    continue
                n = g(a)
                if n is None or a in seen or not m.can_insert(p, n):
                    return False
                seen.add(a)
            return True
        if name == 'extend':
            p = g(op[1])
            if p is None or p.kind != 'e' or len(set(op[2])) != len(op[2]):
                return False
            return all(g(a) is not None and m.can_insert(p, g(a))
                       for a in op[2])
        if name == 'append_child':
            p, n = g(op[1]), g(op[2])
            return (p is not None and n is not None and m.can_insert(p, n))
        if name == 'insert':
            p, n = g(op[1]), g(op[3])
            return (p is not None and n is not None and m.can_insert(p, n)
                    and -len(p.children) <= op[2] <= len(p.children) + 3)
        if name == 'insert_before':
            p, n = g(op[1]), g(op[2])
            r = g(op[3]) if op[3] else None
            return (p is not None and n is not None and m.can_insert(p, n)
                    and (op[3] is None or (r is not None
                                           and r.parent is p)))
        if name in ('replace', 'replace_child'):
            p = g(op[1])
            old, new = (g(op[2]), g(op[3]))
            return (p is not None and old is not None and new is not None
                    and old.parent is p and m.can_insert(p, new))
        if name in ('remove', 'remove_child'):
            p, n = g(op[1]), g(op[2])
            return p is not None and n is not None and n.parent is p \
                and p.kind == 'e'
        if name == 'remove_self':
            n = g(op[1])
            return n is not None and n.kind == 'e' and n.rootof is None
        if name in ('addnext', 'addprev'):
            n, x = g(op[1]), g(op[2])
            return (n is not None and x is not None and n.parent is not None
                    and m.can_insert(n.parent, x))
        if name in ('text', 'text_content'):
            n = g(op[1])
            return n is not None and n.kind == 'e'
        if name == 'tail':
            n = g(op[1])
            return n is not None and n.parent is not None
        if name == 'data':
            n = g(op[1])
            return n is not None and n.kind in 'cp'
        if name == 'sub':
            p = g(op[2])
            return (p is not None and p.kind == 'e' and op[1] not in m.nodes
                    and (op[4] is None or
                         -len(p.children) <= op[4] <= len(p.children) + 2))
        if name in ('dappend', 'dprepend'):
            d = m.docs.get(op[1])
            if d is None or len(set(op[2])) != len(op[2]):
                return False
            for a in op[2]:
                n = g(a)
                if n is None or not m.movable(n) or n.rootof is not None:
                    return False
                if n.kind == 'e' or n.tail:
                    return False
            return d.root is not None
        if name == 'dinsert':
            d, n = m.docs.get(op[1]), g(op[3])
            return (d is not None and n is not None and d.root is not None
                    and n.kind != 'e' and not n.tail
                    and 0 <= op[2] < len(d.child_nodes())
                    and d.child_nodes()[op[2]] is not n)
        if name == 'dinsert_before':
            d, n = m.docs.get(op[1]), g(op[2])
            r = g(op[3]) if op[3] else None
            return (d is not None and n is not None and d.root is not None
                    and n.kind != 'e' and not n.tail
                    and (op[3] is None or r in d.child_nodes()))
        if name == 'dremove':
            d, n = m.docs.get(op[1]), g(op[2])
            return (d is not None and n is not None
                    and n in d.child_nodes() and m.movable(n))
        if name == 'dsetroot':
            d, n = m.docs.get(op[1]), g(op[2])
            return (d is not None and n is not None and d.root is None
                    and n.kind == 'e' and n.rootof is None
                    and not n.tail)
        if name == 'dreplace':
            d, old, new = m.docs.get(op[1]), g(op[2]), g(op[3])
            if d is None or old is None or new is None or old is new \
                    or old not in d.child_nodes():
                return False
            if old is d.root:
                return (new.kind == 'e' and new.rootof is None
                        and not new.tail
                        and m.movable(new) and m.movable(old))
            return new.kind != 'e' and not new.tail
        if name == 'drop':
            return op[1] in self.held and op[1] in m.nodes \
                and self.reachable_without(op[1])
        if name == 'setattr':
            n = g(op[1])
            return n is not None and n.kind == 'e'
        if name == 'delattr':
            n = g(op[1])
            return n is not None and n.kind == 'e' and op[2] in n.attrs
        raise ValueError(name)

    # -- model side --------------------------------------------------------
    def apply_model(self, op):
        m = self.model
        name = op[0]
        g = self.get
        if name == 'doc':
            doc = m.new_doc(op[1])
            root = m.new_node(op[2], 'e', '{%s}svg' % SVG, doc=op[1])
            m.set_root(doc, root)
        elif name == 'parsedoc':
            doc = m.new_doc(op[1])
            root = self.build(op[2]['root'], op[1])
            m.set_root(doc, root)
            for key, dest in (('before', root.before),
                              ('after', root.after)):
                for spec in op[2][key]:
                    n = self.build(spec, op[1])
                    n.top = root
                    dest.append(n)
        elif name == 'el':
            m.new_node(op[1], 'e', op[2], op[3], doc=op[4])
        elif name == 'com':
            m.new_node(op[1], 'c', None, None, op[2], doc=op[3])
        elif name == 'pi':
            m.new_node(op[1], 'p', op[2], None, op[3], doc=op[4])
        elif name in ('append', 'prepend'):
            args = [a[1] if isinstance(a, list) else g(a) for a in op[2]]
            if name == 'append':
                m.append_args(g(op[1]), args)
            else:
                m.prepend_args(g(op[1]), args)
        elif name == 'extend':
            m.append_args(g(op[1]), [g(a) for a in op[2]])
        elif name == 'append_child':
            m.append_args(g(op[1]), [g(op[2])])
        elif name == 'insert':
            p, n = g(op[1]), g(op[3])
            i = op[2]
            if i < 0:
                i += len(p.children)
            ref = p.children[i] if i < len(p.children) else None
            m.insert_before(p, n, ref)
        elif name == 'insert_before':
            m.insert_before(g(op[1]), g(op[2]),
                            g(op[3]) if op[3] else None)
        elif name in ('replace', 'replace_child'):
            p, old, new = g(op[1]), g(op[2]), g(op[3])
            if old is not new:
                m.detach(new)
                pos = old.index()
                m.detach(old)
                m.place(p, pos, new)
        elif name in ('remove', 'remove_child'):
            m.detach(g(op[2]))
        elif name == 'remove_self':
            if g(op[1]).parent is not None:
                m.detach(g(op[1]))
        elif name in ('addnext', 'addprev'):
            n, x = g(op[1]), g(op[2])
            if n is not x:
                p = n.parent
                m.detach(x)
                pos = n.index() + (1 if name == 'addnext' else 0)
                m.place(p, pos, x)
        elif name == 'text':
            g(op[1]).text = op[2]
        elif name == 'tail':
            g(op[1]).tail = op[2]
        elif name == 'text_content':
            n = g(op[1])
            for c in list(n.children):
                m.detach(c)
            n.text = op[2]
        elif name == 'data':
            g(op[1]).text = op[2]
        elif name == 'sub':
            p = g(op[2])
            n = m.new_node(op[1], 'e', op[3], doc=m.owner(p))
            i = op[4]
            if i is None:
                m.place(p, len(p.children), n)
            else:
                if i < 0:
                    i += len(p.children)
                m.place(p, min(i, len(p.children)), n)
        elif name == 'dappend':
            d = m.docs[op[1]]
            for a in op[2]:
                n = g(a)
                m.detach(n)
                m.place_top(d, len(d.child_nodes()), n)
        elif name == 'dprepend':
            d = m.docs[op[1]]
            nodes = [g(a) for a in op[2]]
            for n in nodes:
                m.detach(n)
            for i, n in enumerate(nodes):
                m.place_top(d, i, n)
        elif name == 'dinsert':
            d, n = m.docs[op[1]], g(op[3])
            ref = d.child_nodes()[op[2]]
            m.detach(n)
            m.place_top(d, d.child_nodes().index(ref), n)
        elif name == 'dinsert_before':
            d, n = m.docs[op[1]], g(op[2])
            ref = g(op[3]) if op[3] else None
            if ref is n:
                pass
            else:
                m.detach(n)
                kids = d.child_nodes()
                m.place_top(d, len(kids) if ref is None
                            else kids.index(ref), n)
        elif name == 'dremove':
            m.detach(g(op[2]))
        elif name == 'dsetroot':
            m.set_root(m.docs[op[1]], g(op[2]))
        elif name == 'dreplace':
            d, old, new = m.docs[op[1]], g(op[2]), g(op[3])
            if old is d.root:
                m.detach(old)
                m.set_root(d, new)
            else:
                m.detach(new)
                pos = d.child_nodes().index(old)
                m.detach(old)
                m.place_top(d, pos, new)
        elif name == 'setattr':
            g(op[1]).attrs[op[2]] = op[3]
        elif name == 'delattr':
            g(op[1]).attrs.pop(op[2], None)

    def build(self, spec, did):
        m = self.model
        n = m.new_node(spec['id'], spec['kind'], spec.get('tag'),
                       spec.get('attrs'), spec.get('text'), doc=did)
        n.tail = spec.get('tail')
        for c in spec.get('children', ()):
            child = self.build(c, did)
            child.parent = n
            n.children.append(child)
        return n

    # -- library side ------------------------------------------------------
    def parser_of(self, did):
        if did not in self.parsers:
            self.parsers[did] = self.SVGParser()
        return self.parsers[did]

    def apply_sut(self, op):
        name = op[0]
        r = self.ref
        if name == 'doc':
            parser = self.parser_of(op[1])
            self.docs[op[1]] = parser.create_svg_document()
            self.held[op[2]] = self.docs[op[1]].document_element
        elif name == 'parsedoc':
            parser = self.parser_of(op[1])
            root = parser.fromstring(op[3])
            doc = parser.create_document(SVG)
            doc.append(root)
            self.docs[op[1]] = doc
        elif name in ('el', 'com', 'pi'):
            did, how = op[-2], op[-1]
            maker = (self.docs[did] if how == 'doc' and did is not None
                     else self.parser_of(did))
            if name == 'el':
                ns, local = split_tag(op[2])
                attrs = dict(op[3]) or None
                if ns is None:
                    sut = maker.create_element(local, attrib=attrs)
                else:
                    sut = maker.create_element_ns(ns, local, attrib=attrs)
            elif name == 'com':
                sut = maker.create_comment(op[2])
            else:
                sut = maker.create_processing_instruction(op[2], op[3])
            self.held[op[1]] = sut
        elif name in ('append', 'prepend'):
            args = [a[1] if isinstance(a, list) else r(a) for a in op[2]]
            getattr(r(op[1]), name)(*args)
        elif name == 'extend':
            nodes = [r(a) for a in op[2]]
            if op[3] == 'tuple':
                nodes = tuple(nodes)
            elif op[3] == 'gen':
                nodes = (x for x in nodes)
            r(op[1]).extend(nodes)
        elif name == 'append_child':
            return r(op[1]).append_child(r(op[2])), r(op[2])
        elif name == 'insert':
            r(op[1]).insert(op[2], r(op[3]))
        elif name == 'insert_before':
            return (r(op[1]).insert_before(r(op[2]),
                                           r(op[3]) if op[3] else None),
                    r(op[2]))
        elif name == 'replace':
            r(op[1]).replace(r(op[2]), r(op[3]))
        elif name == 'replace_child':
            return r(op[1]).replace_child(r(op[3]), r(op[2])), r(op[2])
        elif name == 'remove':
            r(op[1]).remove(r(op[2]))
        elif name == 'remove_child':
            return r(op[1]).remove_child(r(op[2])), r(op[2])
        elif name == 'remove_self':
            r(op[1]).remove()
        elif name == 'addnext':
            r(op[1]).addnext(r(op[2]))
        elif name == 'addprev':
            r(op[1]).addprevious(r(op[2]))
        elif name == 'text':
            r(op[1]).text = op[2]
        elif name == 'tail':
            r(op[1]).tail = op[2]
        elif name == 'text_content':
            n = self.model.nodes[op[1]]
            for c in n.children:
                r(c.id)            # keep the removed children alive
            r(op[1]).text_content = op[2]
        elif name == 'data':
            setattr(r(op[1]), op[3], op[2])
        elif name == 'sub':
            ns, local = split_tag(op[3])
            p = r(op[2])
            if ns is None:
                sut = p.create_sub_element(local, index=op[4])
            else:
                sut = p.create_sub_element_ns(ns, local, index=op[4])
            self.held[op[1]] = sut
        elif name == 'dappend':
            doc = self.docs[op[1]]
            nodes = [r(a) for a in op[2]]
            if op[3] == 'append':
                doc.append(*nodes)
            elif op[3] == 'extend':
                doc.extend(nodes)
            elif op[3] == 'gen':
                doc.extend(x for x in nodes)
            else:
                for n in nodes:
                    doc.append_child(n)
        elif name == 'dprepend':
            self.docs[op[1]].prepend(*[r(a) for a in op[2]])
        elif name == 'dinsert':
            self.docs[op[1]].insert(op[2], r(op[3]))
        elif name == 'dinsert_before':
            self.docs[op[1]].insert_before(r(op[2]),
                                           r(op[3]) if op[3] else None)
        elif name == 'dremove':
            n = r(op[2])
            if op[3]:
                return self.docs[op[1]].remove_child(n), n
            self.docs[op[1]].remove(n)
        elif name == 'dsetroot':
            self.docs[op[1]].append(r(op[2]))
        elif name == 'dreplace':
            old, new = r(op[2]), r(op[3])
            if op[4]:
                return self.docs[op[1]].replace_child(new, old), old
            self.docs[op[1]].replace(old, new)
        elif name == 'drop':
            self.held.pop(op[1], None)
        elif name == 'gc':
            gc.collect()
            self.ctx.count('fault.gc')
        elif name == 'setattr':
            el = r(op[1])
            how = op[4]
            if how == 'set':
                el.set(op[2], op[3])
            elif how == 'map':
                el.attributes[op[2]] = op[3]
            else:
                el.set_attribute(op[2], op[3])
        elif name == 'delattr':
            del r(op[1]).attributes[op[2]]

    def prehold(self, op):
        """Nodes that the operation detaches must stay reachable."""
        m = self.model
        name = op[0]
        for a in op[1:]:
            if isinstance(a, str) and a in m.nodes:
                self.ref(a)
            elif isinstance(a, list):
                for b in a:
                    if isinstance(b, str) and b in m.nodes:
                        self.ref(b)

    def step(self, op):
        """Applies one operation to both sides; False if not applicable."""
        if not self.valid(op):
            return False
        name = op[0]
        if name not in ('drop', 'gc', 'doc', 'parsedoc', 'el', 'com', 'pi'):
            self.prehold(op)
        self.ctx.count('op.' + name)
        out = self.apply_sut(op)
        self.apply_model(op)
        self.prune()
        if isinstance(out, tuple) and out[0] is not out[1]:
            raise Violation('return-value:' + name,
                            '{} returned {!r} instead of {!r}'.format(
                                op, out[0], out[1]))
        return True

    # -- parsed documents --------------------------------------------------
    def tops(self):
        """Model nodes that are tops of detached trees we can reach."""
        out = []
        for n in self.model.nodes.values():
            if n.parent is None and n.rootof is None and n.top is None:
                if any(x.id in self.held for x in n.walk()):
                    out.append(n)
        return out


def doc_xml(spec):
    """XML text of a parsedoc specification."""
    def ser(s):
        if s['kind'] == 'c':
            return '<!--{}-->'.format(s['text']) + \
                xml_escape(s.get('tail') or '')
        if s['kind'] == 'p':
            return '<?{} {}?>'.format(s['tag'], s['text']) + \
                xml_escape(s.get('tail') or '')
        ns, local = split_tag(s['tag'])
        prefix = {SVG: '', HTML: 'html:', None: ''}.get(ns, 'x:')
        attrs = ''
        for k, v in s.get('attrs', {}).items():
            ans, alocal = split_tag(k)
            apre = {XLINK: 'xlink:', XML: 'xml:', None: ''}[ans]
            attrs += ' {}{}="{}"'.format(apre, alocal, xml_escape(v))
        decl = ''
        if s.get('isroot'):
            decl = (' xmlns="{}" xmlns:html="{}" xmlns:xlink="{}" '
                    'xmlns:x="http://example.org/x"').format(SVG, HTML,
                                                             XLINK)
        return '<{0}{1}{2}{3}>{4}{5}</{0}{1}>{6}'.format(
            prefix, local, decl, attrs, xml_escape(s.get('text') or ''),
            ''.join(ser(c) for c in s.get('children', ())),
            xml_escape(s.get('tail') or ''))
    return (''.join(ser(s) for s in spec['before']) + ser(spec['root'])
            + ''.join(ser(s) for s in spec['after']))


# --------------------------------------------------------------------------
# comparison of the tree views
# --------------------------------------------------------------------------
TEXTUAL = {'text', 'tspan'}
DESCRIPTIVE = {'desc', 'metadata', 'title'}


def expected_text_content(n):
    ns, local = split_tag(n.tag)
    if local in DESCRIPTIVE:
        return n.text
    if local in TEXTUAL:
        out = []

        def collect(node):
            out.append(node.text or '')
            for c in node.children:
                if c.kind != 'e':
                    continue
                _, cl = split_tag(c.tag)
                if cl in TEXTUAL:
                    collect(c)
                    if cl in ('textPath', 'tspan'):
                        out.append(c.tail or '')
        collect(n)
        return ''.join(out)
    return None


def norm(tag):
    if isinstance(tag, str) and tag.startswith('{%s}' % SVG):
        return tag[len(SVG) + 2:]
    return tag


def plain(el):
    """Structure of an independently parsed tree."""
    from lxml import etree
    if el.tag is etree.Comment:
        return ('c', None, (), el.text or '', el.tail or '', ())
    if el.tag is etree.ProcessingInstruction:
        return ('p', el.target, (), (el.text or ''), el.tail or '', ())
    return ('e', norm(el.tag), tuple(sorted(el.attrib.items())),
            el.text or '', el.tail or '', tuple(plain(c) for c in el))


def expect_plain(n, tail=True):
    if n.kind == 'c':
        return ('c', None, (), n.text or '',
                (n.tail or '') if tail else '', ())
    if n.kind == 'p':
        return ('p', n.tag, (), n.text or '',
                (n.tail or '') if tail else '', ())
    return ('e', norm(n.tag), tuple(sorted(n.attrs.items())), n.text or '',
            (n.tail or '') if tail else '',
            tuple(expect_plain(c) for c in n.children))


def parse_plain(data):
    from lxml import etree
    parser = etree.XMLParser(resolve_entities=False, remove_blank_text=False)
    root = etree.fromstring(data, parser)
    before = list(root.itersiblings(preceding=True))
    before.reverse()
    return ([plain(x) for x in before], plain(root),
            [plain(x) for x in root.itersiblings()])


def verify_tree(world, where, serial=True, full=True):
    m = world.model
    ctx = world.ctx
    ctx.count('oracle_evaluations')

    def fail(sig, node, msg):
        raise Violation('tree:' + sig, 'after {}: node {}: {}'.format(
            where, node, msg))

    def check(n, sut, parent_sut, siblings, i):
        if sut is None:
            fail('missing', n.id, 'is missing')
        held = world.held.get(n.id)
        if held is not None and held is not sut:
            fail('identity', n.id, 'found {!r}, holding {!r}'.format(sut,
                                                                     held))
        types = {'e': 1, 'c': 8, 'p': 7}
        if sut.node_type != types[n.kind]:
            fail('type', n.id, 'node_type {}'.format(sut.node_type))
        if n.kind == 'e':
            ns, local = split_tag(n.tag)
            if sut.tag != n.tag or sut.local_name != local:
                fail('tag', n.id, '{} instead of {}'.format(sut.tag, n.tag))
            if sut.node_value is not None:
                fail('node_value', n.id, repr(sut.node_value))
            if full and ns is not None and sut.namespace_uri != ns:
                fail('namespace', n.id, repr(sut.namespace_uri))
        else:
            for view in ('data', 'node_value', 'text_content', 'text'):
                if (getattr(sut, view) or '') != (n.text or ''):
                    fail('data', n.id, '{} is {!r}, expected {!r}'.format(
                        view, getattr(sut, view), n.text))
            if sut.length != len(sut.data):
                fail('data', n.id, 'length {}'.format(sut.length))
            if n.kind == 'p' and (sut.target != n.tag
                                  or sut.node_name != n.tag):
                fail('tag', n.id, 'target ' + repr(sut.target))
        if (sut.text or '') != (n.text or ''):
            fail('text', n.id, 'text {!r}, expected {!r}'.format(sut.text,
                                                                 n.text))
        if n.top is None and n.rootof is None \
                and (sut.tail or '') != (n.tail or ''):
            fail('tail', n.id, 'tail {!r}, expected {!r}'.format(sut.tail,
                                                                 n.tail))
        kids = sut.child_nodes
        if len(kids) != len(n.children):
            fail('children', n.id, '{} children {!r}, expected {}'.format(
                len(kids), kids, [c.id for c in n.children]))
        if sut.parent_node is not parent_sut:
            fail('parent', n.id, 'parent {!r}'.format(sut.parent_node))
        if full:
            if sut.parent_element is not parent_sut:
                fail('parent_element', n.id, '')
            if sut.has_child_nodes() != bool(n.children):
                fail('has_child_nodes', n.id, '')
            if sut.first_child is not (kids[0] if kids else None) \
                    or sut.last_child is not (kids[-1] if kids else None):
                fail('first_last', n.id, '')
            if siblings is not None:
                prev = siblings[i - 1] if i > 0 else None
                nxt = siblings[i + 1] if i + 1 < len(siblings) else None
                if sut.previous_sibling is not prev \
                        or sut.next_sibling is not nxt:
                    fail('siblings', n.id, '{!r} {!r}'.format(
                        sut.previous_sibling, sut.next_sibling))
                pe = [s for s in siblings[:i] if s.node_type == 1]
                ne = [s for s in siblings[i + 1:] if s.node_type == 1]
                if sut.previous_element_sibling is not (
                        pe[-1] if pe else None) \
                        or sut.next_element_sibling is not (
                            ne[0] if ne else None):
                    fail('element_siblings', n.id, '')
            if n.kind == 'e':
                els = [k for k, c in zip(kids, n.children)
                       if c.kind == 'e']
                if sut.children != els or sut.child_element_count \
                        != len(els) or len(sut) != len(kids):
                    fail('element_children', n.id, '')
                if sut.first_element_child is not (els[0] if els else None) \
                        or sut.last_element_child is not (
                            els[-1] if els else None):
                    fail('element_first_last', n.id, '')
                tc = expected_text_content(n)
                if (sut.text_content or '') != (tc or ''):
                    fail('text_content', n.id, '{!r}, expected {!r}'.format(
                        sut.text_content, tc))
                if dict(sut.attrib) != n.attrs:
                    fail('attrib', n.id, '{} expected {}'.format(
                        dict(sut.attrib), n.attrs))
        for j, (c, k) in enumerate(zip(n.children, kids)):
            check(c, k, sut, kids, j)

    def check_roots(top, sut):
        for n, s in zip(top.walk(), sut.iter()):
            if s.get_root_node() is not sut:
                fail('root', n.id, 'get_root_node {!r}'.format(
                    s.get_root_node()))

    for did, doc in world.docs.items():
        md = m.docs[did]
        expected = md.child_nodes()
        kids = doc.child_nodes
        if len(kids) != len(expected):
            fail('document', did, '{} children {!r}, expected {}'.format(
                len(kids), kids, [n.id for n in expected]))
        if len(doc) != len(kids) or list(doc) != kids:
            fail('document', did, 'iteration differs')
        if (doc.document_element is None) != (md.root is None):
            fail('document', did, 'document_element {!r}'.format(
                doc.document_element))
        for i, (n, sut) in enumerate(zip(expected, kids)):
            check(n, sut, None, kids, i)
        if full:
            if doc.children != [k for k, n in zip(kids, expected)
                                if n.kind == 'e']:
                fail('document', did, 'children {!r}'.format(doc.children))
            if doc.first_child is not (kids[0] if kids else None) \
                    or doc.last_child is not (kids[-1] if kids else None) \
                    or doc.has_child_nodes() != bool(kids):
                fail('document', did, 'first/last child')
        if md.root is not None:
            if doc.document_element is not kids[len(md.root.before)]:
                fail('document', did, 'document_element is wrong')
            if full:
                check_roots(md.root, doc.document_element)
            order = [x for top in expected for x in top.walk()]
            got = list(doc.iter())
            if len(got) != len(order):
                fail('document', did, 'iter yields {} nodes, expected '
                     '{}'.format(len(got), len(order)))
            for a, n in zip(got, order):
                held = world.held.get(n.id)
                if held is not None and held is not a:
                    fail('document', did, 'iter order at ' + n.id)
        if serial:
            # lxml's default ASCII output cannot express these in comments
            data = doc.tostring() if all(
                (n.text or '').isascii() for n in m.nodes.values()
                if n.kind != 'e') else doc.tostring(encoding='utf-8')
            if md.root is None:
                if data != b'':
                    fail('serial', did, repr(data))
            else:
                before, root, after = parse_plain(data)
                want = ([expect_plain(n, False) for n in md.root.before],
                        expect_plain(md.root, False),
                        [expect_plain(n, False) for n in md.root.after])
                if (before, root, after) != want:
                    fail('serial', did, 'serialised as {!r}, expected '
                         '{!r}'.format((before, root, after), want))
    for top in world.tops():
        sut = world.root_ref(top)
        check(top, sut, None, None, 0)
        if full and top.kind == 'e':
            check_roots(top, sut)
        if serial and top.kind == 'e' and not (top.before or top.after):
            _, root, _ = parse_plain(sut.tostring(with_tail=False,
                                                     encoding='utf-8'))
            if root != expect_plain(top, False):
                fail('serial', top.id, 'serialised as {!r}, expected '
                     '{!r}'.format(root, expect_plain(top, False)))


def verify_owner(world, where):
    m = world.model
    world.ctx.count('oracle_evaluations')
    for did, doc in world.docs.items():
        md = m.docs[did]
        kids = doc.child_nodes
        for n, sut in zip(md.child_nodes(), kids):
            for x, s in zip(n.walk(), sut.iter()):
                if s.owner_document is not doc:
                    raise Violation('owner:in-document', (
                        'after {}: {} ({}) in {} reports owner {!r}').format(
                            where, x.id, x.kind, did,
                            name_doc(world, s.owner_document)))
        if doc.owner_document is not None:
            raise Violation('owner:document', 'document has an owner')


def name_doc(world, doc):
    for did, d in world.docs.items():
        if d is doc:
            return did
    return doc
