"""Reference model of the tree: ordinary Python objects, no lxml.

Text follows the library's rule: text after a node (its tail) belongs to that
node and travels with it.
"""
SVG = 'http://www.w3.org/2000/svg'
HTML = 'http://www.w3.org/1999/xhtml'
XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'


class MNode:
    __slots__ = ('id', 'kind', 'tag', 'attrs', 'text', 'tail', 'children',
                 'parent', 'doc', 'rootof', 'before', 'after', 'top')

    def __init__(self, id, kind, tag=None, attrs=None, text=None, doc=None):
        self.id = id
        self.kind = kind            # 'e', 'c' or 'p'
        self.tag = tag              # clark name, or target of a PI
        self.attrs = dict(attrs or {})
        self.text = text
        self.tail = None
        self.children = []
        self.parent = None          # MNode or None
        self.doc = doc              # owner document id (None: no document)
        self.rootof = None          # document id when document element
        self.before = []            # for a root element: nodes before it
        self.after = []
        self.top = None             # root element this node is a sibling of

    def walk(self):
        yield self
        for child in self.children:
            yield from child.walk()

    def root(self):
        node = self
        while node.parent is not None:
            node = node.parent
        return node

    def ancestor_or_self_of(self, other):
        while other is not None:
            if other is self:
                return True
            other = other.parent
        return False

    def index(self):
        return self.parent.children.index(self)


def cat(a, b):
    text = (a or '') + (b or '')
    return text


class MDoc:
    def __init__(self, id):
        self.id = id
        self.root = None

    def child_nodes(self):
        if self.root is None:
            return []
        return self.root.before + [self.root] + self.root.after


class Model:
    def __init__(self):
        self.nodes = {}
        self.docs = {}

    # -- creation ----------------------------------------------------------
    def new_doc(self, did):
        self.docs[did] = MDoc(did)
        return self.docs[did]

    def new_node(self, nid, kind, tag=None, attrs=None, text=None, doc=None):
        node = MNode(nid, kind, tag, attrs, text, doc)
        self.nodes[nid] = node
        return node

    # -- primitives --------------------------------------------------------
    def movable(self, node):
        """Moving a document element that has siblings is not modelled."""
        return not (node.before or node.after)

    def detach(self, node):
        if node.parent is not None:
            node.parent.children.remove(node)
            node.parent = None
        if node.top is not None:
            if node in node.top.before:
                node.top.before.remove(node)
            else:
                node.top.after.remove(node)
            node.top = None
        if node.rootof is not None:
            self.docs[node.rootof].root = None
            node.rootof = None

    def adopt(self, node, doc):
        if doc is not None:
            for n in node.walk():
                n.doc = doc

    def owner(self, node):
        """Expected owner document id."""
        if node.top is not None:
            return node.top.rootof or node.doc
        root = node.root()
        if root.rootof is not None:
            return root.rootof
        return node.doc

    def place(self, parent, pos, node):
        self.detach(node)
        parent.children.insert(pos, node)
        node.parent = parent
        self.adopt(node, self.owner(parent))

    def insert_before(self, parent, node, ref):
        if ref is node:
            i = node.index() + 1
            ref = (parent.children[i] if i < len(parent.children) else None)
        self.detach(node)
        pos = (len(parent.children) if ref is None
               else parent.children.index(ref))
        self.place(parent, pos, node)

    def can_insert(self, parent, node):
        return (parent.kind == 'e' and not node.ancestor_or_self_of(parent)
                and self.movable(node))

    def append_args(self, parent, args):
        """args: MNode or str"""
        for arg in args:
            if isinstance(arg, str):
                if parent.children:
                    last = parent.children[-1]
                    last.tail = cat(last.tail, arg)
                else:
                    parent.text = cat(parent.text, arg)
            else:
                self.place(parent, len(parent.children)
                           - (1 if arg.parent is parent else 0), arg)

    def prepend_args(self, parent, args):
        for arg in args:
            if not isinstance(arg, str):
                self.detach(arg)
        text = parent.text
        parent.text = ''
        pos = 0
        last = None
        for arg in args:
            if isinstance(arg, str):
                if last is None:
                    parent.text = cat(parent.text, arg)
                else:
                    last.tail = cat(last.tail, arg)
            else:
                self.place(parent, pos, arg)
                pos += 1
                last = arg
        if last is None:
            parent.text = cat(parent.text, text)
        else:
            last.tail = cat(last.tail, text)

    # -- document level ----------------------------------------------------
    def set_root(self, doc, node):
        self.detach(node)
        doc.root = node
        node.rootof = doc.id
        self.adopt(node, doc.id)
        for n in node.before + node.after:
            n.doc = doc.id

    def place_top(self, doc, pos, node):
        """pos is an index into doc.child_nodes()."""
        self.detach(node)
        root = doc.root
        if pos <= len(root.before):
            root.before.insert(pos, node)
        else:
            root.after.insert(pos - len(root.before) - 1, node)
        node.top = root
        node.tail = None
        self.adopt(node, doc.id)

    def abstract(self):
        """Hashable description of the whole state."""
        def desc(n):
            return (n.kind, n.tag, tuple(sorted(n.attrs.items())),
                    n.text or '', n.tail or '',
                    tuple(desc(c) for c in n.children))
        out = []
        for d in sorted(self.docs):
            out.append((d, tuple(desc(n)
                                 for n in self.docs[d].child_nodes())))
        for n in self.nodes.values():
            if n.parent is None and n.rootof is None and n.top is None:
                out.append(desc(n))
        return tuple(out)
