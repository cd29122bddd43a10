"""A small program language over one document: every operation names its
nodes by handles kept in the document itself, so the same program can be run
with or without collections, crashes, interruptions or other threads, and the
observations compared.

handles: elements carry data-h, comments start with 'cN:', instructions have
the target piN.  An operation whose node is missing observes ['skip'].
"""
import io

from .model import HTML, SVG, XLINK, XML

ROOT = 'r'


def norm(value, depth=0):
    """A library value as plain JSON."""
    if value is None or isinstance(value, (bool, int, str)):
        return value
    if isinstance(value, float):
        return repr(value)
    if isinstance(value, bytes):
        return ['bytes', value.decode('utf-8', 'replace')]
    if depth > 6:
        return 'deep'
    if isinstance(value, dict):
        return {str(k): norm(v, depth + 1)
                for k, v in sorted(value.items(), key=lambda i: str(i[0]))}
    from lxml import etree
    if isinstance(value, etree._Element):
        return '#' + handle(value)
    if isinstance(value, (list, tuple)):
        from svgpy import SVGTransformList
        if not isinstance(value, SVGTransformList):
            return [norm(v, depth + 1) for v in value]
    name = type(value).__name__
    if name == 'SVGLength':
        return ['len', str(value)]
    if name == 'SVGTransformList':
        return ['transforms'] + [norm(v, depth + 1) for v in value]
    if name == 'SVGTransform':
        return ['transform', value.type, norm(list(value.values)),
                norm(value.matrix)]
    if name in ('DOMMatrix', 'DOMMatrixReadOnly'):
        return ['matrix'] + [repr(float(v)) for v in value.tolist()]
    if name in ('DOMRect', 'DOMRectReadOnly'):
        return ['rect'] + [v if v is None else repr(float(v)) for v in (
            value.x, value.y, value.width, value.height)]
    if name == 'SVGPathSegment':
        return ['seg', value.type] + [norm(v) for v in value.values]
    if name == 'SVGPreserveAspectRatio':
        return ['par', value.tostring()]
    if name in ('set', 'frozenset'):
        return sorted(norm(v) for v in value)
    if hasattr(value, 'tolist'):
        return norm(value.tolist(), depth + 1)
    if hasattr(value, 'item'):
        return norm(value.item(), depth + 1)
    try:
        return ['iter'] + [norm(v, depth + 1) for v in value]
    except TypeError:
        return ['object', name]


def handle(node):
    kind = getattr(node, 'node_type', None)
    if kind == 1:
        return node.get('data-h') or node.local_name
    if kind == 8:
        return (node.text or '').split(':')[0]
    if kind == 7:
        return node.target
    return 'plain:' + type(node).__name__


def walk(node):
    """The nodes of a tree in document order, siblings of the root included."""
    root = node
    while root.getparent() is not None:
        root = root.getparent()
    first = root
    while first.getprevious() is not None:
        first = first.getprevious()
    out = []
    current = first
    while current is not None:
        out.append(current)
        if current.node_type == 1:
            out.extend(list(current.iterdescendants()))
        current = current.getnext()
    return out


class Skip(Exception):
    pass


class Prog:
    """One actor: a window with its document, the subtrees it detached and
    the objects it holds."""

    def __init__(self, impl=None, parser=None):
        from lxml import etree
        from svgpy.window import SVGDOMImplementation, Window
        etree.register_namespace('xlink', XLINK)
        etree.register_namespace('x', 'http://example.org/x')
        self.impl = impl or SVGDOMImplementation(parser)
        self.win = Window(self.impl)
        self.doc = self.win.document
        self.doc.document_element.set('data-h', ROOT)
        self.bag = {}
        self.keep = {}      # long-lived objects made by 'keep' operations
        self.hold = None    # list: every node ever seen stays referenced
        self.lent = []      # arguments given to the library

    # -- nodes ---------------------------------------------------------------
    def tops(self):
        root = self.doc.document_element
        return ([root] if root is not None else []) + [
            self.bag[k] for k in sorted(self.bag)]

    def find(self, h):
        for top in self.tops():
            for node in walk(top):
                if handle(node) == h:
                    return node
        raise Skip(h)

    def el(self, h, local=None):
        node = self.find(h)
        if node.node_type != 1 or (local and node.local_name not in local):
            raise Skip(h)
        return node

    # -- arguments ---------------------------------------------------------------
    def lend(self, value):
        """An argument that must come back unchanged and is the caller's to
        change afterwards."""
        self.lent.append((value, norm(value)))
        return value

    def settle(self):
        changed = None
        for value, before in self.lent:
            if norm(value) != before:
                changed = [before, norm(value)]
            if isinstance(value, dict):
                value.clear()
                value['changed'] = 'later'
            elif isinstance(value, list):
                value.reverse()
                value.append(value[0] if value else None)
        self.lent = []
        return changed

    # -- running ---------------------------------------------------------------
    def step(self, op):
        try:
            method = getattr(self, 'op_' + op[0])
            obs = norm(method(*op[1:]))
        except Skip:
            obs = ['skip']
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as exp:
            obs = ['raise', type(exp).__name__]
        if self.lent:
            changed = self.settle()
            if changed:
                obs = ['argument', changed]
        if self.hold is not None:
            for top in self.tops():
                self.hold.extend(walk(top))
        return obs

    # -- building ----------------------------------------------------------------
    def save(self, how, encoding):
        """The serialisation of the document, or of its root element."""
        if how == 'document':
            return self.doc.tostring(encoding=encoding)
        return self.doc.document_element.tostring(encoding=encoding,
                                                  with_tail=False)

    def reload(self, data):
        """Replaces the document by a serialised one."""
        if isinstance(data, str):
            root = self.impl.parser.fromstring(data)
        else:
            root = self.impl.parse(io.BytesIO(data))
        old = self.doc.document_element
        if old is not None:
            self.doc.remove(old)
        self.doc.append(root)

    def op_load(self, xml):
        root = self.impl.parse(io.BytesIO(xml.encode('utf-8')))
        old = self.doc.document_element
        if old is not None:
            self.doc.remove(old)
        self.doc.append(root)
        return len(self.doc.child_nodes)

    def op_make(self, h, ns, tag, attrib, parent, index, how):
        target = self.el(parent)
        attrib = dict(attrib)
        attrib['data-h'] = h
        attrib = self.lend(attrib)
        nsmap = None
        if len(attrib) % 2:
            nsmap = self.lend({'x': 'http://example.org/x'})
        uri = {'svg': SVG, 'html': HTML, '': None}[ns]
        if how == 'sub':
            node = target.create_sub_element_ns(uri, tag, attrib=attrib,
                                                nsmap=nsmap)
            return node
        if how == 'parser':
            node = self.impl.parser.create_element_ns(uri, tag, attrib=attrib,
                                                      nsmap=nsmap)
        else:
            node = self.doc.create_element_ns(uri, tag, attrib=attrib,
                                              nsmap=nsmap)
        return self.place(target, node, index)

    def op_comment(self, h, data, parent, index):
        target = self.el(parent)
        return self.place(target, self.doc.create_comment(h + ':' + data),
                          index)

    def op_pi(self, h, data, parent, index):
        target = self.el(parent)
        return self.place(target, self.doc.create_processing_instruction(
            h, data), index)

    def op_outer(self, h, kind, data, where):
        """A comment or an instruction beside the root element."""
        root = self.doc.document_element
        if root is None:
            raise Skip(ROOT)
        if kind == 'c':
            node = self.doc.create_comment(h + ':' + data)
        else:
            node = self.doc.create_processing_instruction(h, data)
        if where == 'before':
            self.doc.insert_before(node, root)
        elif where == 'first':
            self.doc.prepend(node)
        else:
            self.doc.append(node)
        return self.doc.child_nodes

    def place(self, target, node, index):
        if index is None:
            target.append(node)
        elif index < 0:
            target.prepend(node)
        elif index < len(target):
            target.insert_before(node, target[index])
        else:
            target.append_child(node)
        return node

    def op_move(self, h, parent, index):
        node, target = self.find(h), self.el(parent)
        if node.getparent() is None:
            raise Skip(h)
        current = target
        while current is not None:
            if current is node:
                raise Skip(h)
            current = current.getparent()
        return self.place(target, node, index)

    def op_detach(self, h):
        node = self.find(h)
        if node.getparent() is None:
            raise Skip(h)
        self.bag[h] = node
        node.getparent().remove(node)
        return len(self.bag)

    def op_restore(self, h, parent, index):
        if h not in self.bag:
            raise Skip(h)
        node, target = self.bag[h], self.el(parent)
        current = target
        while current is not None:
            if current is node:
                raise Skip(h)
            current = current.getparent()
        del self.bag[h]
        return self.place(target, node, index)

    def op_text(self, h, value):
        self.el(h).text = value

    def op_tail(self, h, value):
        node = self.find(h)
        if node.getparent() is None:
            raise Skip(h)
        node.tail = value

    def op_content(self, h, value):
        self.el(h).text_content = value

    def op_cdata(self, h, value):
        node = self.find(h)
        if node.node_type == 8:
            node.data = h + ':' + value
        elif node.node_type == 7:
            node.data = value
        else:
            raise Skip(h)

    # -- attributes --------------------------------------------------------------
    def op_set(self, h, name, value, how):
        node = self.el(h)
        if how == 'set':
            node.set(name, value)
        elif how == 'set_attribute':
            if name.startswith('{'):
                ns, local = name[1:].split('}')
                node.set_attribute_ns(ns, local, value)
            else:
                node.set_attribute(name, value)
        elif how == 'attributes':
            node.attributes[name] = value
        elif how == 'attr':
            if name in node.attributes:
                node.attributes[name].value = value
            else:
                if name.startswith('{'):
                    ns, local = name[1:].split('}')
                    attr = self.doc.create_attribute_ns(ns, local)
                else:
                    attr = self.doc.create_attribute(name)
                attr.value = value
                node.set_attribute_node(attr)

    def op_unset(self, h, name, how):
        node = self.el(h)
        if how == 'attrib':
            node.attrib.pop(name, None)
        elif how == 'attributes':
            node.attributes.pop(name, None)
        elif name.startswith('{'):
            ns, local = name[1:].split('}')
            node.remove_attribute_ns(ns, local)
        else:
            node.remove_attribute(name)

    def op_cls(self, h, how, token):
        return getattr(self.el(h).class_list, how)(token)

    def op_data(self, h, key, value):
        node = self.el(h)
        if not hasattr(node, 'dataset'):
            raise Skip(h)
        if value is None:
            node.dataset.pop(key, None)
        else:
            node.dataset[key] = value

    def op_style(self, h, how, prop, value):
        node = self.el(h)
        if not hasattr(node, 'style'):
            raise Skip(h)
        if how == 'item':
            node.style[prop] = value
        elif how == 'set':
            node.style.set_property(prop, value)
        elif how == 'important':
            node.style.set_property(prop, value, 'important')
        elif how == 'remove':
            return node.style.remove_property(prop)

    def op_transform(self, h, items):
        from svgpy import SVGTransform, SVGTransformList
        node = self.el(h)
        if not hasattr(node, 'get_ctm'):
            raise Skip(h)
        node.transform = self.lend(SVGTransformList(
            [SVGTransform(kind, *values) for kind, values in items]))

    def op_transform_add(self, h, kind, values):
        from svgpy import SVGTransform
        node = self.el(h)
        if not hasattr(node, 'get_ctm'):
            raise Skip(h)
        items = node.transform
        if items is None:
            raise Skip(h)
        items.append(SVGTransform(kind, *values))
        node.transform = items

    def op_points(self, h, points):
        self.el(h, ('polygon', 'polyline')).points = self.lend([
            tuple(p) for p in points])

    def op_pathdata(self, h, d):
        from svgpy import PathParser
        self.el(h, ('path',)).set_path_data(
            self.lend(PathParser.parse(d)))

    def op_zoom(self, scale, translate):
        root = self.doc.document_element
        if root is None or not hasattr(root, 'current_scale'):
            raise Skip(ROOT)
        root.current_scale = scale
        root.current_translate = tuple(translate)

    def op_win(self, name, value):
        target = self.win
        parts = name.split('.')
        for part in parts[:-1]:
            target = getattr(target, part)
        setattr(target, parts[-1], value)

    # -- long-lived objects -------------------------------------------------------
    def op_keep(self, key, kind, h, *args):
        """Makes an object that lives on; 'ask' reads it later."""
        from svgpy import SVGLength
        if kind == 'media':
            self.keep[key] = (kind, self.win.match_media(args[0]))
            return None
        node = self.el(h)
        if kind == 'length':
            text, direction = args
            self.keep[key] = (kind, SVGLength(text, context=node,
                                              direction=direction))
        elif kind == 'style' and hasattr(node, 'style'):
            self.keep[key] = (kind, node.style)
        elif kind == 'class':
            self.keep[key] = (kind, node.class_list)
        elif kind == 'data' and hasattr(node, 'dataset'):
            self.keep[key] = (kind, node.dataset)
        elif kind == 'attrs':
            self.keep[key] = (kind, node.attributes)
        elif kind == 'attr' and args[0] in node.attributes:
            self.keep[key] = (kind, node.attributes[args[0]])
        else:
            raise Skip(h)
        return None

    def op_ask(self, key):
        if key not in self.keep:
            raise Skip(key)
        kind, obj = self.keep[key]
        if kind == 'media':
            return obj.matches
        if kind == 'length':
            if (obj.context.get_root_node()
                    is not self.doc.document_element):
                raise Skip(key)
            return [obj.value(), obj.value('px'), obj.unit]
        if kind == 'style':
            return [[k, list(v)] for k, v in sorted(obj.items())]
        if kind == 'class':
            return [list(obj), obj.value]
        if kind == 'data':
            return {k: obj[k] for k in obj}
        if kind == 'attrs':
            return {k: obj[k].value for k in obj}
        return [obj.name, obj.value, obj.owner_element]

    # -- questions ------------------------------------------------------------------
    # questions whose answer does not depend on the window
    STRUCTURAL = ('transform', 'points', 'par', 'text_content', 'use',
                  'display', 'viewports', 'select', 'by_class', 'by_tag',
                  'by_tag_ns', 'by_local', 'views', 'tostring')

    def op_q(self, h, what, *args):
        node = self.el(h)
        if what not in self.STRUCTURAL and \
                node.get_root_node() is not self.doc.document_element:
            raise Skip(h)
        return getattr(self, 'q_' + what)(node, *args)

    def op_qd(self, what, *args):
        return getattr(self, 'qd_' + what)(*args)

    def graphics(self, node):
        if not hasattr(node, 'get_ctm'):
            raise Skip()
        return node

    def q_computed(self, node):
        return node.get_computed_style()

    def q_inherited(self, node):
        return node.get_inherited_style()

    def q_geometry(self, node):
        return node.get_computed_geometry()

    def q_bbox(self, node):
        return self.graphics(node).get_bbox()

    def q_ctm(self, node):
        return self.graphics(node).get_ctm()

    def q_screen_ctm(self, node):
        return self.graphics(node).get_screen_ctm()

    def q_path(self, node, normalize=False):
        from svgpy.base import SVGPathDataSettings
        settings = SVGPathDataSettings()
        settings.normalize = normalize
        return self.graphics(node).get_path_data(settings)

    def q_path_trans(self, node):
        return self.graphics(node).get_transformed_path_data()

    def q_total_length(self, node):
        if not hasattr(node, 'get_total_length'):
            raise Skip()
        return node.get_total_length()

    def q_transform(self, node):
        return self.graphics(node).transform

    def q_points(self, node):
        if not hasattr(node, 'points'):
            raise Skip()
        return node.points

    def q_view_box(self, node):
        if not hasattr(node, 'get_view_box'):
            raise Skip()
        box = node.get_view_box()
        return box if box is None else list(box)

    def q_viewport(self, node):
        if not hasattr(node, 'get_viewport_size'):
            raise Skip()
        return [v.value() for v in node.get_viewport_size()]

    def q_vtm(self, node):
        return self.graphics(node).get_viewport_transformation_matrix()

    def q_par(self, node):
        if not hasattr(node, 'preserve_aspect_ratio'):
            raise Skip()
        return node.preserve_aspect_ratio

    def q_length(self, node, text, direction, unit=None):
        from svgpy import SVGLength
        if not hasattr(node, 'get_view_box'):
            raise Skip()
        length = SVGLength(text, context=node, direction=direction)
        return [length.value(unit), length.tostring(unit)]

    def q_text_content(self, node):
        return node.text_content or None

    def q_use(self, node):
        if node.local_name != 'use':
            raise Skip()
        return [node.href, node.instance_root]

    def q_zoom(self, node):
        if not hasattr(node, 'current_scale'):
            raise Skip()
        return [node.current_scale, list(node.current_translate),
                node.zoom_and_pan]

    def q_display(self, node):
        return [node.isdisplay(), node.isrenderable(), node.istransformable(),
                node.isgraphics(), node.isshape(), node.istext(),
                node.iscontainer()]

    def q_viewports(self, node):
        if not hasattr(node, 'get_view_box'):
            raise Skip()
        return [node.owner_svg_element, node.viewport_element,
                node.get_farthest_svg_element(),
                node.get_farthest_viewport_element(),
                node.get_nearest_svg_element(),
                node.get_nearest_viewport_element()]

    def q_sheet(self, node):
        if not hasattr(node, 'sheet'):
            raise Skip()
        sheet = node.sheet
        return None if sheet is None else self.rules(sheet.css_rules)

    def q_select(self, node, selector):
        return [node.query_selector(selector),
                node.query_selector_all(selector)]

    def q_by_class(self, node, names):
        return node.get_elements_by_class_name(
            names, nsmap=self.lend({'s': SVG}))

    def q_by_tag(self, node, name):
        return node.get_elements_by_tag_name(name)

    def q_by_tag_ns(self, node, ns, name):
        return node.get_elements_by_tag_name_ns(
            ns, name, nsmap=self.lend({'s': SVG}))

    def q_by_local(self, node, name):
        return node.get_elements_by_local_name(name)

    def q_views(self, node):
        """Every view of one element."""
        out = {
            'attrib': dict(node.attrib), 'names': node.get_attribute_names(),
            'attributes': {k: node.attributes[k].value
                           for k in node.attributes},
            'owners': [node.attributes[k].owner_element
                       for k in sorted(node.attributes)],
            'class_list': list(node.class_list),
            'class_name': node.class_name, 'id': node.id,
            'tag': node.tag_name, 'ns': node.namespace_uri,
            'text': node.text or None, 'tail': node.tail or None,
            'children': node.child_nodes, 'elements': node.children,
            'parent': node.parent_node, 'next': node.next_sibling,
            'previous': node.previous_sibling,
            'owner': self.owned(node),
            'root': node.get_root_node(),
            'has': node.has_attributes(),
        }
        if hasattr(node, 'dataset'):
            out['dataset'] = {k: node.dataset[k] for k in node.dataset}
        if hasattr(node, 'style'):
            out['style'] = [[k, list(v)]
                            for k, v in sorted(node.style.items())]
        return out

    def owned(self, node):
        """Whether a node in the document names it; the owner of a removed
        node is not constrained."""
        top = node
        while top.getparent() is not None:
            top = top.getparent()
        root = self.doc.document_element
        if root is None:
            return None
        for step in (type(top).getprevious, type(top).getnext):
            current = top
            while current is not None:
                if current is root:
                    return node.owner_document is self.doc
                current = step(current)
        return None

    def q_text_metrics(self, node, first=0, count=-1):
        if not hasattr(node, 'get_computed_text_length'):
            raise Skip()
        return [node.get_computed_text_length(), node.get_number_of_chars(),
                node.get_chars(), node.get_sub_string_length(first, count),
                node.get_nearest_text_element()]

    def q_tostring(self, node):
        return node.tostring(encoding='utf-8', with_tail=False)

    def rules(self, rules):
        out = []
        for rule in rules:
            item = [type(rule).__name__]
            if hasattr(rule, 'selector_text'):
                item.append(rule.selector_text)
            if hasattr(rule, 'style'):
                item.append([[k, list(v)]
                             for k, v in sorted(rule.style.items())])
            if hasattr(rule, 'media'):
                item.append(rule.media.media_text)
            if hasattr(rule, 'css_rules'):
                item.append(self.rules(rule.css_rules))
            out.append(item)
        return out

    def qd_dump(self):
        return self.dump()

    def qd_tostring(self):
        return self.doc.tostring(encoding='utf-8')

    def qd_sheets(self):
        return [[s.href, s.media.media_text, self.rules(s.css_rules)]
                for s in self.doc.style_sheets[1:]]

    def qd_media(self, query):
        return self.win.match_media(query).matches

    def qd_by_id(self, element_id):
        return self.doc.get_element_by_id(
            element_id, nsmap=self.lend({'s': SVG}))

    def qd_by_class(self, names):
        return self.doc.get_elements_by_class_name(
            names, nsmap=self.lend({'s': SVG}))

    def qd_by_tag(self, name):
        return self.doc.get_elements_by_tag_name(name)

    def qd_by_tag_ns(self, ns, name):
        return self.doc.get_elements_by_tag_name_ns(ns, name)

    def qd_select(self, selector):
        return [self.doc.query_selector(selector),
                self.doc.query_selector_all(selector)]

    def qd_document(self):
        doc = self.doc
        return [doc.child_nodes, doc.children, doc.document_element,
                doc.content_type, doc.document_uri, doc.first_child,
                doc.last_child, doc.child_element_count,
                doc.default_view is self.win]

    # -- the whole state ---------------------------------------------------------------
    def dump(self, serial=True):
        """Everything the document and the detached subtrees report, without
        style resolution."""
        out = [self.qd_document()]
        if serial:
            out.append(self.qd_tostring())
        for top in self.tops():
            for node in walk(top):
                if node.node_type == 1:
                    out.append([handle(node), self.q_views(node)])
                else:
                    out.append([handle(node), node.node_type, node.data,
                                node.tail or None, node.parent_node,
                                self.owned(node)])
        return norm(out)

    def styles(self):
        """Style and geometry of every element in the document; those of a
        detached element depend on its owner, which is not constrained."""
        out = []
        root = self.doc.document_element
        if root is not None:
            for node in walk(root):
                if node.node_type != 1:
                    continue
                item = [handle(node)]
                for what in ('inherited', 'geometry', 'bbox', 'screen_ctm',
                             'path', 'zoom'):
                    if what in ('path', 'bbox') and node.istext() and \
                            (what == 'path' or node.local_name != 'text'):
                        continue    # laying out text is slow
                    item.append(self.step(['q', handle(node), what]))
                out.append(item)
        return out
