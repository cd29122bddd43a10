"""D02: reference model of attributes and their views."""
import gc

from .engine import Violation
from .model import HTML, SVG, XLINK, XML

EX = 'http://example.org/x'
TAGS = ['{%s}rect' % SVG, '{%s}g' % SVG, '{%s}text' % SVG, '{%s}link' % HTML,
        '{%s}svg' % SVG, '{%s}unknown' % SVG, 'plain', '{%s}div' % HTML]
NAMES = ['id', 'class', 'fill', 'x', 'data-a', 'data-a-b', 'data-row-1',
         '{%s}lang' % XML, '{%s}href' % XLINK, '{%s}k' % EX, 'rel', 'lang',
         'title', 'data-', 'data--q', 'href']
VALUES = ['a', 'b c', 'x & <y>"', '\u65e5\u672c', "it's", '0', ' pad ',
          'multi\nline', 'a\tb', 'p\xa0q', '\U0001f600', 'none']
TOKENS = ['t1', 't2', 'a', 'b', 'x-y', 'p\xa0q', '\u65e5', 't(3', '.*', "q'"]
KEYS = ['a', 'aB', 'row-1', 'x9', '', 'Q', 'longKeyName']
PREFIX = {XML: 'xml', XLINK: 'xlink'}
MISSING = object()


def split(name):
    if name.startswith('{'):
        ns, local = name[1:].split('}')
        return ns, local
    return None, name


def ascii_split(value):
    for ch in '\t\n\f\r':
        value = value.replace(ch, ' ')
    return [x for x in value.split(' ') if x]


def data_name(key):
    out = 'data-'
    for ch in key:
        if 'A' <= ch <= 'Z':
            out += '-' + ch.lower()
        else:
            out += ch
    return out


def data_key(name):
    rest = name[5:]
    out = ''
    i = 0
    while i < len(rest):
        if rest[i] == '-' and i + 1 < len(rest) and 'a' <= rest[i + 1] <= 'z':
            out += rest[i + 1].upper()
            i += 2
        else:
            out += rest[i]
            i += 1
    return out


class AttrModel:
    def __init__(self):
        self.els = {}        # element id -> {name: value}
        self.tags = {}
        self.place = {}      # element id -> (document, position list owner)
        self.docs = {}       # doc id -> [element ids]
        self.attrs = {}      # Attr id -> [name, state]; state is
        #                      ('free', value), ('on', el) or None (unknown)

    def bound(self, el, name):
        for aid, (n, state) in self.attrs.items():
            if n == name and state == ('on', el):
                return aid
        return None

    def put(self, el, name, value):
        """Removing convention of the attribute interfaces."""
        if value is None or value == '':
            self.drop(el, name)
        else:
            self.els[el][name] = value

    def drop(self, el, name, detach=True):
        """Removes an attribute; its Attr is detached with the last value."""
        if name not in self.els[el]:
            return
        value = self.els[el].pop(name)
        for aid, (n, state) in list(self.attrs.items()):
            if n == name and state == ('on', el):
                self.attrs[aid][1] = ('free', value) if detach else None

    def tokens(self, el, name):
        return ascii_split(self.els[el].get(name, ''))

    def set_tokens(self, el, name, tokens):
        if tokens:
            self.els[el][name] = ' '.join(tokens)
        else:
            self.drop(el, name, detach=False)


class AttrWorld:
    def __init__(self, ctx):
        from lxml import etree
        from svgpy import SVGParser
        etree.register_namespace('xlink', XLINK)
        etree.register_namespace('x', EX)
        self.ctx = ctx
        self.m = AttrModel()
        self.parser = SVGParser()
        self.docs = {}
        self.held = {}
        self.attrs = {}

    def el(self, eid):
        if eid not in self.held:
            doc = self.m.place[eid]
            self.held[eid] = self.docs[doc].document_element[
                self.m.docs[doc].index(eid)]
        return self.held[eid]

    # every op: (valid, model effect, call)
    def step(self, op):
        name = op[0]
        m = self.m
        if name == 'doc':
            if op[1] in m.docs:
                return False
            m.docs[op[1]] = []
            self.docs[op[1]] = self.parser.create_svg_document()
            return True
        if name == 'el':
            _, eid, doc, tag, attrib = op
            if eid in m.els or doc not in m.docs:
                return False
            m.els[eid] = {}
            m.tags[eid] = tag
            ns, local = split(tag)
            el = self.docs[doc].create_element_ns(ns, local)
            self.docs[doc].document_element.append(el)
            for k, v in attrib:
                el.set(k, v)
                m.els[eid][k] = v
            m.place[eid] = doc
            m.docs[doc].append(eid)
            self.held[eid] = el
            return True
        if name == 'parse':
            _, doc, items = op
            if doc in m.docs:
                return False
            from lxml import etree
            root = etree.Element('{%s}svg' % SVG, nsmap={None: SVG})
            m.docs[doc] = []
            for eid, tag, attrib in items:
                if eid in m.els:
                    continue
                sub = etree.SubElement(root, tag)
                for k, v in attrib:
                    sub.set(k, v)
                m.els[eid] = dict((k, v) for k, v in attrib)
                m.tags[eid] = tag
                m.place[eid] = doc
                m.docs[doc].append(eid)
            d = self.parser.create_svg_document()
            new = self.parser.fromstring(etree.tostring(root))
            d.replace_child(new, d.document_element)
            self.docs[doc] = d
            return True
        if name == 'move':
            _, eid, doc = op
            if eid not in m.els or doc not in m.docs:
                return False
            self.docs[doc].document_element.append(self.el(eid))
            if m.place[eid] is not None:
                m.docs[m.place[eid]].remove(eid)
            m.docs[doc].append(eid)
            m.place[eid] = doc
            return True
        if name == 'lift':
            eid = op[1]
            if eid not in m.els or m.place[eid] is None:
                return False
            el = self.el(eid)
            el.getparent().remove(el)
            m.docs[m.place[eid]].remove(eid)
            m.place[eid] = None
            return True
        if name == 'gc':
            for eid in list(self.held):
                if m.place[eid] is None:
                    continue    # nothing else keeps it
                if op[1] == 'all' or eid in op[1]:
                    del self.held[eid]
            gc.collect()
            self.ctx.count('fault.gc')
            return True
        if name == 'newattr':
            _, aid, an, value, how = op
            if aid in m.attrs:
                return False
            ns, local = split(an)
            maker = self.parser if how % 2 == 0 or not self.docs \
                else next(iter(self.docs.values()))
            if ns is None:
                attr = maker.create_attribute(local)
            else:
                attr = maker.create_attribute_ns(ns, local)
            attr.value = value
            self.attrs[aid] = attr
            m.attrs[aid] = [an, ('free', value)]
            return True
        if name == 'dropattr':
            if op[1] not in m.attrs:
                return False
            del m.attrs[op[1]]
            del self.attrs[op[1]]
            return True
        if name == 'attrvalue':
            _, aid, value, how = op
            if aid not in m.attrs or m.attrs[aid][1] is None:
                return False
            an, state = m.attrs[aid]
            attr = self.attrs[aid]
            if how == 0:
                attr.value = value
            elif how == 1:
                attr.node_value = value
            else:
                attr.text_content = value
            if state[0] == 'free':
                m.attrs[aid][1] = ('free', value)
            elif value:
                m.els[state[1]][an] = value
            else:
                m.drop(state[1], an, detach=False)
            return True
        if name == 'attach':
            _, eid, aid, how = op
            if eid not in m.els or aid not in m.attrs \
                    or m.attrs[aid][1] is None:
                return False
            an, state = m.attrs[aid]
            el, attr = self.el(eid), self.attrs[aid]
            old = m.bound(eid, an)
            had = an in m.els[eid]
            fn = (lambda: el.set_attribute_node(attr),
                  lambda: el.set_attribute_node_ns(attr),
                  lambda: el.attributes.set_named_item(attr),
                  lambda: el.attributes.set_named_item_ns(attr),
                  lambda: el.attributes.__setitem__(an, attr))[how]
            if state[0] == 'on' and state[1] != eid:
                self.raises(fn, 'InUseAttributeError', op)
                return True
            got = fn()
            if how < 4:
                self.ctx.check((got is not None) == had, 'attr:return',
                               '{}: returned {!r}'.format(op, got))
                if old is not None:
                    self.ctx.check(got is self.attrs[old], 'attr:return',
                                   '{}: not the replaced Attr'.format(op))
            if state[0] == 'on':
                return True
            value = state[1]
            if not value:
                m.drop(eid, an)
                return True
            if old is not None:
                m.attrs[old][1] = ('free', m.els[eid][an])
            m.els[eid][an] = value
            m.attrs[aid][1] = ('on', eid)
            return True
        # ---- operations on one element -----------------------------------
        eid = op[1]
        if eid not in m.els:
            return False
        el = self.el(eid)
        attrs = m.els[eid]
        if name == 'getnode':
            _, _, aid, an, how = op
            if aid in m.attrs:
                return False
            ns, local = split(an)
            got = (lambda: el.get_attribute_node(an),
                   lambda: el.get_attribute_node_ns(ns, local),
                   lambda: el.attributes.get(an),
                   lambda: el.attributes.get_named_item(an),
                   lambda: el.attributes.get_named_item_ns(ns, local))[how]()
            if an not in attrs:
                self.ctx.check(got is None, 'attr:absent',
                               '{} gave {!r}'.format(op, got))
                return True
            old = m.bound(eid, an)
            if old is not None:
                self.ctx.check(got is self.attrs[old], 'attr:identity',
                               '{} gave another Attr'.format(op))
                return True
            self.ctx.check(got is not None, 'attr:present', str(op))
            self.attrs[aid] = got
            m.attrs[aid] = [an, ('on', eid)]
            return True
        if name == 'set':
            el.set(op[2], op[3])
            attrs[op[2]] = op[3]
            return True
        if name == 'put':
            _, _, an, value, how = op
            ns, local = split(an)
            if how == 0:
                el.set_attribute(an, value)
            elif how == 1:
                q = local
                if ns in PREFIX and value is not None and len(value) % 2:
                    q = PREFIX[ns] + ':' + local
                el.set_attribute_ns(ns, q, value)
            elif how == 2:
                el.attributes[an] = value
            elif how == 3:
                el.attributes.update({an: value})
            elif how == 4:
                el.attributes.setdefault(an, value)
                if an in attrs:
                    return True
            m.put(eid, an, value)
            return True
        if name == 'del':
            _, _, an, how = op
            ns, local = split(an)
            had = an in attrs
            old = m.bound(eid, an)
            if how == 0:
                el.remove_attribute(an)
            elif how == 1:
                el.remove_attribute_ns(ns, local)
            elif had:
                if how == 2:
                    del el.attributes[an]
                elif how == 3:
                    got = el.attributes.pop(an)
                    self.check_removed(got, old, attrs[an], op)
                elif how == 4:
                    got = el.attributes.remove_named_item(an)
                    self.check_removed(got, old, attrs[an], op)
                elif how == 5:
                    got = el.attributes.remove_named_item_ns(ns, local)
                    self.check_removed(got, old, attrs[an], op)
                elif how == 6:
                    got = el.remove_attribute_node(
                        el.get_attribute_node_ns(ns, local))
                    self.check_removed(got, old, attrs[an], op)
            elif how == 2:
                self.raises(lambda: el.attributes.__delitem__(an),
                            'KeyError', op)
            elif how == 3:
                self.raises(lambda: el.attributes.pop(an), 'KeyError', op)
            elif how in (4, 6):
                self.raises(lambda: el.attributes.remove_named_item(an),
                            'KeyError', op)
            else:
                self.raises(
                    lambda: el.attributes.remove_named_item_ns(ns, local),
                    'KeyError', op)
            m.drop(eid, an)
            return True
        if name == 'clear':
            el.attributes.clear()
            for an in list(attrs):
                m.drop(eid, an)
            return True
        if name == 'toggle':
            _, _, an, force = op
            got = el.toggle_attribute(an, force)
            if an in attrs:
                if force is not True:
                    m.drop(eid, an)
            elif force is not False:
                attrs[an] = ''
            self.ctx.equal(got, an in attrs, 'attr:toggle', op)
            return True
        if name == 'prop':
            _, _, prop, value = op
            if prop in ('rel', 'href', 'media', 'title', 'type', 'lang') \
                    and m.tags[eid] != '{%s}link' % HTML:
                return False
            setattr(el, prop, value)
            an = {'class_name': 'class'}.get(prop, prop)
            attrs[an] = value
            return True
        if name == 'tok':
            return self.token_op(op, el, eid)
        if name == 'data':
            return self.data_op(op, el, eid)
        raise ValueError(op)

    def check_removed(self, got, old, value, op):
        self.ctx.check(got is not None and got.owner_element is None
                       and got.value == value, 'attr:removed',
                       '{}: removed Attr reports {!r}'.format(op, got))
        if old is not None:
            self.ctx.check(got is self.attrs[old], 'attr:identity',
                           '{}: another Attr'.format(op))

    def raises(self, fn, what, op):
        try:
            fn()
        except Exception as exc:
            names = [c.__name__ for c in type(exc).__mro__]
            self.ctx.check(what in names, 'attr:error',
                           '{}: raised {!r} instead of {}'.format(
                               op, exc, what))
            return
        raise Violation('attr:no-error', '{}: expected {}'.format(op, what))

    def token_op(self, op, el, eid):
        _, _, an, what, args = op
        m = self.m
        if an in ('rel', 'sizes') and m.tags[eid] != '{%s}link' % HTML:
            return False
        view = {'class': lambda: el.class_list,
                'rel': lambda: el.rel_list,
                'sizes': lambda: el.sizes}[an]()
        tokens = m.tokens(eid, an)
        if len(set(tokens)) != len(tokens):
            return False
        new = list(tokens)
        bad = [t for t in args if isinstance(t, str)
               and (t == '' or len(ascii_split(t)) != 1
                    or ascii_split(t)[0] != t)]
        if bad and what in ('add', 'remove', 'replace', 'insert'):
            fn = {'add': lambda: view.add(*args),
                  'remove': lambda: view.remove(*args),
                  'replace': lambda: view.replace(*args),
                  'insert': lambda: view.insert(*args)}[what]
            self.raises(fn, 'Exception', op)
            return True
        if bad:
            return False
        if what == 'add':
            view.add(*args)
            for t in args:
                if t not in new:
                    new.append(t)
        elif what == 'remove':
            view.remove(*args)
            new = [t for t in new if t not in args]
        elif what == 'replace':
            got = view.replace(*args)
            ok = args[0] in new and args[1] not in new
            self.ctx.equal(got, ok, 'tok:replace', op)
            if ok:
                new[new.index(args[0])] = args[1]
        elif what == 'toggle':
            got = view.toggle(args[0], args[1])
            if args[0] in new:
                if args[1] is not True:
                    new.remove(args[0])
            elif args[1] is not False:
                new.append(args[0])
            self.ctx.equal(got, args[0] in new, 'tok:toggle', op)
        elif what == 'insert':
            view.insert(*args)
            if args[1] not in new:
                new.insert(*args)
        elif what == 'append':
            view.append(args[0])
            if args[0] not in new:
                new.append(args[0])
        elif what == 'extend':
            given = list(args)
            view.extend(given)
            self.ctx.equal(given, list(args), 'tok:argument', op)
            for t in args:
                if t not in new:
                    new.append(t)
        elif what == 'pop':
            if not new:
                return False
            got = view.pop()
            self.ctx.equal(got, new.pop(), 'tok:pop', op)
        elif what == 'delitem':
            if not new:
                return False
            i = args[0] % len(new)
            del view[i]
            del new[i]
        elif what == 'setitem':
            if not new:
                return False
            i = args[0] % len(new)
            view[i] = args[1]
            if args[1] not in new:
                new[i] = args[1]
        elif what == 'clear':
            view.clear()
            new = []
        if new != tokens:
            m.set_tokens(eid, an, new)
        return True

    def data_op(self, op, el, eid):
        _, _, what, key, value = op
        m = self.m
        an = data_name(key)
        attrs = m.els[eid]
        view = el.dataset
        if what == 'set':
            if not value:
                if an not in attrs:
                    return False
            view[key] = value
            m.put(eid, an, value)
        elif what == 'del':
            if an in attrs:
                del view[key]
                m.drop(eid, an)
            else:
                self.raises(lambda: view.__delitem__(key), 'KeyError', op)
        elif what == 'update':
            if not value:
                return False
            view.update({key: value})
            m.put(eid, an, value)
        elif what == 'pop':
            got = view.pop(key, None)
            self.ctx.equal(got, attrs.get(an), 'data:pop', op)
            m.drop(eid, an)
        elif what == 'clear':
            view.clear()
            for n in list(attrs):
                if n.startswith('data-'):
                    m.drop(eid, n)
        elif what == 'bad':
            self.raises(lambda: view.__setitem__('a-b', 'v'), 'ValueError',
                        op)
            self.raises(lambda: view.__setitem__('a b', 'v'), 'Exception',
                        op)
        return True

    # -- oracle ------------------------------------------------------------
    def verify(self, op):
        for eid in self.m.els:
            self.verify_el(eid, op)
        for aid, (an, state) in self.m.attrs.items():
            self.verify_attr(aid, an, state, op)

    def verify_attr(self, aid, an, state, op):
        eq = self.ctx.equal
        attr = self.attrs[aid]
        what = 'after {}: Attr {} '.format(op, aid)
        ns, local = split(an)
        eq((attr.name, attr.namespace_uri, attr.local_name, attr.node_name),
           (an, ns, local, an), 'attr:name', what)
        if state is None:
            return
        if state[0] == 'on':
            el = self.el(state[1])
            self.ctx.check(attr.owner_element is el, 'attr:owner',
                           what + 'owner {!r}'.format(attr.owner_element))
            value = self.m.els[state[1]][an]
        else:
            self.ctx.check(attr.owner_element is None, 'attr:owner',
                           what + 'still has an owner')
            value = state[1]
        eq(attr.value, value, 'attr:value', what + 'value')
        eq(attr.node_value, value or '', 'attr:value', what + 'node_value')
        eq(attr.text_content, value or '', 'attr:value', what + 'text')
        eq(attr.tostring(), (value or '').encode(), 'attr:value',
           what + 'tostring')

    def verify_el(self, eid, op):
        from lxml import etree
        eq = self.ctx.equal
        el = self.el(eid)
        want = self.m.els[eid]
        what = 'after {}: {} '.format(op, eid)
        eq(sorted(el.attrib.items()), sorted(want.items()), 'view:attrib',
           what + 'attrib')
        eq(el.get_attribute_names(), sorted(want), 'view:names',
           what + 'names')
        amap = el.attributes
        keys = list(amap.keys())
        eq(sorted(keys), sorted(want), 'view:map', what + 'attributes keys')
        eq(list(amap), keys, 'view:map', what + 'attributes iteration')
        eq((len(amap), amap.length, el.has_attributes()),
           (len(want), len(want), bool(want)), 'view:map', what + 'length')
        for i, k in enumerate(keys):
            item = amap.item(i)
            self.ctx.check(item is not None and item.name == k
                           and item.value == want[k]
                           and item.owner_element is el, 'view:item',
                           what + 'item({}) is {!r}'.format(i, item))
        self.ctx.check(amap.item(len(keys)) is None, 'view:item',
                       what + 'item past the end')
        eq(sorted((k, v.value) for k, v in amap.items()),
           sorted(want.items()), 'view:items', what + 'items')
        for an in NAMES + ['nosuch', 'sizes']:
            ns, local = split(an)
            value = want.get(an)
            here = an in want
            eq((el.get(an), el.get_attribute(an),
                el.get_attribute_ns(ns, local)), (value,) * 3, 'view:get',
               what + an)
            eq((el.has_attribute(an), el.has_attribute_ns(ns, local),
                an in amap), (here,) * 3, 'view:has', what + an)
            nodes = [el.get_attribute_node(an),
                     el.get_attribute_node_ns(ns, local),
                     amap.get_named_item(an),
                     amap.get_named_item_ns(ns, local), amap.get(an)]
            if not here:
                eq(nodes, [None] * 5, 'view:node', what + an)
                continue
            node = nodes[0]
            self.ctx.check(node is not None and
                           all(n is node for n in nodes), 'view:node',
                           what + an + ': {!r}'.format(nodes))
            eq((node.value, node.name, node.local_name, node.namespace_uri),
               (value, an, local, ns), 'view:node', what + an)
            self.ctx.check(node.owner_element is el, 'view:node-owner',
                           what + an)
            bound = self.m.bound(eid, an)
            if bound is not None:
                self.ctx.check(node is self.attrs[bound], 'attr:identity',
                               what + an)
        eq((el.id, el.class_name), (want.get('id', ''),
                                    want.get('class', '')), 'view:reflect',
           what + 'id/class_name')
        views = [('class', el.class_list)]
        if self.m.tags[eid] == '{%s}link' % HTML:
            views += [('rel', el.rel_list), ('sizes', el.sizes)]
            eq((el.rel, el.href, el.media, el.title, el.type, el.lang),
               tuple(want.get(k, '') for k in (
                   'rel', 'href', 'media', 'title', 'type', 'lang')),
               'view:reflect', what + 'link properties')
        for an, view in views:
            tokens = ascii_split(want.get(an, ''))
            eq((list(view), len(view), view.length),
               (tokens, len(tokens), len(tokens)), 'view:tokens', what + an)
            eq(view.value, ' '.join(tokens), 'view:tokens', what + an)
            for t in TOKENS[:4] + tokens:
                eq((view.contains(t), t in view), (t in tokens,) * 2,
                   'view:contains', what + t)
            for i, t in enumerate(tokens):
                eq((view.item(i), view[i]), (t, t), 'view:tokens', what)
        if hasattr(el, 'dataset'):
            data = {data_key(k): v for k, v in want.items()
                    if k.startswith('data-')}
            ds = el.dataset
            eq(sorted(ds.keys()), sorted(data), 'view:dataset',
               what + 'dataset keys')
            eq((dict(ds.items()), len(ds)), (data, len(data)),
               'view:dataset', what + 'dataset')
            for k in KEYS:
                eq((k in ds, ds.get(k)), (k in data, data.get(k)),
                   'view:dataset', what + 'dataset ' + k)
        copy = etree.fromstring(el.tostring(with_tail=False))
        eq(sorted(copy.attrib.items()), sorted(want.items()), 'view:serial',
           what + 'tostring')


class AttrGen:
    def __init__(self, rng):
        self.rng = rng
        self.ops = []
        self.els = []
        self.docs = []
        self.aids = []
        self.n = 0

    def new(self, prefix):
        self.n += 1
        return prefix + str(self.n)

    def name(self):
        r = self.rng
        if r.random() < 0.6:
            return r.choice(self.hot)
        return r.choice(NAMES)

    def value(self, empty=0.12):
        r = self.rng
        if r.random() < empty:
            return r.choice(['', '', None])
        return r.choice(VALUES)

    def attrib(self):
        r = self.rng
        names = r.sample(NAMES, r.randrange(0, 5))
        return [[n, r.choice(VALUES)] for n in names]

    def start(self):
        r = self.rng
        self.hot = r.sample(NAMES, 3)
        for _ in range(r.choice([1, 2])):
            d = self.new('d')
            self.docs.append(d)
            if r.random() < 0.5:
                items = []
                for _ in range(r.choice([1, 2, 3])):
                    e = self.new('e')
                    self.els.append(e)
                    items.append([e, r.choice(TAGS), self.attrib()])
                self.ops.append(['parse', d, items])
            else:
                self.ops.append(['doc', d])
        while len(self.els) < 2:
            e = self.new('e')
            self.els.append(e)
            self.ops.append(['el', e, r.choice(self.docs), r.choice(TAGS),
                             self.attrib()])
        self.focus = r.choice(self.els)

    def op(self):
        r = self.rng
        e = self.focus if r.random() < 0.6 else r.choice(self.els)
        k = r.choices(['set', 'put', 'del', 'toggle', 'prop', 'tok', 'data',
                       'newattr', 'attach', 'attrvalue', 'getnode', 'gc',
                       'move', 'dropattr', 'clear'],
                      [8, 12, 9, 4, 4, 10, 9, 7, 9, 7, 6, 5, 3, 2, 1])[0]
        if k == 'set':
            v = r.choice(VALUES + [''])
            self.ops.append(['set', e, self.name(), v])
        elif k == 'put':
            how = r.randrange(5)
            v = self.value()
            self.ops.append(['put', e, self.name(), v, how])
        elif k == 'del':
            self.ops.append(['del', e, self.name(), r.randrange(7)])
        elif k == 'toggle':
            self.ops.append(['toggle', e, self.name(),
                             r.choice([None, None, True, False])])
        elif k == 'prop':
            self.ops.append(['prop', e, r.choice(
                ['id', 'class_name', 'rel', 'href', 'media', 'title', 'type',
                 'lang', 'id', 'class_name']), r.choice(VALUES)])
        elif k == 'tok':
            what = r.choice(['add', 'add', 'remove', 'replace', 'toggle',
                             'insert', 'append', 'extend', 'pop', 'delitem',
                             'setitem', 'clear'])
            pool = TOKENS + (['', 'a b', 'x\ty'] if r.random() < 0.15 else [])
            if what in ('add', 'remove', 'extend'):
                args = [r.choice(pool) for _ in range(r.choice([1, 1, 2, 3]))]
            elif what == 'replace':
                args = [r.choice(pool), r.choice(pool)]
            elif what == 'toggle':
                args = [r.choice(TOKENS), r.choice([None, None, True, False])]
            elif what in ('insert', 'setitem'):
                args = [r.randrange(4), r.choice(pool)]
            elif what == 'delitem':
                args = [r.randrange(4)]
            elif what == 'append':
                args = [r.choice(TOKENS)]
            else:
                args = []
            self.ops.append(['tok', e, r.choice(['class', 'class', 'rel',
                                                 'sizes']), what, args])
        elif k == 'data':
            self.ops.append(['data', e, r.choice(
                ['set', 'set', 'set', 'del', 'update', 'pop', 'clear',
                 'bad']), r.choice(KEYS), self.value(0.08) or ''])
        elif k == 'newattr':
            a = self.new('a')
            self.aids.append(a)
            self.ops.append(['newattr', a, self.name(), self.value(),
                             r.randrange(2)])
        elif k == 'getnode':
            a = self.new('a')
            self.aids.append(a)
            self.ops.append(['getnode', e, a, self.name(), r.randrange(5)])
        elif k == 'gc':
            self.ops.append(['gc', 'all' if r.random() < 0.6
                             else r.sample(self.els, 1)])
        elif k == 'move':
            if r.random() < 0.4:
                self.ops.append(['lift', e])
            else:
                self.ops.append(['move', e, r.choice(self.docs)])
        elif k == 'clear':
            self.ops.append(['clear', e])
        elif self.aids:
            a = r.choice(self.aids[-4:])
            if k == 'attach':
                self.ops.append(['attach', e, a, r.randrange(5)])
            elif k == 'attrvalue':
                self.ops.append(['attrvalue', a, self.value(),
                                 r.randrange(3)])
            else:
                self.ops.append(['dropattr', a])
