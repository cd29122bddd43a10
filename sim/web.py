"""Simulated web: documents, linked/imported sheets, a server, and the oracle.

Sites are data.  A document is {'kind': 'svg', 'pis': [...], 'root': el}, an
element {'id', 'tag', 'attrs', 'kids', 'css'}, a sheet {'kind': 'css',
'items': [...]} and an item one of
  ['rule', selector, decls], ['import', href, form, media or None],
  ['media', query, items], ['ns', prefix, uri], ['comment', text],
  ['fontface'], ['raw', text].
The cascade oracle below works on these values only.
"""
import urllib.parse

from lxml import etree

from . import media as mq
from . import net
from .engine import Violation
from .model import HTML, SVG

PROPS = ['fill', 'stroke', 'color', 'cursor', 'visibility', 'text-anchor',
         'stroke-linejoin', 'letter-spacing']
DEFAULTS = {'fill': 'black', 'stroke': 'none', 'color': 'black',
            'cursor': 'auto', 'visibility': 'visible',
            'text-anchor': 'start', 'stroke-linejoin': 'miter',
            'letter-spacing': 'normal'}
NS = {'hlink': (HTML, 'link')}


def esc(text):
    return (text.replace('&', '&amp;').replace('<', '&lt;')
            .replace('>', '&gt;').replace('"', '&quot;'))


# -- rendering ---------------------------------------------------------------
def css_compound(c):
    out = ''
    if c.get('tag'):
        out = 'svg|' + c['tag']
    if c.get('id'):
        out += '#' + c['id']
    for k in c.get('cls', ()):
        out += '.' + k
    if c.get('attr'):
        out += '[{}="{}"]'.format(*c['attr'])
    if c.get('not'):
        out += ':not(.{})'.format(c['not'])
    if c.get('pos'):
        out += ':' + c['pos']
    return out or '*'


def css_selector(sel):
    alts = []
    for alt in sel:
        text = ''
        for comb, c in alt:
            if text:
                text += ' ' if comb == ' ' else ' {} '.format(comb)
            text += css_compound(c)
        alts.append(text)
    return ', '.join(alts)


def css_decls(decls):
    return '; '.join('{}: {}{}'.format(p, v, ' !important' if i else '')
                     for p, v, i in decls)


def css_item(item, indent=''):
    kind = item[0]
    if kind == 'rule':
        return '{} {{ {} }}'.format(css_selector(item[1]),
                                    css_decls(item[2]))
    if kind == 'import':
        href = {'url': 'url({})', 'str': '"{}"', 'urlq': "url('{}')"}[
            item[2]].format(item[1])
        return '@import {}{};'.format(
            href, ' ' + mq.text(item[3]) if item[3] else '')
    if kind == 'media':
        return '@media {} {{\n{}\n}}'.format(
            mq.text(item[1]), '\n'.join(css_item(i) for i in item[2]))
    if kind == 'ns':
        return '@namespace {}url({});'.format(
            item[1] + ' ' if item[1] else '', item[2])
    if kind == 'comment':
        return '/* {} */'.format(item[1])
    if kind == 'fontface':
        return '@font-face { font-family: "f"; src: url(f.woff) }'
    return item[1]


def css(items):
    return '\n'.join(css_item(i) for i in items)


def xml_el(el):
    ns, tag = NS.get(el['tag'], (SVG, el['tag']))
    attrs = dict(el.get('attrs', {}))
    out = '<' + tag
    if ns != SVG or el.get('top'):
        out += ' xmlns="{}"'.format(ns)
    if el.get('id'):
        out += ' id="{}"'.format(el['id'])
    for k, v in attrs.items():
        out += ' {}="{}"'.format(k, esc(v))
    out += '>'
    if el.get('css') is not None:
        out += esc(css(el['css']))
    elif el.get('text'):
        out += esc(el['text'])
    for kid in el.get('kids', ()):
        out += xml_el(kid)
    return out + '</{}>'.format(tag)


def pi_text(pi):
    return '<?xml-stylesheet ' + ' '.join(
        '{}="{}"'.format(k, esc(v)) for k, v in pi.items()) + '?>'


def doc_xml(spec):
    out = ''
    if spec.get('decl'):
        out += '<?xml version="1.0" encoding="{}"?>\n'.format(spec['decl'])
    out += ''.join(pi_text(pi) + '\n' for pi in spec.get('pis', ()))
    if spec.get('comment'):
        out += '<!-- {} -->'.format(spec['comment'])
    out += xml_el(dict(spec['root'], top=True))
    if spec.get('comment'):
        out += '<!-- after -->'
    return out


def body(spec):
    """(bytes, content type) the server delivers."""
    if spec['kind'] == 'svg':
        text = doc_xml(spec)
        enc = spec.get('enc', 'utf-8')
        data = text.encode(enc)
        if spec.get('bom'):
            data = b'\xef\xbb\xbf' + data
        return data, spec.get('ctype')
    if spec['kind'] == 'css':
        return css(spec['items']).encode('utf-8'), spec.get('ctype')
    return spec['text'].encode('utf-8'), spec.get('ctype')


# -- the model ---------------------------------------------------------------
class El:
    __slots__ = ('id', 'tag', 'attrs', 'css', 'text', 'kids', 'parent')

    def __init__(self, spec, parent=None):
        self.id = spec['id']
        self.tag = spec['tag']
        self.attrs = dict(spec.get('attrs', {}))
        self.css = spec.get('css')
        self.text = spec.get('text')
        self.parent = parent
        self.kids = [El(k, self) for k in spec.get('kids', ())]

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def build_sut(doc, spec):
    """The same element made through the library."""
    ns, tag = NS.get(spec['tag'], (SVG, spec['tag']))
    el = doc.create_element_ns(ns, tag)
    el.set('id', spec['id'])
    for k, v in spec.get('attrs', {}).items():
        el.set(k, v)
    if spec.get('css') is not None:
        el.text = css(spec['css'])
    elif spec.get('text'):
        el.text = spec['text']
    for k in spec.get('kids', ()):
        el.append(build_sut(doc, k))
    return el


def parse_style(text):
    """The generator only writes 'p: v; q: w !important'."""
    out = []
    for part in text.split(';'):
        if part.strip():
            p, v = part.split(':', 1)
            v = v.strip()
            imp = v.endswith('!important')
            if imp:
                v = v[:-len('!important')].strip()
            out.append([p.strip(), v, imp])
    return out


def match_compound(c, el):
    if c.get('tag') and (NS.get(el.tag, (SVG, el.tag)) != (SVG, c['tag'])):
        return False
    if c.get('id') and el.id != c['id']:
        return False
    cls = el.attrs.get('class', '').split()
    for k in c.get('cls', ()):
        if k not in cls:
            return False
    if c.get('attr') and el.attrs.get(c['attr'][0]) != c['attr'][1]:
        return False
    if c.get('not') and c['not'] in cls:
        return False
    pos = c.get('pos')
    if pos == 'root' and el.parent is not None:
        return False
    if pos in ('first-child', 'last-child'):
        if el.parent is not None:
            kids = el.parent.kids
            if kids[0 if pos == 'first-child' else -1] is not el:
                return False
    return True


def match_alt(alt, el, upto=None):
    n = len(alt) - 1 if upto is None else upto
    comb, c = alt[n]
    if not match_compound(c, el):
        return False
    if n == 0:
        return True
    if comb == '>':
        return el.parent is not None and match_alt(alt, el.parent, n - 1)
    if comb == '~':
        if el.parent is None:
            return False
        kids = el.parent.kids
        return any(match_alt(alt, k, n - 1) for k in kids[:kids.index(el)])
    cur = el.parent
    while cur is not None:
        if match_alt(alt, cur, n - 1):
            return True
        cur = cur.parent
    return False


def match(sel, el):
    return any(match_alt(alt, el) for alt in sel)


class Oracle:
    """What the cascade gives, from the model alone."""

    def __init__(self, page):
        self.page = page

    def media_ok(self, query):
        if query is None:
            return True
        if isinstance(query, str):
            return query in ('', 'all')
        return mq.matches(query, self.page.env())

    def expand(self, items, base, stack, out):
        for it in items:
            if it[0] == 'rule':
                out.append((it[1], it[2]))
            elif it[0] == 'media':
                if self.media_ok(it[1]):
                    self.expand(it[2], base, stack, out)
            elif it[0] == 'import':
                if not self.media_ok(it[3]):
                    continue
                url = urllib.parse.urljoin(base, it[1])
                if url in stack:
                    continue
                self.expand(self.page.sheet(url), url, stack + [url], out)

    def sources(self):
        """(kind, items, base url, stack) of every sheet of the document."""
        page = self.page
        base = page.url
        for pi in page.pis:
            href = pi.get('href')
            if (pi.get('alternate') == 'yes' or not href
                    or href.startswith('#')):
                continue
            if not self.media_ok(page.media_of(pi.get('media'))):
                continue
            url = urllib.parse.urljoin(base, href)
            yield 'pi', page.sheet(url), url, [url]
        for el in (page.root.walk() if page.root is not None else ()):
            if el.tag in ('link', 'hlink'):
                rel = el.attrs.get('rel', '').split()
                as_ = el.attrs.get('as', '')
                if 'alternate' in rel:
                    continue
                if 'preload' in rel:
                    if as_ != 'style':
                        continue
                elif 'stylesheet' not in rel:
                    continue
                href = el.attrs.get('href', '')
                if not href or href.startswith('#'):
                    continue
                if not self.media_ok(page.media_of(el.attrs.get('media'))):
                    continue
                url = urllib.parse.urljoin(base, href)
                yield el.id, page.sheet(url), url, [url]
            elif el.tag == 'style':
                if el.attrs.get('type', 'text/css') != 'text/css':
                    continue
                if el.css is None or not css(el.css):
                    continue
                if not self.media_ok(page.media_of(el.attrs.get('media'))):
                    continue
                yield el.id, el.css, base, []

    def rules(self):
        out = []
        for _, items, base, stack in self.sources():
            self.expand(items, base, stack, out)
        return out

    def own(self, el, rules):
        """Declarations that hold for one element before inheritance."""
        style, important = {}, {}
        for sel, decls in rules:
            if match(sel, el):
                for p, v, imp in decls:
                    style[p] = v
                    if imp:
                        important[p] = v
        for p in PROPS:
            if p in el.attrs:
                style[p] = el.attrs[p]
        inline = parse_style(el.attrs.get('style', ''))
        for p, v, imp in inline:
            style[p] = v
        style.update(important)
        for p, v, imp in inline:
            if imp:
                style[p] = v
        return style

    def style(self, el, rules=None):
        rules = self.rules() if rules is None else rules
        out = {}
        cur = el
        while cur is not None:
            own = self.own(cur, rules)
            for p in PROPS:
                if p not in out and own.get(p, 'inherit') != 'inherit':
                    out[p] = own[p]
            cur = cur.parent
        for p in PROPS:
            out.setdefault(p, DEFAULTS[p])
        return out

    def structure(self):
        """Shape of the style sheet list."""
        def shape(items, base, stack):
            out = []
            for it in items:
                if it[0] in ('rule', 'ns', 'fontface'):
                    out.append(it[0])
                elif it[0] == 'media':
                    out.append(['media', shape(it[2], base, stack)])
                elif it[0] == 'import':
                    url = urllib.parse.urljoin(base, it[1])
                    sub = [] if url in stack else shape(
                        self.page.sheet(url), url, stack + [url])
                    out.append(['import', url, sub])
            return out
        return [[who, shape(items, base, stack)]
                for who, items, base, stack in self.sources()]


class Page:
    """Model of one document shown in one window, and of the server."""

    def __init__(self, scenario):
        self.specs = {u: s for u, s in scenario['site'].items()}
        self.faults = {}
        self.url = 'about:blank'
        self.pis = []
        self.root = None
        self._env = mq.default_env()
        self.queries = scenario.get('queries', {})
        self.oracle = Oracle(self)

    def env(self):
        env = dict(self._env)
        if self.root is None:
            env['has_root'] = False
        else:
            env['root'] = [self.root.attrs.get('width'),
                           self.root.attrs.get('height')]
        return env

    def media_of(self, text):
        """Media attribute values are keys of scenario['queries']."""
        if text is None:
            return None
        return self.queries.get(text, text)

    def sheet(self, url):
        f = self.faults.get(url)
        if f is not None and (f['kind'] in net.HARD_FAULTS
                              or f['kind'] in ('empty', 'slow_timeout')):
            return []
        spec = self.specs.get(url)
        if spec is None or spec['kind'] != 'css':
            return []
        return spec['items']

    def load(self, url, spec):
        self.url = url
        self.pis = [dict(p) for p in spec.get('pis', ())]
        self.root = El(spec['root'])

    def find(self, eid):
        if self.root is not None:
            for el in self.root.walk():
                if el.id == eid:
                    return el
        return None


def dump(node, out):
    if isinstance(node.tag, str):
        out.append(repr((node.tag, sorted(node.attrib.items()),
                         sorted(node.nsmap.items(), key=repr),
                         node.text or '')))
        for kid in node.iterchildren():
            dump(kid, out)
            out.append('tail ' + repr(kid.tail or ''))
        out.append('end')
    else:
        out.append('{} {!r} {!r}'.format('pi' if hasattr(node, 'target') else 'comment',
                                         getattr(node, 'target', None),
                                         node.text))


def c14n(node):
    """Canonical text of the whole document a root element belongs to."""
    if node is None:
        return None
    nodes = [node]
    cur = node.getprevious()
    while cur is not None:
        nodes.insert(0, cur)
        cur = cur.getprevious()
    cur = node.getnext()
    while cur is not None:
        nodes.append(cur)
        cur = cur.getnext()
    out = []
    for n in nodes:
        dump(n, out)
    return '\n'.join(out)


def sut_structure(sheets, page):
    """The same shape read from the library."""
    from svgpy.css import CSSRule

    def shape(rules):
        out = []
        for r in rules:
            if r.type == CSSRule.STYLE_RULE:
                out.append('rule')
            elif r.type == CSSRule.NAMESPACE_RULE:
                out.append('ns')
            elif r.type == CSSRule.FONT_FACE_RULE:
                out.append('fontface')
            elif r.type == CSSRule.MEDIA_RULE:
                out.append(['media', shape(r.css_rules)])
            elif r.type == CSSRule.IMPORT_RULE:
                out.append(['import', r.href,
                            shape(r.style_sheet.css_rules)])
            else:
                out.append(str(r.type))
        return out
    out = []
    for sheet in sheets[1:]:          # the first is the user agent's
        node = sheet.owner_node
        who = 'pi' if not isinstance(node.tag, str) else node.get('id')
        out.append([who, shape(sheet.css_rules)])
    return out


class Browser:
    """Runs operations against the library and the model."""

    def __init__(self, scenario, ctx):
        from svgpy.window import SVGDOMImplementation, Window
        self.ctx = ctx
        self.page = Page(scenario)
        self.server = net.Server(ctx, chunk=scenario.get('chunk', 7))
        self.server.limit = 20000
        self.server.install()
        for url, spec in self.page.specs.items():
            self.put(url, spec)
        self.win = Window(SVGDOMImplementation())
        self.doc = self.win.document
        # the window starts with an empty svg element
        self.page.root = None
        self.blank = True

    # -- server side -------------------------------------------------------
    def put(self, url, spec):
        data, ctype = body(spec)
        self.server.routes[url] = {'body': data, 'ctype': ctype}

    def sync_faults(self):
        self.server.faults = [dict(f, url=u)
                              for u, f in self.page.faults.items()]

    # -- document side -----------------------------------------------------
    def sut(self, eid):
        root = self.doc.document_element
        for el in root.iter():
            if isinstance(el.tag, str) and el.get('id') == eid:
                return el
        return None

    def step(self, op):
        """Applies op to both sides; False when it does not apply."""
        name = op[0]
        page = self.page
        if name == 'put':
            page.specs[op[1]] = op[2]
            self.put(op[1], op[2])
        elif name == 'rm':
            if op[1] not in page.specs:
                return False
            del page.specs[op[1]]
            del self.server.routes[op[1]]
        elif name == 'fault':
            page.faults[op[1]] = op[2]
            self.sync_faults()
        elif name == 'heal':
            if op[1] is None:
                page.faults.clear()
            else:
                page.faults.pop(op[1], None)
            self.sync_faults()
        elif name == 'env':
            mq.apply_env(page._env, op)
            mq.apply_window(self.win, op)
        elif name == 'gc':
            import gc
            gc.collect()
            self.ctx.count('fault.gc')
        elif name == 'attr':
            el = page.find(op[1])
            if el is None:
                return False
            sut = self.sut(op[1])
            if op[3] is None:
                el.attrs.pop(op[2], None)
                if sut.get(op[2]) is not None:
                    sut.remove_attribute(op[2])
            else:
                el.attrs[op[2]] = op[3]
                how = op[4] if len(op) > 4 else 'set'
                if how == 'set':
                    sut.set(op[2], op[3])
                elif how == 'attrib':
                    sut.attrib[op[2]] = op[3]
                else:
                    sut.set_attribute(op[2], op[3])
        elif name == 'text':
            el = page.find(op[1])
            if el is None or el.tag != 'style':
                return False
            el.css = op[2]
            self.sut(op[1]).text = css(op[2])
        elif name == 'new':
            parent = page.find(op[2])
            if parent is None or page.find(op[1]['id']) is not None \
                    or parent.tag in ('link', 'hlink', 'style'):
                return False
            el = El(op[1], parent)
            pos = min(op[3], len(parent.kids))
            parent.kids.insert(pos, el)
            self.sut(op[2]).insert(pos, build_sut(self.doc, op[1]))
        elif name == 'move':
            el, parent = page.find(op[1]), page.find(op[2])
            if el is None or parent is None or el.parent is None \
                    or parent in el.walk() \
                    or parent.tag in ('link', 'hlink', 'style'):
                return False
            sut, sparent = self.sut(op[1]), self.sut(op[2])
            el.parent.kids.remove(el)
            pos = min(op[3], len(parent.kids))
            ref = parent.kids[pos].id if pos < len(parent.kids) else None
            sref = self.sut(ref) if ref else None
            parent.kids.insert(pos, el)
            el.parent = parent
            sparent.insert_before(sut, sref)
        elif name == 'del':
            el = page.find(op[1])
            if el is None or el.parent is None:
                return False
            self.sut(op[1]).remove()
            el.parent.kids.remove(el)
            el.parent = None
        elif name == 'pi+':
            if page.root is None:
                return False
            page.pis.append(dict(op[1]))
            pi = self.doc.create_processing_instruction(
                'xml-stylesheet', ' '.join('{}="{}"'.format(k, esc(v))
                                           for k, v in op[1].items()))
            self.doc.insert_before(pi, self.doc.document_element)
        elif name == 'pi-':
            if op[1] >= len(page.pis):
                return False
            pis = [n for n in self.doc.child_nodes
                   if not isinstance(n.tag, str)
                   and getattr(n, 'target', '') == 'xml-stylesheet']
            del page.pis[op[1]]
            self.doc.remove(pis[op[1]])
        elif name == 'pi=':
            if op[1] >= len(page.pis):
                return False
            pis = [n for n in self.doc.child_nodes
                   if not isinstance(n.tag, str)
                   and getattr(n, 'target', '') == 'xml-stylesheet']
            page.pis[op[1]] = dict(op[2])
            pis[op[1]].text = ' '.join('{}="{}"'.format(k, esc(v))
                                       for k, v in op[2].items())
        else:
            raise ValueError(name)
        return True

    # -- navigation --------------------------------------------------------
    def snapshot(self):
        doc = self.doc
        root = doc.document_element
        nodes = []
        if root is not None:
            nodes = list(doc.child_nodes) + list(root.iter())
        return {'tree': c14n(root), 'root': root,
                'href': doc.location.href, 'whref': self.win.location.href,
                'uri': doc.document_uri,
                'same': self.win.document is doc,
                'owners': [(n, n.owner_document) for n in nodes]}

    def applies(self, how):
        """Components are set only where the URL has that component."""
        if how in ('host', 'hostname', 'port', 'protocol', 'search'):
            return self.page.url.startswith('http')
        if how in ('pathname', 'hash'):
            return not self.page.url.startswith('about:')
        return True

    @staticmethod
    def target(how, value, cur):
        """The URL a navigation asks for (independent of the library)."""
        if how in ('win', 'doc'):
            return urllib.parse.urljoin(
                cur if not cur.startswith('about:') else 'file:///', value)
        if how in ('href', 'assign'):
            return value
        if how == 'reload':
            return cur
        scheme, netloc, path, query, frag = urllib.parse.urlsplit(cur)
        if how == 'pathname':
            path = value
        elif how == 'search':
            query = value.lstrip('?')
        elif how == 'hash':
            frag = value.lstrip('#')
        elif how == 'hostname':
            port = netloc.partition(':')[2]
            netloc = value + (':' + port if port else '')
        elif how == 'host':
            netloc = value
        elif how == 'port':
            netloc = netloc.partition(':')[0] + ':' + value
        elif how == 'protocol':
            scheme = value.rstrip(':')
        return urllib.parse.urlunsplit((scheme, netloc, path, query, frag))

    def navigate(self, how, value):
        """Performs the navigation; returns the exception or None."""
        loc = self.doc.location
        try:
            if how == 'win':
                self.win.location = value
            elif how == 'doc':
                self.doc.location = value
            elif how == 'assign':
                loc.assign(value)
            elif how == 'reload':
                loc.reload()
            else:
                setattr(loc, how, value)
        except (Exception, KeyboardInterrupt) as exc:
            if isinstance(exc, Violation):
                raise
            # keeps no frames (and so no nodes) alive
            exc.__traceback__ = None
            return exc
        return None

    def visit(self, how, value):
        """Navigates on both sides and checks the result (N01)."""
        ctx = self.ctx
        page = self.page
        before = self.snapshot()
        want = self.target(how, value, page.url)
        bare = want.partition('#')[0]
        spec = page.specs.get(bare)
        fault = page.faults.get(bare)
        exc = self.navigate(how, value)
        after = self.snapshot()
        ctx.event('nav', how, value, want,
                  type(exc).__name__ if exc else 'ok')
        if exc is not None:
            ctx.count('nav.raised')
            for key in ('tree', 'href', 'whref', 'uri'):
                ctx.equal(after[key], before[key], 'nav:changed-' + key,
                          '{} {} raised {!r}'.format(how, value, exc))
            ctx.check(after['root'] is before['root'], 'nav:changed-root',
                      'another document element')
            ctx.check(all(o is n.owner_document
                          for n, o in before['owners']),
                      'nav:changed-owner', 'owner_document of a node')
            if fault is None and spec is not None and spec['kind'] == 'svg':
                raise Violation('nav:refused', '{} {} raised {!r}'.format(
                    how, value, exc))
            return exc
        ctx.count('nav.ok')
        ctx.check(after['same'], 'nav:document', 'window shows another '
                  'document object')
        if want.startswith('about:'):
            ctx.check(after['root'] is None, 'nav:blank', 'about: has a root')
            page.url = want
            page.root = None
            page.pis = []
            ctx.equal(after['href'], want, 'nav:location', want)
            return None
        for key in ('href', 'whref', 'uri'):
            ctx.equal(after[key], want, 'nav:location',
                      '{} after {} {}'.format(key, how, value))
        data = None
        if bare in self.server.routes:
            data = self.server.routes[bare]['body']
        if fault is not None and fault['kind'] in net.HARD_FAULTS \
                + ('empty', 'kbint', 'memerr'):
            raise Violation('nav:fault-ignored',
                            '{} succeeded although {} on {}'.format(
                                how, fault['kind'], bare))
        ctx.check(data is not None, 'nav:from-nowhere', want)
        if fault is not None and fault['kind'] in net.BODY_FAULTS:
            data = net.damage(data, fault)
        self.check_tree(data, spec, fault, want)
        doc = self.doc
        root = doc.document_element
        for n in list(doc.child_nodes) + list(root.iter()):
            ctx.check(n.owner_document is doc, 'nav:owner',
                      lambda: 'owner of {!r} is {!r}'.format(
                          n, n.owner_document))
        if spec is not None and spec['kind'] == 'svg' and fault is None:
            page.load(want, spec)
            self.blank = False
        else:
            page.url = want
            page.root = None     # a damaged page: not modelled further
            page.pis = []
        return None

    def check_tree(self, data, spec, fault, want):
        """The tree shown is exactly the one served."""
        got = c14n(self.doc.document_element)
        enc = (spec or {}).get('enc', 'utf-8')
        try:
            text = data.decode(enc)
            if text.startswith('\ufeff'):
                text = text[1:]
            if text.startswith('<?xml '):
                text = text[text.index('?>') + 2:]
            ref = etree.fromstring(text)
        except (ValueError, etree.XMLSyntaxError) as exc:
            if fault is not None:
                # how a damaged encoding declaration or byte is read is
                # not determined by the text alone
                try:
                    ref = etree.fromstring(data)
                except (ValueError, etree.XMLSyntaxError):
                    raise Violation('nav:malformed-accepted',
                                    '{}: {}'.format(want, exc))
            else:
                raise
        exp = c14n(ref)
        if got != exp and fault is not None:
            try:
                exp = c14n(etree.fromstring(data))
            except (ValueError, etree.XMLSyntaxError):
                pass
        self.ctx.equal(got, exp, 'nav:tree', want)
