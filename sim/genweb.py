"""Generator of simulated webs and histories over them."""
import posixpath
import urllib.parse

from . import media as mq
from . import net
from .web import PROPS

HOSTS = ['http://a.example', 'http://a.example:8080', 'https://b.example',
         'file:///sim']
DIRS = ['/', '/d/', '/d/e/', '/x/']
CLASSES = ['c1', 'c2', 'c3']
TAGS = ['g', 'rect', 'text', 'path']


class WebGen:
    def __init__(self, rng, ndocs=None, nsheets=None, imports=True,
                 media=True):
        self.rng = rng
        self.nid = 0
        self.nval = 0
        self.queries = {}
        self.media = media
        self.imports = imports
        hosts = rng.sample(HOSTS, rng.choice([1, 2, 2]))
        self.sheet_urls = self.urls(hosts, nsheets if nsheets is not None
                                    else rng.choice([1, 2, 3, 4]), 'css')
        self.doc_urls = self.urls(hosts, ndocs or rng.choice([1, 2]), 'svg')
        self.hosts = hosts
        self.ids = {}
        self.site = {}
        self.dead = []        # sheet URLs that are referenced but missing
        for u in self.sheet_urls:
            if rng.random() < 0.08:
                self.dead.append(u)
                continue
            self.site[u] = self.sheet(u)
        for u in self.doc_urls:
            self.ids[u] = []
            self.site[u] = self.document(u)

    def urls(self, hosts, n, ext):
        rng = self.rng
        out = []
        while len(out) < n:
            u = rng.choice(hosts) + rng.choice(DIRS) + '{}{}.{}'.format(
                ext[0], rng.randrange(9), ext)
            if rng.random() < 0.15 and not u.startswith('file:'):
                u += '?v={}'.format(rng.randrange(3))
            if u not in out:
                out.append(u)
        return out

    def id(self):
        self.nid += 1
        return 'n{}'.format(self.nid)

    def value(self):
        self.nval += 1
        return 'v{}'.format(self.nval)

    def href(self, base, target):
        rng = self.rng
        b, t = urllib.parse.urlsplit(base), urllib.parse.urlsplit(target)
        q = '?' + t.query if t.query else ''
        cands = [target]
        if (b.scheme, b.netloc) == (t.scheme, t.netloc):
            rel = posixpath.relpath(t.path, posixpath.dirname(b.path))
            cands += [t.path + q, rel + q, rel + q, './' + rel + q, rel + q]
        h = rng.choice(cands)
        if urllib.parse.urljoin(base, h) != target:
            return target
        return h

    def query(self, p=0.3):
        if not self.media or self.rng.random() > p:
            return None
        q = mq.gen(self.rng, simple=True)
        self.queries[mq.text(q)] = q
        return q

    # -- sheets ------------------------------------------------------------
    def compound(self):
        rng = self.rng
        c = {}
        if rng.random() < 0.35:
            c['tag'] = rng.choice(TAGS + ['svg'])
        if rng.random() < 0.45:
            c['cls'] = [rng.choice(CLASSES)]
            if rng.random() < 0.15:
                c['cls'].append(rng.choice(CLASSES))
        if rng.random() < 0.12 and self.nid:
            c['id'] = 'n{}'.format(rng.randint(1, self.nid + 3))
        if rng.random() < 0.08:
            c['attr'] = ['data-k', rng.choice(['1', '2'])]
        if rng.random() < 0.08:
            c['not'] = rng.choice(CLASSES)
        if rng.random() < 0.08:
            c['pos'] = rng.choice(['first-child', 'last-child', 'root'])
        return c

    def selector(self):
        rng = self.rng
        sel = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            alt = [['', self.compound()]]
            while rng.random() < 0.25 and len(alt) < 3:
                alt.append([rng.choice([' ', ' ', '>', '~']),
                            self.compound()])
            sel.append(alt)
        return sel

    def decls(self, n=None, inline=False):
        rng = self.rng
        out = []
        for p in rng.sample(PROPS, n or rng.choice([1, 1, 2, 3])):
            v = 'inherit' if rng.random() < 0.08 else self.value()
            out.append([p, v, rng.random() < 0.15])
        return out

    def items(self, base, n=None, imports=True, depth=0):
        rng = self.rng
        out = []
        if imports and self.imports and self.sheet_urls:
            while rng.random() < 0.4 and len(out) < 2:
                out.append(['import',
                            self.href(base, rng.choice(self.sheet_urls)),
                            rng.choice(['url', 'str', 'urlq']),
                            self.query()])
        if rng.random() < 0.1 and depth == 0:
            out.append(['ns', rng.choice(['', 'svg']),
                        'http://www.w3.org/2000/svg'])
        for _ in range(n or rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.15 and depth < 2 and self.media:
                q = self.query(1)
                out.append(['media', q, self.items(base, None, False,
                                                   depth + 1)])
            elif r < 0.2:
                out.append(['comment', 'note'])
            elif r < 0.24 and depth == 0:
                out.append(['fontface'])
            else:
                out.append(['rule', self.selector(), self.decls()])
        return out

    def sheet(self, url):
        return {'kind': 'css', 'items': self.items(url),
                'ctype': self.rng.choice(['text/css', None,
                                          'text/css; charset=utf-8'])}

    # -- documents ---------------------------------------------------------
    def attrs(self):
        rng = self.rng
        a = {}
        if rng.random() < 0.6:
            a['class'] = ' '.join(rng.sample(CLASSES, rng.choice([1, 1, 2])))
        if rng.random() < 0.25:
            a[rng.choice(PROPS)] = self.value()
        if rng.random() < 0.15:
            a[rng.choice(PROPS)] = 'inherit'
        if rng.random() < 0.25:
            a['style'] = self.inline()
        if rng.random() < 0.1:
            a['data-k'] = rng.choice(['1', '2'])
        return a

    def inline(self):
        return '; '.join('{}: {}{}'.format(
            p, v, ' !important' if i else '') for p, v, i in self.decls())

    def element(self, doc, depth):
        rng = self.rng
        el = {'id': self.id(), 'tag': rng.choice(TAGS), 'attrs': self.attrs(),
              'kids': []}
        self.ids[doc].append(el['id'])
        if depth > 0:
            el['kids'] = [self.element(doc, depth - 1)
                          for _ in range(rng.choice([0, 1, 2]))]
        return el

    def media_attr(self, a, p=0.3):
        q = self.query(p)
        if q is not None:
            a['media'] = mq.text(q)
        elif self.rng.random() < 0.15:
            a['media'] = 'all'

    def link(self, doc):
        rng = self.rng
        a = {'rel': rng.choice(['stylesheet'] * 6 + [
            'alternate stylesheet', 'icon', 'preload', 'stylesheet other'])}
        if a['rel'] == 'preload':
            a['as'] = rng.choice(['style', 'image'])
        if rng.random() < 0.93 and self.sheet_urls:
            a['href'] = self.href(doc, rng.choice(self.sheet_urls))
        else:
            a['href'] = rng.choice(['#frag', ''])
        self.media_attr(a)
        el = {'id': self.id(), 'tag': rng.choice(['link', 'hlink']),
              'attrs': a, 'kids': []}
        self.ids[doc].append(el['id'])
        return el

    def style(self, doc):
        rng = self.rng
        a = {}
        if rng.random() < 0.3:
            a['type'] = rng.choice(['text/css', 'text/css', 'text/plain'])
        self.media_attr(a)
        el = {'id': self.id(), 'tag': 'style', 'attrs': a, 'kids': [],
              'css': self.items(doc)}
        self.ids[doc].append(el['id'])
        return el

    def pi(self, doc):
        rng = self.rng
        a = {'href': self.href(doc, rng.choice(self.sheet_urls))
             if self.sheet_urls else 'none.css', 'type': 'text/css'}
        if rng.random() < 0.1:
            a['alternate'] = rng.choice(['yes', 'no'])
        self.media_attr(a)
        return a

    def document(self, url):
        rng = self.rng
        root = {'id': self.id(), 'tag': 'svg', 'attrs': {}, 'kids': []}
        self.ids[url].append(root['id'])
        if rng.random() < 0.4:
            root['attrs']['width'] = str(rng.choice([100, 320, 640, 1000]))
            root['attrs']['height'] = str(rng.choice([100, 200, 720]))
        root['attrs'].update(self.attrs())
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.45:
                root['kids'].append(self.style(url))
            else:
                root['kids'].append(self.link(url))
        root['kids'] += [self.element(url, 2)
                         for _ in range(rng.choice([1, 2, 3]))]
        rng.shuffle(root['kids'])
        spec = {'kind': 'svg', 'root': root, 'pis': []}
        while rng.random() < 0.35 and len(spec['pis']) < 2:
            spec['pis'].append(self.pi(url))
        if rng.random() < 0.3:
            spec['comment'] = 'c'
        self.encoding(spec, url)
        return spec

    def encoding(self, spec, url):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            spec['ctype'] = rng.choice(['image/svg+xml', None])
        elif r < 0.6:
            spec['ctype'] = 'image/svg+xml; charset=utf-8'
            spec['decl'] = 'UTF-8'
        elif r < 0.7:
            spec['decl'] = 'utf-8'
        elif r < 0.8:
            spec.update(decl='iso-8859-1', enc='iso-8859-1')
            spec['comment'] = 'caf\xe9'
        elif r < 0.87 and not url.startswith('file:'):
            spec.update(enc='iso-8859-1', ctype='image/svg+xml;charset='
                        '"ISO-8859-1"')
            spec['comment'] = 'caf\xe9'
        elif r < 0.93:
            spec['bom'] = True
        else:
            spec.update(decl='UTF-16', enc='utf-16')

    # -- navigation --------------------------------------------------------
    def nav(self, cur, target=None):
        """A navigation from cur that asks for one of the documents."""
        rng = self.rng
        t = target or rng.choice(self.doc_urls)
        forms = ['win', 'doc', 'href', 'assign']
        b, s = urllib.parse.urlsplit(cur), urllib.parse.urlsplit(t)
        if cur.startswith('about:'):
            how = rng.choice(forms)
            return ['nav', how, t], t
        cands = [(how, None) for how in forms]
        if b[:2] == s[:2] and b.query == s.query:
            cands += [('pathname', s.path)] * 3
        if b[:3] == s[:3]:
            cands += [('search', '?' + s.query)] * 2
        if (b.scheme, b.path, b.query) == (s.scheme, s.path, s.query) \
                and s.netloc and b.netloc:
            cands += [('host', s.netloc)] * 2
        if cur.partition('#')[0] == t:
            cands += [('hash', '#f{}'.format(rng.randrange(3)))] * 2
            cands += [('reload', None)] * 3
        how, v = rng.choice(cands)
        if how in ('win', 'doc'):
            v = self.href(cur, t)
        elif how in ('href', 'assign'):
            v = t
            if rng.random() < 0.1:
                v += '#f'
        return ['nav', how, v], t

    def bad_nav(self, cur):
        """A navigation that asks for something not there, or invalid."""
        rng = self.rng
        host = rng.choice(self.hosts)
        forms = [['nav', 'href', host + '/missing.svg'],
                 ['nav', 'win', host + '/d/gone.svg'],
                 ['nav', 'doc', 'nothing-here.svg'],
                 ['nav', 'href', 'about:blank'],
                 ['nav', 'assign', 'data:image/svg+xml,<svg/>'],
                 ['nav', 'href', 'file:'],
                 ['nav', 'href', 'blob:x'],
                 ['nav', 'href', ''],
                 ['nav', 'href', 'relative/only.svg'],
                 ['nav', 'href', rng.choice(self.sheet_urls)
                  if self.sheet_urls else host + '/z.css']]
        if not cur.startswith('about:'):
            forms += [['nav', 'search', '?zz=1'],
                      ['nav', 'pathname', '/other/place.svg'],
                      ['nav', 'doc', '../up.svg'],
                      ['nav', 'port', '9999'],
                      ['nav', 'hostname', 'nowhere.example'],
                      ['nav', 'protocol', 'https:'],
                      ['nav', 'protocol', 'data:'],
                      ['nav', 'port', '99999999'],
                      ['nav', 'port', 'x'],
                      ['nav', 'hash', '']]
            if cur.startswith('file:'):
                forms = [f for f in forms if f[1] not in
                         ('port', 'hostname', 'protocol', 'search')]
        return rng.choice(forms)

    def fault(self, url, kinds=None):
        rng = self.rng
        kind = rng.choice(kinds or net.HARD_FAULTS)
        f = {'kind': kind, 'at': round(rng.random(), 3)}
        if kind == 'corrupt':
            f['flip'] = 1 << rng.randrange(8)
        if kind == 'slow':
            f['delay'] = rng.choice([0.5, 3, 30])
        return ['fault', url, f]

    # -- edits -------------------------------------------------------------
    def edit(self, doc):
        rng = self.rng
        ids = self.ids[doc]
        kind = rng.choice(['class', 'class', 'prop', 'prop', 'style', 'style',
                           'text', 'new', 'newsheet', 'move', 'move', 'del',
                           'pi', 'linkattr', 'size', 'styleattr'])
        eid = rng.choice(ids)
        how = rng.choice(['set', 'attrib', 'set_attribute'])
        if kind == 'class':
            return ['attr', eid, 'class', rng.choice([
                None, 'c1', 'c2', 'c3', 'c1 c3', '']), how]
        if kind == 'prop':
            return ['attr', eid, rng.choice(PROPS), rng.choice(
                [None, 'inherit', self.value(), self.value()]), how]
        if kind == 'style':
            return ['attr', eid, 'style', rng.choice(
                [None, self.inline(), self.inline()]), how]
        if kind == 'size':
            return ['attr', ids[0], rng.choice(['width', 'height']),
                    rng.choice([None, '100', '400', '800', '1000']), how]
        styles = self.by_tag(doc, 'style')
        links = self.by_tag(doc, 'link') + self.by_tag(doc, 'hlink')
        if kind == 'text' and styles:
            return ['text', rng.choice(styles), self.items(doc)]
        if kind == 'styleattr' and styles:
            a = {}
            self.media_attr(a, 0.7)
            name, v = rng.choice([('media', a.get('media')),
                                  ('type', rng.choice([None, 'text/css',
                                                       'text/plain']))])
            return ['attr', rng.choice(styles), name, v, how]
        if kind == 'linkattr' and links:
            a = self.link(doc)['attrs']
            self.ids[doc].pop()
            name = rng.choice(['href', 'rel', 'media'])
            return ['attr', rng.choice(links), name, a.get(name), how]
        if kind == 'newsheet':
            spec = rng.choice([self.style, self.link])(doc)
            self.tags.setdefault(doc, {})[spec['id']] = spec['tag']
            return ['new', spec, rng.choice(ids), rng.randrange(4)]
        if kind == 'move':
            return ['move', eid, rng.choice(ids), rng.randrange(4)]
        if kind == 'del':
            return ['del', eid]
        if kind == 'pi':
            return rng.choice([['pi+', self.pi(doc)], ['pi-', 0],
                               ['pi=', 0, self.pi(doc)]])
        return ['new', self.element(doc, 1), rng.choice(ids),
                rng.randrange(4)]

    tags = {}

    def by_tag(self, doc, tag):
        out = []

        def walk(el):
            if el['tag'] == tag:
                out.append(el['id'])
            for k in el['kids']:
                walk(k)
        walk(self.site[doc]['root'])
        out += [i for i, t in self.tags.get(doc, {}).items() if t == tag]
        return out
