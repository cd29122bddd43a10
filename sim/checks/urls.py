"""U01 URL objects."""
import urllib.parse

from ..engine import Check

COMPONENTS = ['protocol', 'username', 'password', 'host', 'hostname', 'port',
              'pathname', 'search', 'hash']
DEFAULT = {'http:': '80', 'https:': '443', 'ftp:': '21', 'ws:': '80',
           'wss:': '443'}
STARTS = ['http://h/', 'http://u:p@h:81/p/q?k=1#f', 'https://h.example/a/b',
          'http://[::1]/x', 'http://[::1]:8080/x?y=z', 'ftp://h:2121/d/',
          'ws://h', 'x-y://h/p', 'x-y://u@h:5/p?a=b', 'http://u@h/?t=a=b==']
FILES = ['file:///a/b', 'file:///a', 'file:///a/b?x=1#y']
# what is written, and what must be read (None: whatever it is, if accepted)
VALUES = {
    'protocol': [('http', 'http:'), ('https:', 'https:'), ('ftp', 'ftp:'),
                 ('ws:', 'ws:'), ('x-y', 'x-y:'), ('HTTP', 'http:'),
                 ('1a', None), ('a b', None), (':', None), ('a:b', None),
                 ('\xe9\n', None)],
    'username': [('', ''), ('u1', 'u1'), ('a b', 'a%20b'), ('a@b', 'a%40b'),
                 ('a%20b', 'a%20b'), ('u:v', 'u%3Av'), ('\xe9', '%C3%A9'),
                 ('a/b', 'a%2Fb')],
    'password': [('', ''), ('p1', 'p1'), ('p:q', 'p%3Aq'), ('p@', 'p%40'),
                 ('#?', '%23%3F'), ('\xe9', '%C3%A9'), ('%2F', '%2F')],
    'host': [('h2', ['h2', 'h2', '']), ('h3:81', ['h3:81', 'h3', '81']),
             ('H4', ['h4', 'h4', '']), ('[::2]:9', ['[::2]:9', '[::2]', '9']),
             ('[::2]', ['[::2]', '[::2]', '']), ('::3', ['[::3]', '[::3]',
                                                         '']),
             ('1.2.3.4:5', ['1.2.3.4:5', '1.2.3.4', '5']), ('', ['', '', '']),
             ('\xe9.x', ['xn--9ca.x', 'xn--9ca.x', '']), ('a b', None),
             ('h:x', None), ('h:99999', None), ('h/', None), ('[::1', None),
             ('a' * 64, None), ('.', None), ('..', None), ('h:-1', None),
             ('h5:', ['h5', 'h5', '']), ('h:081', ['h:81', 'h', '81'])],
    'hostname': [('h5', 'h5'), ('H6', 'h6'), ('[::4]', '[::4]'),
                 ('a?b', None), ('h:x', None), ('h:99999', None),
                 ('a' * 64, None), ('\xe9.y', 'xn--9ca.y'), ('h:82', None)],
    'port': [('', ''), ('81', '81'), ('8080', '8080'), ('0082', '82'),
             ('x', None), ('99999', None), ('-1', None), ('8 ', None),
             ('+9', None)],
    'pathname': [('', '/'), ('/', '/'), ('a', '/a'), ('/a/b', '/a/b'),
                 ('/a b', '/a%20b'), ('/a/../b', '/b'), ('/\xe9', '/%C3%A9'),
                 ('/a?b', '/a%3Fb'), ('/a#b', '/a%23b'), ('/a/', '/a/'),
                 ('..', '/'), ('/a/./b', '/a/b'), ('a\\b', None),
                 ('/%25', '/%25'), ('/x:y@z;p=1&q', '/x:y@z;p=1&q'),
                 ('../../z', '/z')],
    'hash': [('', ''), ('#', ''), ('#a', '#a'), ('b', '#b'),
             ('#a b', '#a%20b'), ('#\xe9', '#%C3%A9'), ('#a?b', '#a?b'),
             ('#x/y', '#x/y'), ('#<>"', '#%3C%3E%22'), ('a#b', '#a#b')],
    'search': [('', {}), ('?', {}), ('?a=b', {'a': 'b'}),
               ('a=b&c=d', {'a': 'b', 'c': 'd'}), ('?q', {'q': ''}),
               ('?a=b=c', {'a': 'b=c'}), ('?a+b=c+d', {'a b': 'c d'}),
               ('?t=QUJD==', {'t': 'QUJD=='}), ('?z=1&a=2', {'z': '1',
                                                            'a': '2'}),
               ('?a=%26', {'a': '%26'}), ('?\xe9=\xe9', {'\xe9': '\xe9'}),
               ('?a=x?y', {'a': 'x?y'}), ('?u=http://h/p', {
                   'u': 'http://h/p'}), ('?=b', {'': 'b'})],
}
BADHREF = ['', 'x', '/a', 'http://h:99999/', 'http://h:x/', 'http://[::1/',
           'about:', 'http:///\x00', 'http://a b/', '?q', '#f', 'data:',
           'http://' + 'a' * 64 + '/', '1a://h/', 'http://u@/']
KEYS = ['a', 'k', 'a b', 'a&b', '\xe9', 'a=b', '?a', 'x+y', '#', 'z']
PARAMS = ['1', '', 'x y', 'x&y', 'a=b', '1+1', '#', '\xe9', 'x?y', "it's",
          '&#1234;', '<>"', 'http://h/?q=1#f']
REFS = ['x', '../x', './x', 'x/y/', '/abs', '/abs?n=1', '/abs#g', 'x?n=1#g',
        '?n=2', '?n=2#g', '#g', '', '//h9/p', '//u@h9:7/p?a=b',
        'http://other/p', 'https://other:8/p?a=b#c', '../../../x', 'a b',
        '\xe9', 'x?t=a=b']


class U01(Check):
    RUNS = {'quick': 8000, 'thorough': 300000}
    RULE = ('random histories of component assignments (valid and not), '
            'query parameter edits through kept parameter objects, href '
            'replacements and derivations on several URLs; every component '
            'of every URL compared after every step with the assignment '
            'history and with a parse of the href; non-trivial: four '
            'accepted assignments')
    REAL = ['svgpy.url', 'urllib.parse']

    # -- generation -------------------------------------------------------------
    def gen(self, rng, index, tier):
        ops = [['new', 'u0', rng.choice(STARTS * 3 + FILES)]]
        names = ['u0']
        for _ in range(rng.choice([3, 6, 12, 25])):
            r = rng.random()
            u = rng.choice(names)
            if r < 0.08 and len(names) < 4:
                name = 'u{}'.format(len(names))
                names.append(name)
                if rng.random() < 0.3:
                    ops.append(['new', name, rng.choice(STARTS + FILES)])
                else:
                    ops.append(['derive', name, u, rng.choice(REFS),
                                rng.choice(['object', 'text'])])
            elif r < 0.14:
                ops.append(['href', u, rng.choice(STARTS), True])
            elif r < 0.2:
                ops.append(['href', u, rng.choice(BADHREF), False])
            elif r < 0.4:
                how = rng.choice(['set', 'set', 'set', 'del', 'clear',
                                  'update', 'pop', 'setdefault'])
                ops.append(['param', u, how, rng.choice(KEYS),
                            rng.choice(PARAMS)])
            else:
                c = rng.choice(COMPONENTS)
                value, want = rng.choice(VALUES[c])
                ops.append(['set', u, c, value, want])
        return {'ops': ops}

    # -- execution --------------------------------------------------------------
    def run(self, scenario, ctx):
        from svgpy.url import URL
        self.URL = URL
        self.urls, self.kept, self.model = {}, {}, {}
        accepted = 0
        for op in scenario['ops']:
            if op[0] in ('new', 'derive'):
                self.create(ctx, op)
            elif op[1] not in self.urls:
                continue
            else:
                accepted += bool(getattr(self, 'op_' + op[0])(ctx, *op[1:]))
            ctx.event(op)
            for name in sorted(self.urls):
                self.verify(ctx, name, op)
        ctx.nontrivial = accepted >= 4

    def read(self, url):
        out = {c: getattr(url, c) for c in COMPONENTS}
        out['params'] = dict(url.search_params)
        return out

    def create(self, ctx, op):
        name = op[1]
        if op[0] == 'new':
            self.urls[name] = self.URL(op[2])
        else:
            base = self.urls.get(op[2])
            if base is None or base.protocol == 'file:' or not base.host:
                return
            joined = urllib.parse.urljoin(
                base.href if base.protocol in DEFAULT else
                'http:' + base.href[len(base.protocol):], op[3])
            if base.protocol not in DEFAULT and 'p://' not in op[3] and \
                    's://' not in op[3]:
                joined = base.protocol + joined[len('http:'):]
            if not op[3]:
                joined = urllib.parse.urldefrag(joined)[0]
            self.urls[name] = url = self.URL(
                op[3], base=base if op[4] == 'object' else base.href)
            want = self.URL(joined).href
            ctx.check(url.href == want, 'derived',
                      lambda: 'URL({!r}, {!r}) is {!r}, expected {!r}'.format(
                          op[3], base.href, url.href, want))
            ctx.count('op.derive')
        self.kept[name] = self.urls[name].search_params
        self.model[name] = self.read(self.urls[name])

    def attempt(self, ctx, what, call):
        try:
            call()
        except Exception as exc:
            ctx.count('fault.rejected')
            ctx.count('rejected.' + what)
            ctx.event(what, type(exc).__name__)
            return False
        ctx.count('op.' + what)
        return True

    def op_set(self, ctx, name, component, value, want):
        url, model = self.urls[name], self.model[name]
        hierarchical = model['protocol'] != 'file:'
        if not hierarchical and component in ('protocol', 'host', 'hostname',
                                              'port', 'username',
                                              'password'):
            return False    # they do not show in the href of a file
        if component == 'hostname' and not model['host']:
            return False
        if component == 'port' and not model['host']:
            return False
        if not self.attempt(ctx, component,
                            lambda: setattr(url, component, value)):
            ctx.check(want is None, 'refused',
                      lambda: '{}: {} = {!r} was refused'.format(
                          name, component, value))
            return False
        now = self.read(url)
        if want is None:
            changed = {'host': ('host', 'hostname', 'port'),
                       'hostname': ('host', 'hostname', 'port'),
                       'port': ('host', 'port')}.get(component, (component,))
            for c in changed:
                model[c] = now[c]
        elif component == 'host':
            model['host'], model['hostname'], model['port'] = want
            if DEFAULT.get(model['protocol']) == model['port']:
                model['host'] = model['hostname']
        elif component == 'hostname':
            model['hostname'] = want
            self.set_host(model)
        elif component == 'port':
            model['port'] = want
            self.set_host(model)
        elif component == 'protocol':
            model['protocol'] = want
            # a port that is the default one goes away with the host's
            if DEFAULT.get(want) == model['port']:
                model['host'] = model['hostname']
            elif now['host'] != model['host']:
                model['host'] = now['host']
        elif component == 'search':
            model['params'] = dict(want)
            model['search'] = now['search']
        else:
            model[component] = want
        return True

    @staticmethod
    def set_host(model):
        model['host'] = model['hostname']
        if model['port'] and DEFAULT.get(model['protocol']) != model['port']:
            model['host'] += ':' + model['port']

    def op_param(self, ctx, name, how, key, value):
        params, model = self.kept[name], self.model[name]
        want = model['params']
        if any(k != key and urllib.parse.unquote(k) == key for k in want):
            return False    # parameters read from a text stay percent-encoded
        if how == 'set':
            params[key] = want[key] = value
        elif how == 'update':
            params.update({key: value, 'k': '2'})
            want.update({key: value, 'k': '2'})
        elif how == 'setdefault':
            params.setdefault(key, value)
            want.setdefault(key, value)
        elif how == 'clear':
            params.clear()
            want.clear()
        elif how == 'pop':
            params.pop(key, None)
            want.pop(key, None)
        elif key in want:
            del params[key]
            del want[key]
        else:
            return False
        model['search'] = self.urls[name].search
        ctx.count('op.param')
        return True

    def op_href(self, ctx, name, value, valid):
        url = self.urls[name]
        if not self.attempt(ctx, 'href', lambda: setattr(url, 'href',
                                                         value)):
            ctx.check(not valid, 'refused', lambda: '{}: href = {!r} was '
                      'refused'.format(name, value))
            return False
        if not valid:
            try:
                fresh = self.URL(value)
            except Exception as exc:
                ctx.check(False, 'href', '{!r} was accepted by href and '
                          'refused as a URL: {!r}'.format(value, exc))
            self.model[name] = self.read(fresh)
            return True
        self.model[name] = self.read(self.URL(value))
        return True

    # -- oracle ----------------------------------------------------------------
    def verify(self, ctx, name, op):
        url, model = self.urls[name], self.model[name]
        now = self.read(url)
        diff = {c: (now[c], model[c]) for c in now if now[c] != model[c]}
        ctx.check(not diff, 'component:' + '+'.join(sorted(diff)),
                  lambda: 'after {}: {} got, expected {}'.format(
                      op, name, diff))
        ctx.check(url.search_params is self.kept[name], 'params-object',
                  lambda: 'after {}: search_params of {} is another object'
                  .format(op, name))
        if now['protocol'] in ('about:', 'data:', 'blob:', ''):
            return
        href = url.href
        # the serialisation of the components
        want = now['protocol'] + '//'
        if now['host'] and now['protocol'] != 'file:':
            if now['username']:
                want += now['username']
                if now['password']:
                    want += ':' + now['password']
                want += '@'
            want += now['host']
        want += now['pathname'] + now['search']
        ctx.equal(url.tostring(exclude_fragment=True), want, 'no-fragment',
                  'after {}: {}'.format(op, name))
        want += now['hash']
        ctx.equal(href, want, 'href', 'after {}: {}'.format(op, name))
        # the query, as anybody else reads it
        got = {}
        if now['search']:
            ctx.equal(now['search'][0], '?', 'search', name)
            for pair in now['search'][1:].split('&'):
                k, _, v = pair.partition('=')
                got[urllib.parse.unquote_plus(k)] = \
                    urllib.parse.unquote_plus(v)
        query = {urllib.parse.unquote(k): urllib.parse.unquote(v)
                 for k, v in now['params'].items()}
        ctx.check(got == query, 'query',
                  lambda: 'after {}: {} has search {!r} and parameters {}'
                  .format(op, name, now['search'], now['params']))
        again = self.URL(href)
        seen = self.visible(again)
        mine = self.visible(url)
        diff = {c: (mine[c], seen[c]) for c in mine if mine[c] != seen[c]}
        ctx.check(not diff, 'parse:' + '+'.join(sorted(diff)),
                  lambda: 'after {}: {} and URL({!r}) differ: {}'.format(
                      op, name, href, diff))
        ctx.state([now[c] for c in COMPONENTS])

    def visible(self, url):
        out = {c: getattr(url, c) for c in COMPONENTS}
        out['href'], out['origin'] = url.href, url.origin
        if out['port'] == DEFAULT.get(out['protocol'], ''):
            out['port'] = ''
        if not out['host'] or out['protocol'] == 'file:':
            for c in ('host', 'hostname', 'port', 'username', 'password'):
                out[c] = ''
        if not out['username']:
            out['password'] = ''
        return out


CHECKS = {'U01': U01}
