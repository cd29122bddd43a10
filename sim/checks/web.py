"""N01-N05: loading documents and style sheets over a faulty transport."""
from .. import media as mq
from .. import net
from ..engine import Check, Violation
from ..genweb import WebGen
from ..web import PROPS, Browser, css_item, sut_structure

STUB = ['network and file loads (urllib.request.urlopen) and their clock']
TRANSPORT = ('all loads go through urllib.request.urlopen; the simulated '
             'responses behave like http.client responses')


class WebCheck(Check):
    STUB = STUB
    ASSUMPTIONS = [TRANSPORT]

    def start(self, scenario, ctx):
        b = Browser(scenario, ctx)
        return b

    def closed(self, b, op):
        b.ctx.check(not b.server.unclosed(), 'leak',
                    lambda: 'open after {}: {}'.format(
                        op, b.server.unclosed()))
        b.ctx.check(not b.server.late, 'read-after-close',
                    lambda: '{}: {}'.format(op, b.server.late))

    def query_all(self, b, ids=None, how='inherited', sig='cascade'):
        page = b.page
        if page.root is None:
            return
        rules = page.oracle.rules()
        els = list(page.root.walk())
        if ids is not None:
            els = [e for e in els if e.id in ids]
        for el in els:
            want = page.oracle.style(el, rules)
            sut = b.sut(el.id)
            style = (sut.get_inherited_style() if how == 'inherited'
                     else sut.get_computed_style())
            got = {p: style.get(p) for p in PROPS}
            b.ctx.count('oracle_evaluations')
            b.ctx.event('style', el.id, sorted(got.items()))
            if got != want:
                diff = {p: (got[p], want[p]) for p in PROPS
                        if got[p] != want[p]}
                raise Violation(sig, '{} of {} ({}) at {}: {{property: (got, '
                                'expected)}} {}'.format(
                                    how, el.id, el.tag, page.url, diff))
            b.ctx.state((page.url, el.id, tuple(sorted(want.items()))))

    def sheets(self, b, sig='sheets'):
        page = b.page
        if page.root is None:
            return
        got = sut_structure(b.doc.style_sheets, page)
        want = page.oracle.structure()
        b.ctx.event('sheets', got)
        b.ctx.equal(got, want, sig, 'style sheets of ' + page.url)

    def simplify(self, sc):
        for u in list(sc['site']):
            if u == sc.get('start'):
                continue
            site = dict(sc['site'])
            del site[u]
            yield dict(sc, site=site)
        for u, spec in sc['site'].items():
            if spec['kind'] == 'css':
                for i in range(len(spec['items'])):
                    yield dict(sc, site=dict(sc['site'], **{u: dict(
                        spec, items=spec['items'][:i]
                        + spec['items'][i + 1:])}))
            elif spec['kind'] == 'svg':
                for key in ('pis', 'comment', 'decl', 'bom'):
                    if spec.get(key):
                        new = dict(spec)
                        new[key] = [] if key == 'pis' else None
                        yield dict(sc, site=dict(sc['site'], **{u: new}))
                for root in shrink_el(spec['root']):
                    yield dict(sc, site=dict(sc['site'], **{u: dict(
                        spec, root=root)}))


def shrink_el(el):
    for i, k in enumerate(el['kids']):
        yield dict(el, kids=el['kids'][:i] + el['kids'][i + 1:])
        for k2 in shrink_el(k):
            yield dict(el, kids=el['kids'][:i] + [k2] + el['kids'][i + 1:])
    for a in el['attrs']:
        attrs = dict(el['attrs'])
        del attrs[a]
        yield dict(el, attrs=attrs)
    if el.get('css'):
        for i in range(len(el['css'])):
            yield dict(el, css=el['css'][:i] + el['css'][i + 1:])


class N01(WebCheck):
    RUNS = {'quick': 14000, 'thorough': 400000}
    RULE = ('random histories of navigations (all forms), edits, sheet and '
            'document replacement, faults and recoveries; non-trivial: at '
            'least one navigation failed on an injected fault and a later '
            'one succeeded')

    def gen(self, rng, index, tier):
        g = WebGen(rng, ndocs=rng.choice([2, 3]), nsheets=rng.choice([0, 1]),
                   media=False)
        ops = []
        cur = 'about:blank'
        faulty = {}
        kinds = net.HARD_FAULTS * 2 + net.BODY_FAULTS * 4 \
            + net.ASYNC_FAULTS * 2 + net.DECODE_FAULTS * 2 + ('slow',)
        for _ in range(rng.choice([6, 12, 20])):
            r = rng.random()
            if r < 0.4:
                op, t = g.nav(cur)
                ops.append(op)
                if t not in faulty:
                    cur = t
            elif r < 0.52:
                ops.append(g.bad_nav(cur))
                if ops[-1][2] == 'about:blank':
                    cur = 'about:blank'
            elif r < 0.72:
                u = rng.choice(g.doc_urls)
                if u in faulty and rng.random() < 0.5:
                    ops.append(['heal', u])
                    faulty.pop(u)
                else:
                    ops.append(g.fault(u, kinds))
                    faulty[u] = True
            elif r < 0.8:
                ops.append(['put', g.doc_urls[-1],
                            g.document(g.doc_urls[-1])])
            elif r < 0.85:
                ops.append(['gc'])
            elif cur in g.ids:
                ops.append(g.edit(cur))
        ops.append(['heal', None])
        op, t = g.nav('about:blank')
        ops.append(op)
        return {'site': g.site, 'ops': ops, 'queries': g.queries,
                'chunk': rng.choice([1, 7, 64, 10000])}

    def run(self, scenario, ctx):
        b = self.start(scenario, ctx)
        failed = False
        for op in scenario['ops']:
            if op[0] == 'nav' and not b.applies(op[1]):
                ctx.count('skipped')
            elif op[0] == 'nav':
                url = b.target(op[1], op[2], b.page.url).partition('#')[0]
                faulted = url in b.page.faults
                exc = b.visit(op[1], op[2])
                if exc is not None and faulted:
                    failed = True
                    ctx.count('probe.nav_failed_on_fault')
                elif exc is None and failed:
                    ctx.nontrivial = True
                ctx.state((b.page.url, b.page.root is None, exc is None))
            elif b.page.root is None and op[0] not in (
                    'fault', 'heal', 'put', 'gc'):
                ctx.count('skipped')
            elif not b.step(op):
                ctx.count('skipped')
            else:
                ctx.count('op.' + op[0])


class StyleHistory(WebCheck):
    """Histories for N02 and N03."""
    faults = False

    def gen(self, rng, index, tier):
        g = WebGen(rng, nsheets=rng.choice([2, 3, 4, 5]) if self.faults
                   else None)
        g.tags = {}
        ops = []
        start = rng.choice(g.doc_urls)
        cur = start
        ops.append(['nav', rng.choice(['win', 'doc', 'href']), start])
        if rng.random() < 0.7:
            ops.append(['query', rng.choice([0, 1, 3])])
        for _ in range(rng.choice([3, 6, 10])):
            r = rng.random()
            if self.faults and r < 0.45:
                if g.sheet_urls:
                    u = rng.choice(g.sheet_urls)
                    if rng.random() < 0.35:
                        ops.append(['heal', rng.choice([u, u, None])])
                    else:
                        ops.append(g.fault(u, net.HARD_FAULTS * 2 + (
                            'empty', 'slow', 'charset_unknown')))
            elif r < 0.7:
                ops.append(g.edit(cur))
            elif r < 0.8 and g.sheet_urls:
                u = rng.choice(g.sheet_urls)
                if rng.random() < 0.8:
                    ops.append(['put', u, g.sheet(u)])
                else:
                    ops.append(['rm', u])
            elif r < 0.88:
                ops.append(mq.gen_env_op(rng, ('inner', 'screen', 'media',
                                               'angle')))
            elif r < 0.93 and len(g.doc_urls) > 1:
                op, t = g.nav(cur)
                ops.append(op)
                cur = t
            else:
                ops.append(['gc'])
            if rng.random() < 0.6:
                ops.append(['query', rng.choice([0, 0, 1, 2, 3])])
        ops.append(['query', 0])
        return {'site': g.site, 'ops': ops, 'queries': g.queries,
                'start': start, 'chunk': rng.choice([1, 7, 64, 10000]),
                'pick': rng.randrange(1 << 30)}

    def run(self, scenario, ctx):
        b = self.start(scenario, ctx)
        asked = changed = False
        hit = 0
        n = 0
        for op in scenario['ops']:
            ctx.event(op[0], str(op[1:3])[:80])
            if op[0] == 'nav' and not b.applies(op[1]):
                ctx.count('skipped')
            elif op[0] == 'nav':
                if b.visit(op[1], op[2]) is None and asked:
                    changed = True
            elif op[0] == 'query':
                if b.page.root is None:
                    ctx.count('skipped')
                    continue
                els = [e.id for e in b.page.root.walk()]
                n += 1
                k = (scenario['pick'] + n * 7919) % len(els)
                ids = [els[k], els[(k * 3 + n) % len(els)], els[-1]]
                before = len(b.server.failed)
                snap = b.snapshot()['tree']
                if op[1] == 3:
                    self.sheets(b)
                else:
                    self.query_all(b, None if op[1] == 0 else ids[:3],
                                   'computed' if op[1] == 2
                                   else 'inherited')
                ctx.equal(b.snapshot()['tree'], snap, 'query:changed-tree',
                          b.page.url)
                self.closed(b, op)
                if len(b.server.failed) > before:
                    hit += 1
                if asked and changed:
                    ctx.count('probe.query_after_change')
                    if not self.faults or hit:
                        ctx.nontrivial = True
                asked = True
                changed = False
            elif b.page.root is None and op[0] not in (
                    'fault', 'heal', 'put', 'gc', 'rm', 'env'):
                ctx.count('skipped')
            elif b.step(op):
                ctx.count('op.' + op[0])
                changed = True
            else:
                ctx.count('skipped')


class N02(StyleHistory):
    faults = True
    RUNS = {'quick': 1500, 'thorough': 60000}
    RULE = ('random sites and histories in which sheet loads fail and '
            'recover; non-trivial: a query after a change while some sheet '
            'request failed')


class N03(StyleHistory):
    RUNS = {'quick': 1500, 'thorough': 60000}
    RULE = ('random sites, import graphs and histories of edits, sheet '
            'replacement and environment changes; non-trivial: a query '
            'before and after a change')


class N04(WebCheck):
    RUNS = {'quick': 7000, 'thorough': 150000}
    RULE = ('random histories of navigations and style queries under all '
            'fault kinds including interrupts raised by reads; non-trivial: '
            'at least one load failed or was interrupted after it was '
            'opened')

    def gen(self, rng, index, tier):
        g = WebGen(rng, ndocs=2, nsheets=rng.choice([1, 2, 3]))
        ops = []
        kinds = net.READ_FAULTS * 2 + net.ASYNC_FAULTS * 3 \
            + net.BODY_FAULTS + net.DECODE_FAULTS * 2 + net.OPEN_FAULTS
        cur = 'about:blank'
        for _ in range(rng.choice([4, 8, 12])):
            r = rng.random()
            if r < 0.35:
                op, t = g.nav(cur)
                ops.append(op)
            elif r < 0.7:
                ops.append(g.fault(rng.choice(g.sheet_urls + g.doc_urls),
                                   kinds))
                if rng.random() < 0.5:
                    ops[-1][2]['times'] = rng.choice([1, 2, 3])
            elif r < 0.75:
                ops.append(['heal', None])
            else:
                ops.append(['query', rng.choice([0, 1, 2])])
            if ops[-1][0] == 'fault':
                ops.append(rng.choice([['query', 0], ['query', 2],
                                       g.nav('about:blank')[0]]))
        ops = [g.nav('about:blank')[0], ['query', 0]] + ops
        return {'site': g.site, 'ops': ops, 'queries': g.queries,
                'chunk': rng.choice([1, 7, 64, 10000])}

    def run(self, scenario, ctx):
        b = self.start(scenario, ctx)
        for op in scenario['ops']:
            opened = len(b.server.opened)
            failed = len(b.server.failed)
            exc = None
            if op[0] == 'nav':
                exc = b.navigate(op[1], op[2])
            elif op[0] == 'query':
                try:
                    self.ask(b, op[1])
                except (Exception, KeyboardInterrupt) as e:
                    # what it raises is judged by other properties
                    e.__traceback__ = None
                    exc = e
            else:
                b.step(op)
            self.closed(b, op)
            ctx.event(op[0], type(exc).__name__ if exc else 'ok',
                      len(b.server.opened) - opened)
            ctx.state((op[0], type(exc).__name__, len(b.server.opened)
                       - opened, len(b.server.failed) - failed))
            if len(b.server.failed) > failed \
                    and len(b.server.opened) > opened:
                ctx.nontrivial = True

    def ask(self, b, how):
        root = b.doc.document_element
        if root is None:
            return
        if how == 2:
            b.doc.style_sheets
        elif how == 1:
            root.get_computed_style()
        else:
            list(root.iter())[-1].get_inherited_style()


NOISE = ['{', '}', '(', ')', '[', ']', ';', ':', '"', "'", '/*', '*/', '\\',
         '@', '@media', '@import', '@import url(', '@namespace', '@font-face',
         '@media (', '@media not', '!important', ',', '<!--', '-->', '\x00',
         '@media (min-width: ', '@media ({', 'url(', '#', '.', '>', '~~',
         ':not(', '::', '|', '*|*', '\n', '@font-feature-values f {',
         '@charset "x";', '@supports (a:b) {', '@import "', '@media ,,',
         '@media (width >', '@namespace svg', '@import url(x) (',
         'svg||rect {', '9{', '@media (aspect-ratio: 1/0) {', '@page {',
         '--x:', '\ud83d\ude00'.encode('utf-16', 'surrogatepass').decode(
             'utf-16')]
# no name of HEAD can arise from the names of TAIL by one splice
HEAD = ['fill', 'cursor', 'visibility', 'letter-spacing']
TAIL = ['text-anchor', 'stroke', 'color', 'stroke-linejoin']


class N05(WebCheck):
    RUNS = {'quick': 7000, 'thorough': 250000}
    RULE = ('random sheets delivered through every channel and cut, flipped, '
            'spliced or wrongly decoded at random points; non-trivial: the '
            'damage hit a rule or at-rule of a sheet that was used')

    def gen(self, rng, index, tier):
        # properties of the head of the damaged sheet and of the sheets
        # around it never occur in its tail
        g = WebGen(rng, ndocs=1, nsheets=rng.choice([0, 1]), imports=False)
        url = g.doc_urls[0]
        base = url

        def rule(props):
            sel = g.selector()
            return ['rule', sel, [[p, g.value(), rng.random() < 0.2]
                                  for p in rng.sample(props, 1)]]

        def block(props, n):
            out = []
            for _ in range(n):
                if rng.random() < 0.25:
                    q = g.query(1)
                    out.append(['media', q, [rule(props) for _ in range(
                        rng.choice([1, 2]))]])
                else:
                    out.append(rule(props))
            return out
        head = block(HEAD, rng.choice([0, 1, 2]))
        tail = block(TAIL, rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 1, 2])):
            tail.insert(rng.randrange(len(tail) + 1), rng.choice([
                ['raw', '@import url(t.css) screen;'],
                ['raw', '@import "t.css";'],
                ['raw', '@namespace svg url(http://www.w3.org/2000/svg);'],
                ['raw', '@namespace "http://example.org/z";'],
                ['raw', '@namespace zz "http://example.org/z";'],
                ['fontface'],
                ['raw', '@font-feature-values Ff { @styleset { a: 1 } }'],
                ['raw', '@supports (fill: red) { * { cursor: x } }'
                 .replace('cursor', TAIL[0])],
                ['raw', '@page { margin: 1cm }'],
                ['raw', '@charset "utf-8";']]))
        damage = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            kind = rng.choice(['cut', 'cut', 'flip', 'insert', 'insert',
                               'delete'])
            d = [kind, round(rng.random(), 4)]
            if kind == 'flip':
                d.append(1 << rng.randrange(7))
            elif kind == 'insert':
                d.append(rng.choice(NOISE))
            elif kind == 'delete':
                d.append(rng.choice([1, 2, 5, 20]))
            damage.append(d)
        channel = rng.choice(['style', 'style', 'link', 'pi', 'import'])
        spec = {'kind': 'svg', 'pis': [], 'root': {
            'id': g.id(), 'tag': 'svg', 'attrs': {}, 'kids': [
                g.element(url, 2) for _ in range(rng.choice([1, 2]))]}}
        around = [{'id': 's1', 'tag': 'style', 'attrs': {}, 'kids': [],
                   'css': block(HEAD, 2)},
                  {'id': 's2', 'tag': 'style', 'attrs': {}, 'kids': [],
                   'css': block(HEAD, 2)}]
        return {'url': url, 'spec': spec, 'head': head, 'tail': tail,
                'around': around, 'damage': damage, 'channel': channel,
                'charset': rng.choice([None, None, 'charset_unknown',
                                       'charset_wrong']),
                'queries': g.queries, 'ops': []}

    SHRINK = ('head', 'tail', 'damage')

    def simplify(self, sc):
        for root in shrink_el(sc['spec']['root']):
            yield dict(sc, spec=dict(sc['spec'], root=root))
        for i in range(2):
            for el in shrink_el(sc['around'][i]):
                around = list(sc['around'])
                around[i] = el
                yield dict(sc, around=around)

    def text(self, sc):
        head = ''.join(css_item(i) + '\n' for i in sc['head'])
        tail = ''.join(css_item(i) + '\n' for i in sc['tail'])
        for d in sc['damage']:
            at = int(len(tail) * d[1])
            if d[0] == 'cut':
                tail = tail[:at]
            elif d[0] == 'flip' and tail:
                at = min(at, len(tail) - 1)
                tail = tail[:at] + chr(ord(tail[at]) ^ d[2]) + tail[at + 1:]
            elif d[0] == 'insert':
                tail = tail[:at] + d[2] + tail[at:]
            elif d[0] == 'delete':
                tail = tail[:at] + tail[at + d[2]:]
        return head, tail

    def run(self, sc, ctx):
        url = sc['url']
        base = url[:url.rindex('/') + 1]
        if '?' in url:
            base = url[:url.index('?')]
            base = base[:base.rindex('/') + 1]
        head, tail = self.text(sc)
        channel = sc['channel']
        s1, s2 = (dict(e) for e in sc['around'])
        root = dict(sc['spec']['root'])
        mid = []
        pis = []
        text = head + tail
        site = {base + 't.css': {'kind': 'css', 'items': [
            ['rule', [[['', {}]]], [[TAIL[0], 'tt', False]]]]}}
        if channel == 'style':
            # control characters cannot be in a document
            text = ''.join(c for c in text if c >= ' ' or c in '\n\t')
            mid = [{'id': 'dam', 'tag': 'style', 'attrs': {}, 'kids': [],
                    'text': text}]
        else:
            site[base + 'dam.css'] = {'kind': 'raw', 'text': text,
                                      'ctype': 'text/css'}
            if channel == 'link':
                mid = [{'id': 'dam', 'tag': 'link', 'kids': [], 'attrs': {
                    'rel': 'stylesheet', 'href': 'dam.css'}}]
            elif channel == 'pi':
                pis = [{'href': 'dam.css', 'type': 'text/css'}]
            else:
                mid = [{'id': 'dam', 'tag': 'style', 'attrs': {}, 'kids': [],
                        'text': '@import url(dam.css);'}]
        root['kids'] = [s1] + mid + [s2] + list(root['kids'])
        site[url] = {'kind': 'svg', 'root': root, 'pis': pis}
        # the model sees only what is complete before the damage
        view = dict(root)
        pre = {'id': 'dam', 'tag': 'style', 'attrs': {}, 'kids': [],
               'css': sc['head']}
        if channel == 'pi':
            view['kids'] = [pre, s1, s2] + list(sc['spec']['root']['kids'])
        else:
            view['kids'] = [s1, pre, s2] + list(sc['spec']['root']['kids'])
        b = self.start({'site': site, 'queries': sc['queries']}, ctx)
        charset = sc['charset'] if channel != 'style' else None
        if b.navigate('win', url) is not None:
            raise RuntimeError('page did not load')
        if charset:
            b.page.faults[base + 'dam.css'] = {'kind': charset}
            b.sync_faults()
        for d in sc['damage']:
            ctx.count('fault.css_' + d[0])
        b.page.load(url, dict(site[url], root=view, pis=[]))
        page = b.page
        ctx.event(text)
        rules = page.oracle.rules()
        if not tail and not sc['tail']:
            ctx.count('undamaged')
        changed = False
        for el in page.root.walk():
            if el.id in ('dam', 's1', 's2'):
                continue
            style = b.sut(el.id).get_inherited_style()
            want = page.oracle.style(el, rules)
            got = {p: style.get(p) for p in HEAD}
            if charset == 'charset_wrong':
                continue
            ctx.count('oracle_evaluations')
            want = {p: want[p] for p in HEAD}
            if got != want:
                raise Violation('damage-spread', '{}: got {}, expected {} '
                                'with sheet {!r} via {}'.format(
                                    el.id, got, want, text, channel))
            ctx.event(el.id, sorted(got.items()))
            ctx.state(tuple(sorted(got.items())))
        sheets = b.doc.style_sheets
        if text:
            ctx.check(len(sheets) == 4, 'sheet-count',
                      lambda: repr(len(sheets)))
        self.closed(b, 'damage')
        ctx.nontrivial = bool(tail.strip())


CHECKS = {'N01': N01, 'N02': N02, 'N03': N03, 'N04': N04, 'N05': N05}
