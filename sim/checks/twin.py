"""Checks that compare a program with the same program under a fault:
D05 collections, D06 crash and reparse, D09 other documents."""
import copy
import gc
import json
import os
import re

from ..engine import Check
from ..genprog import ProgGen
from ..prog import ROOT, Prog, handle, norm, walk
from ..trace import Lines, count_lines


def isolated(fn):
    """Runs fn in a forked child and returns its JSON-able result, so that
    nothing it does reaches this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 97
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise RuntimeError('isolated run failed: {}'.format(status))
    return json.loads(b''.join(chunks))


def plain(obs):
    """An observation as it looks after a JSON round trip."""
    return json.loads(json.dumps(obs))


def differ(a, b, path=''):
    """First difference of two observations, as text."""
    if type(a) is not type(b):
        return '{}: {!r} / {!r}'.format(path, a, b)
    if isinstance(a, dict):
        for key in sorted(set(a) | set(b)):
            if key not in a or key not in b:
                return '{}.{}: {!r} / {!r}'.format(
                    path, key, a.get(key, '(missing)'),
                    b.get(key, '(missing)'))
            text = differ(a[key], b[key], path + '.' + key)
            if text:
                return text
        return ''
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            text = differ(x, y, '{}[{}]'.format(path, i))
            if text:
                return text
        if len(a) != len(b):
            return '{}: {} / {} items: {!r} / {!r}'.format(
                path, len(a), len(b), a[len(b):][:2], b[len(a):][:2])
        return ''
    return '' if a == b else '{}: {!r} / {!r}'.format(path, a, b)


def generic(obs):
    """An observation without the numbers of generated prefixes."""
    if isinstance(obs, dict):
        return {k: generic(v) for k, v in obs.items()}
    if isinstance(obs, list):
        return [generic(v) for v in obs]
    if isinstance(obs, str):
        return re.sub(r'^ns[0-9]+:', 'ns:', obs)
    return obs


def kind_of(op):
    """The class of an operation, for signatures and counters."""
    if op[0] == 'q':
        return 'q:' + op[2]
    if op[0] == 'qd':
        return 'qd:' + op[1]
    return op[0]


def tally(ctx, op, obs):
    if isinstance(obs, list) and obs and obs[0] == 'skip':
        ctx.count('op.skip')
        return False
    ctx.count('op.' + kind_of(op))
    if isinstance(obs, list) and obs and obs[0] == 'raise':
        ctx.count('op.raised')
    return True


class D05(Check):
    RUNS = {'quick': 900, 'thorough': 30000}
    RULE = ('random programs over one document run twice, holding every node '
            'that ever existed, and dropping all references with collections '
            'at seeded points between and inside operations; non-trivial: a '
            'collection happened and eight operations had an effect')

    def gen(self, rng, index, tier):
        g = ProgGen(rng, fonts=0.01, q=7, qd=3, keep=1, ask=2).start()
        for _ in range(rng.choice([8, 15, 30])):
            g.one()
        rate = rng.choice([0.05, 0.2, 0.5])
        ops = []
        for op in g.ops:
            fault = []
            if rng.random() < rate:
                fault.append('before')
            if rng.random() < rate / 2:
                fault.append(['inside', rng.randrange(10000)])
            ops.append([op, fault])
        return {'ops': ops, 'every': rng.choice([1, 4, 100])}

    def simplify(self, scenario):
        if scenario['every'] != 100:
            yield dict(scenario, every=100)
        for i, (op, fault) in enumerate(scenario['ops']):
            for j in range(len(fault)):
                ops = copy.deepcopy(scenario['ops'])
                del ops[i][1][j]
                yield dict(scenario, ops=ops)

    def run(self, scenario, ctx):
        every = scenario['every']

        def look(prog):
            return [prog.dump()]

        def last(prog):
            return [prog.dump(), prog.styles(), prog.dump()]

        def held():
            prog = Prog()
            prog.hold = []
            out = []
            for i, (op, fault) in enumerate(scenario['ops']):
                n = 0
                if any(f[0] == 'inside' for f in fault):
                    n, obs = count_lines(lambda: prog.step(op))
                else:
                    obs = prog.step(op)
                out.append([obs, n, look(prog) if i % every == every - 1
                            else None])
            return out + [last(prog)]
        want = isolated(held)
        prog = Prog()
        effects = 0
        for i, (op, fault) in enumerate(scenario['ops']):
            inside = None
            for f in fault:
                if f == 'before':
                    ctx.count('fault.gc-between')
                    gc.collect()
                elif f[0] == 'inside':
                    inside = f[1]
            obs, lines, seen = want[i]
            if inside is not None and lines:
                ctx.count('fault.gc-inside')
                k = inside % lines + 1

                def action(n, frame, k=k):
                    if n == k:
                        gc.collect()
                with Lines(action):
                    got = prog.step(op)
            else:
                got = prog.step(op)
            got = plain(got)
            ctx.event(op, fault, got)
            effects += tally(ctx, op, got)
            ctx.check(got == obs, 'gc:' + kind_of(op),
                      '{}: with / without collection: {}'.format(
                          op, differ(got, obs)))
            if seen is not None:
                now = plain(look(prog))
                ctx.check(now == seen, 'gc:state',
                          'after {}: with / without collection: {}'.format(
                              op, differ(now, seen)))
            ctx.state(got)
        gc.collect()
        ctx.count('fault.gc-between')
        now = plain(last(prog))
        ctx.check(now == want[-1], 'gc:state',
                  'at the end: with / without collection: ' +
                  differ(now, want[-1]))
        ctx.nontrivial = effects >= 8


class D06(Check):
    RUNS = {'quick': 500, 'thorough': 30000}
    RULE = ('random programs over one document, cut by crashes after which '
            'only the last complete serialisation survives, beside the same '
            'program without crashes; non-trivial: a crash after eight '
            'effective operations')
    ENCODINGS = ['utf-8', 'utf-8', 'utf-16', 'unicode', 'us-ascii']

    def gen(self, rng, index, tier):
        g = ProgGen(rng, fonts=0.01, q=5, qd=2, keep=0, ask=0, zoom=0)
        g.plain = False     # known finding D06-no-namespace
        g.start()
        ops = [['op', op] for op in g.ops]
        for _ in range(rng.choice([1, 1, 2, 3])):
            g.ops = []
            for _ in range(rng.choice([3, 8, 20])):
                g.one()
            ops += [['op', op] for op in g.ops]
            lost = []
            if rng.random() < 0.5:
                known = (dict(g.tags), dict(g.inside), list(g.other),
                         set(g.bagged))
                g.ops = []
                for _ in range(rng.choice([1, 5])):
                    g.one()
                lost = g.ops
                g.tags, g.inside, g.other, g.bagged = known
            ops.append(['crash', rng.choice(['document', 'document', 'root']),
                        rng.choice(self.ENCODINGS), lost])
            g.bagged = set()
        g.ops = []
        for _ in range(rng.choice([2, 8])):
            g.one()
        return {'ops': ops + [['op', op] for op in g.ops]}

    def simplify(self, scenario):
        for i, item in enumerate(scenario['ops']):
            if item[0] == 'crash':
                for j in range(len(item[3])):
                    ops = copy.deepcopy(scenario['ops'])
                    del ops[i][3][j]
                    yield dict(scenario, ops=ops)
                if item[2] != 'utf-8':
                    ops = copy.deepcopy(scenario['ops'])
                    ops[i][2] = 'utf-8'
                    yield dict(scenario, ops=ops)

    def run(self, scenario, ctx):
        cur, ref = Prog(), Prog()
        env = []
        effects = crashes = 0

        def look(prog):
            return [prog.dump(serial=False), prog.styles()]
        for item in scenario['ops']:
            if item[0] == 'op':
                op = item[1]
                if op[0] == 'qd' and op[1] in ('tostring', 'dump') or (
                        op[0] == 'q' and op[2] == 'tostring'):
                    continue    # where namespaces are declared may differ
                if op[0] == 'win':
                    env.append(op)
                got = generic(plain(cur.step(op)))
                want = generic(plain(ref.step(op)))
                ctx.event(op, got)
                effects += tally(ctx, op, got)
                ctx.check(got == want, 'crash:' + kind_of(op),
                          '{}: after / without the crash: {}'.format(
                              op, differ(got, want)))
                ctx.state(got)
                continue
            _, how, encoding, lost = item
            root = cur.doc.document_element
            if root is None:
                continue
            if encoding == 'us-ascii' and not all(
                    (n.data or '').isascii() for n in walk(root)
                    if n.node_type != 1):
                encoding = 'utf-8'  # character references are not available
            before = look(cur)
            data = cur.save(how, encoding)
            ctx.count('serialised.' + encoding)
            ctx.check(plain(look(cur)) == plain(before), 'crash:save',
                      'tostring changed the document')
            for op in lost:
                obs = cur.step(op)
                ctx.count('op.lost')
                ctx.event('lost', op, obs)
            ctx.count('fault.crash')
            crashes += effects >= 8
            cur = Prog()
            for op in env:
                cur.step(op)
            cur.reload(data)
            ref.bag = {}
            if how == 'root':
                for node in ref.doc.child_nodes:
                    if node.node_type != 1:
                        ref.doc.remove(node)
            got, want = generic(plain(look(cur))), generic(plain(look(ref)))
            ctx.event('crash', how, encoding, got)
            ctx.check(got == want, 'crash:state',
                      'reparsed / serialised document ({}, {}): {}'.format(
                          how, encoding, differ(got, want)))
        got, want = generic(plain(look(cur))), generic(plain(look(ref)))
        ctx.check(got == want, 'crash:end',
                  'at the end, with / without crashes: ' + differ(got, want))
        ctx.nontrivial = crashes > 0


class D09(Check):
    RUNS = {'quick': 700, 'thorough': 25000}
    RULE = ('two or three programs on documents of their own (with windows, '
            'and sharing nothing, a parser or an implementation), interleaved '
            'by a seeded schedule, compared with each program run alone in a '
            'process of its own; non-trivial: ten switches')

    def gen(self, rng, index, tier):
        actors = []
        for i in range(rng.choice([2, 2, 3])):
            g = ProgGen(rng, prefix='ABC'[i], fonts=0.02, q=6, qd=3, keep=1,
                        ask=2, style=2).start()
            for _ in range(rng.choice([5, 12, 25])):
                g.one()
            actors.append(g.ops)
        left = [list(a) for a in actors]
        ops = []
        burst = rng.choice([1, 1, 3])
        while any(left):
            i = rng.choice([i for i, a in enumerate(left) if a])
            for _ in range(rng.randint(1, burst)):
                if left[i]:
                    ops.append([i, left[i].pop(0)])
        return {'ops': ops, 'share': rng.choice(['none', 'parser', 'impl'])}

    def run(self, scenario, ctx):
        from svgpy import SVGParser
        from svgpy.window import SVGDOMImplementation
        ids = sorted({i for i, _ in scenario['ops']})

        def look(prog):
            return [prog.dump(), prog.styles()]

        def alone(i):
            prog = Prog()
            out = [prog.step(op) for j, op in scenario['ops'] if i == j]
            return out + [look(prog)]
        want = {i: isolated(lambda: alone(i)) for i in ids}
        parser = SVGParser() if scenario['share'] == 'parser' else None
        impl = (SVGDOMImplementation() if scenario['share'] == 'impl'
                else None)
        progs = {i: Prog(impl, parser) for i in ids}
        seen = {i: 0 for i in ids}
        last, switches = None, 0
        for i, op in scenario['ops']:
            switches += last not in (None, i)
            last = i
            got = plain(progs[i].step(op))
            ctx.event(i, op, got)
            tally(ctx, op, got)
            obs = want[i][seen[i]]
            seen[i] += 1
            ctx.check(not (isinstance(got, list) and got[:1] == ['argument']),
                      'argument:' + kind_of(op),
                      '{}: argument before / after the call: {}'.format(
                          op, got))
            ctx.check(got == obs, 'mixed:' + kind_of(op),
                      'actor {} {}: beside others / alone: {}'.format(
                          i, op, differ(got, obs)))
            ctx.state(got)
        for i in ids:
            now = plain(look(progs[i]))
            ctx.check(now == want[i][-1], 'mixed:end',
                      'actor {} at the end: beside others / alone: {}'.format(
                          i, differ(now, want[i][-1])))
        ctx.count('schedule.switch', switches)
        ctx.nontrivial = switches >= 10


CHECKS = {'D05': D05, 'D06': D06, 'D09': D09}
