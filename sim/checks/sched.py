"""T01 threads on separate documents, T02 concurrent readers."""
import copy
import gc

from ..engine import Check
from ..genprog import RULES, ProgGen
from ..prog import ROOT, Prog
from ..threads import Sched
from ..trace import Spots, count_lines
from .twin import differ, isolated, kind_of, plain, tally


def pick_points(rng, style):
    """Where control is given away during one operation: [fraction, hop], or
    [[function, line], hop] for a line of one of its functions."""
    if style == 'ops':
        return [[0, 1]] if rng.random() < 0.6 else []
    if style == 'few':
        n = rng.choice([0, 0, 0, 0, 1, 2])
    elif style == 'mid':
        n = rng.choice([0, 1, 2, 4])
    else:
        n = 0
    if style == 'spots':
        return [[[rng.randrange(10000), rng.randrange(10000)],
                 rng.choice([1, 1, 2])]
                for _ in range(rng.choice([0, 1, 2, 3]))]
    return sorted([rng.randrange(1, 10001), rng.choice([1, 1, 2])]
                  for _ in range(n))


def resolve(pre, spots):
    """The lines such points mean in an undisturbed execution."""
    return sorted([spots.pick(*at) if isinstance(at, list) else
                   at * spots.n // 10001 + (at > 0), hop]
                  for at, hop in pre)


class Threads(Check):
    def simplify(self, scenario):
        if scenario['quantum']:
            yield dict(scenario, quantum=scenario['quantum'] * 4)
            yield dict(scenario, quantum=None)
        for i, item in enumerate(scenario['ops']):
            for j in range(len(item[2])):
                ops = copy.deepcopy(scenario['ops'])
                del ops[i][2][j]
                yield dict(scenario, ops=ops)

    def compare(self, ctx, sched, results, want, scenario, sig):
        for i in sorted(want):
            for n, (op, got) in enumerate(results[i]):
                obs = want[i][n][0]
                ctx.event(i, op, got)
                tally(ctx, op, got)
                ctx.check(not (isinstance(got, list) and
                               got[:1] == ['argument']),
                          'argument:' + kind_of(op), str(got))
                ctx.check(got == obs, sig + ':' + kind_of(op),
                          'thread {} {}: interleaved / alone: {}'.format(
                              i, op, differ(got, obs)))
        ctx.state(sched.trail)
        ctx.count('schedule.switch', sched.switches)
        ctx.count('schedule.lines', sched.steps)


class T01(Threads):
    RUNS = {'quick': 2000, 'thorough': 30000}
    RULE = ('two or three threads, each running a program on a document of '
            'its own, one thread at a time, control moving at seeded library '
            'lines; every observation compared with the program run alone in '
            'a fresh process; non-trivial: six switches inside operations')

    def gen(self, rng, index, tier):
        style = rng.choice(['ops', 'few', 'mid', 'spots', 'spots', 'quantum'])
        actors = []
        theme = None
        if rng.random() < 0.5:
            theme = rng.sample([q for q, _ in ProgGen.ELEMENT_QUERIES], 2)
        for i in range(rng.choice([2, 2, 3])):
            g = ProgGen(rng, prefix='ABC'[i], fonts=0.01, q=7, qd=3, keep=1,
                        ask=2, style=3, comment=2, pi=2, outer=1, content=1)
            if theme:       # every thread in the same parts of the library
                g.queries = theme
                g.weights.update(q=15, geom=3, make=3)
            g.start(rng.choice([1, 2, 4]))
            if rng.random() < 0.6:
                h = g.new('e')
                g.emit('make', h, 'svg', 'style', {}, ROOT, None, 'doc')
                g.emit('text', h, '\n'.join(
                    ['* {{ color: {} }}'.format(['red', 'blue', 'lime'][i])] +
                    rng.sample(RULES, 2)))
                g.tags[h] = 'style'
            for _ in range(rng.choice([3, 8, 15])):
                g.one()
            actors.append(g.ops)
        if rng.random() < 0.3:      # the same program in every thread
            actors = [actors[0]] * len(actors)
        ops = []
        for i, program in enumerate(actors):
            ops += [[i, op, pick_points(rng, style)] for op in program]
        return {'ops': ops, 'share': rng.choice(['none', 'none', 'parser',
                                                 'impl']),
                'made': rng.choice(['thread', 'main']),
                'quantum': rng.choice([3, 17, 101, 499, 2003])
                if style == 'quantum' else None}

    def run(self, scenario, ctx):
        from svgpy import SVGParser
        from svgpy.window import SVGDOMImplementation
        ids = sorted({i for i, _, _ in scenario['ops']})
        programs = {i: [(op, pre) for j, op, pre in scenario['ops']
                        if i == j] for i in ids}

        def look(prog):
            return [prog.dump(), prog.styles()]

        def alone(i):
            out = []
            prog = Prog()
            out.append([None, []])
            for op, pre in programs[i]:
                spots = Spots(lambda: prog.step(op))
                out.append([spots.result, resolve(pre, spots)])
            out.append([look(prog), []])
            return out
        want = {i: isolated(lambda: alone(i)) for i in ids}
        share = scenario['share']
        parser = SVGParser() if share == 'parser' else None
        impl = SVGDOMImplementation() if share == 'impl' else None
        made = {}
        if scenario['made'] == 'main':
            made = {i: Prog(impl, parser) for i in ids}
        results = {i: [] for i in ids}
        sched = Sched(len(ids), scenario['quantum'])

        def body(slot):
            i = ids[slot]
            prog = made.get(i)
            if prog is None:
                prog = sched.op(slot, lambda: Prog(impl, parser), [])
            results[i].append((['start'], None))
            for n, (op, pre) in enumerate(programs[i]):
                points = want[i][n + 1][1]
                obs = sched.op(slot, lambda: prog.step(op), points)
                results[i].append((op, plain(obs)))
            results[i].append((['end'], plain(look(prog))))
        sched.run([body] * len(ids))
        self.compare(ctx, sched, results, want, scenario, 'threads')
        ctx.nontrivial = sched.switches >= 6


class T02(Threads):
    RUNS = {'quick': 1000, 'thorough': 20000}
    SHRINK = ('ops', 'build')
    RULE = ('a generated document read by two or three threads, one at a '
            'time, control moving at seeded library lines, from a cold start '
            '(no node objects) or warm; every answer compared with a lone '
            'reader in a fresh process and the document with its state '
            'before; non-trivial: six switches inside operations')

    def gen(self, rng, index, tier):
        style = rng.choice(['ops', 'few', 'mid', 'spots', 'spots', 'quantum'])
        g = ProgGen(rng, fonts=0.01).start(rng.choice([2, 4, 8]))
        for _ in range(rng.choice([0, 5, 12])):
            g.one()
        build = g.ops
        g.weights = {'q': 7, 'qd': 3}
        ops = []
        first = None
        for i in range(rng.choice([2, 2, 3])):
            g.ops = []
            for _ in range(rng.choice([2, 4, 8])):
                g.one()
            first = first or g.ops
            if rng.random() < 0.4:
                g.ops = first
            ops += [[i, op, pick_points(rng, style)] for op in g.ops]
        return {'build': build, 'ops': ops,
                'start': rng.choice(['cold', 'cold', 'warm', 'built']),
                'quantum': rng.choice([3, 17, 101, 499, 2003])
                if style == 'quantum' else None}

    def run(self, scenario, ctx):
        ids = sorted({i for i, _, _ in scenario['ops']})
        programs = {i: [(op, pre) for j, op, pre in scenario['ops']
                        if i == j] for i in ids}
        prog = Prog()
        for op in scenario['build']:
            prog.step(op)
        # lone readers and the state before, each in a process of its own
        if scenario['start'] != 'built':
            gc.collect()

        def look():
            return [prog.dump(), prog.styles()]

        def alone(i):
            out = []
            for op, pre in programs[i]:
                spots = Spots(lambda: prog.step(op))
                out.append([spots.result, resolve(pre, spots)])
            return out
        before = isolated(look)
        want = {i: isolated(lambda: alone(i)) for i in ids}
        if scenario['start'] == 'warm':
            prog.hold = []
            look()
        results = {i: [] for i in ids}
        sched = Sched(len(ids), scenario['quantum'])

        def body(slot):
            i = ids[slot]
            reader = copy.copy(prog)
            reader.lent = []
            for n, (op, pre) in enumerate(programs[i]):
                points = want[i][n][1]
                obs = sched.op(slot, lambda: reader.step(op), points)
                results[i].append((op, plain(obs)))
        sched.run([body] * len(ids))
        self.compare(ctx, sched, results, want, scenario, 'readers')
        ctx.count('start.' + scenario['start'])
        after = plain(look())
        ctx.check(after == before, 'readers:changed',
                  'document after / before the readers: ' +
                  differ(after, before))
        ctx.nontrivial = sched.switches >= 6


CHECKS = {'T01': T01, 'T02': T02}
