"""D02: views of attributes."""
from ..attrs import AttrGen, AttrWorld
from ..engine import Check


class D02(Check):
    RUNS = {'quick': 5000, 'thorough': 200000}
    RULE = ('random histories of attribute changes through all interfaces on '
            'elements of one or two documents, with Attr objects kept and '
            'shared, moves and collections; non-trivial: at least five '
            'operations took effect')

    def gen(self, rng, index, tier):
        g = AttrGen(rng)
        g.start()
        for _ in range(rng.choice([5, 10, 20, 35])):
            g.op()
        return {'ops': g.ops, 'every': rng.choice([1, 1, 1, 3, 100])}

    def run(self, scenario, ctx):
        world = AttrWorld(ctx)
        done = 0
        for op in scenario['ops']:
            ok = world.step(op)
            ctx.event(op, ok)
            ctx.count('op.' + op[0] if ok else 'skipped')
            if not ok:
                continue
            done += 1
            if done % scenario.get('every', 1):
                continue
            world.verify(op)
            ctx.state(sorted((e, sorted(a.items()))
                             for e, a in world.m.els.items()))
        world.verify('the history')
        ctx.nontrivial = done >= 5


CHECKS = {'D02': D02}
