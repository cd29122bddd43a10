"""D01, D07: tree refinement and ownership."""
from ..engine import Check
from ..gendom import Gen
from ..world import World, verify_owner, verify_tree


class D01(Check):
    RUNS = {'quick': 4000, 'thorough': 120000}
    RULE = ('random histories of tree edits over 1-2 documents, parsed or '
            'built, with reference drops and collections; non-trivial: at '
            'least four edits were executed')

    def gen(self, rng, index, tier):
        g = Gen(rng)
        g.start()
        steps = rng.choice([4, 8, 15, 30])
        g.history(steps, [(10, 'tree_op'), (1.5, 'gc_op'), (0.7, 'attr_op')])
        return {'ops': g.ops, 'every': rng.choice([1, 1, 1, 3, 100])}

    def run(self, scenario, ctx):
        world = World(ctx)
        done = 0
        for op in scenario['ops']:
            ok = world.step(op)
            ctx.event(op, ok)
            if not ok:
                ctx.count('skipped')
                continue
            done += 1
            if done % scenario.get('every', 1) == 0:
                verify_tree(world, op)
                ctx.state(world.model.abstract())
        verify_tree(world, 'the history')
        ctx.nontrivial = done >= 4


class D07(Check):
    RUNS = {'quick': 4000, 'thorough': 120000}
    RULE = ('random histories of creating, moving and removing subtrees '
            'between two or three documents with collections; non-trivial: '
            'at least four edits and one collection')

    def gen(self, rng, index, tier):
        g = Gen(rng)
        g.start(rng.choice([2, 2, 3]))
        g.history(rng.choice([4, 8, 15, 25]),
                  [(10, 'tree_op'), (4, 'gc_op')])
        return {'ops': g.ops, 'every': rng.choice([1, 1, 1, 3, 100])}

    def run(self, scenario, ctx):
        world = World(ctx)
        done = 0
        for op in scenario['ops']:
            ok = world.step(op)
            ctx.event(op, ok)
            if not ok:
                ctx.count('skipped')
                continue
            done += 1
            if done % scenario.get('every', 1):
                continue
            verify_owner(world, op)
            # a fresh, never inserted node names its creator
            if op[0] in ('el', 'com', 'pi'):
                sut = world.held[op[1]]
                want = world.docs[op[-2]] if op[-2] is not None else None
                ctx.check(sut.owner_document is want, 'owner:created',
                          'created {}: owner {!r}'.format(
                              op, sut.owner_document))
            verify_tree(world, op, serial=False, full=False)
            ctx.state(world.model.abstract())
        verify_owner(world, 'the history')
        verify_tree(world, 'the history', serial=False, full=False)
        ctx.nontrivial = done >= 4 and ctx.counters['fault.gc'] > 0


CHECKS = {'D01': D01, 'D07': D07}
