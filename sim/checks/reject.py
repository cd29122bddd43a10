"""D03: rejected changes leave no trace."""
from ..attrs import AttrGen, AttrWorld
from ..engine import Check, Violation
from ..gendom import Gen
from ..reject import BadGen, RejectWorld
from ..world import verify_owner, verify_tree


class D03(Check):
    RUNS = {'quick': 10000, 'thorough': 250000}
    RULE = ('random histories of tree and attribute edits interleaved with '
            'calls whose arguments are invalid at a random position; '
            'non-trivial: at least two calls were rejected')

    def gen(self, rng, index, tier):
        g = Gen(rng)
        g.start()
        bad = BadGen(g)
        for _ in range(rng.choice([3, 6, 12, 20])):
            g.history(rng.choice([0, 1, 1, 2, 4]),
                      [(10, 'tree_op'), (1.5, 'gc_op'), (2, 'attr_op')])
            for _ in range(rng.choice([1, 1, 2])):
                op = bad.op()
                if op is not None:
                    for a in [op[0]] + op[2]:
                        if isinstance(a, str) and a in g.w.model.nodes:
                            g.w.held[a] = True
                    g.ops.append(['bad'] + op)
        return {'ops': g.ops}

    def run(self, scenario, ctx):
        world = RejectWorld(ctx)
        rejected = 0
        for op in scenario['ops']:
            if op[0] == 'bad':
                error = world.bad(op)
                ctx.event(op, type(error).__name__)
                if error is None:
                    ctx.count('skipped')
                    continue
                if error is False:
                    # accepted: nothing to hold it against
                    ctx.count('accepted.' + op[2])
                    ctx.nontrivial = rejected >= 2
                    return
                rejected += 1
                known = world.replaced_root(op)
                if known:
                    raise Violation('rejected:replace-root', '{} raised {!r} '
                                    'and emptied the document'.format(
                                        op, error))
                try:
                    verify_tree(world, op)
                    verify_owner(world, op)
                except Exception as exc:
                    if hasattr(exc, 'sig'):
                        exc.sig = 'rejected:' + op[2] + ':' + exc.sig
                    raise
                ctx.state((op[2], type(error).__name__))
                continue
            ok = world.step(op)
            ctx.event(op, ok)
            if not ok:
                ctx.count('skipped')
        verify_tree(world, 'the history')
        ctx.nontrivial = rejected >= 2


CHECKS = {'D03': D03}
