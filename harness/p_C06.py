"""Costs of solutions and penalty functions against the documented objective."""
import gen
from gen import *
from oracle import Sim, penalised, uncollected, pen
from pyvrp import CostEvaluator, Route, Solution

RULE = "random solutions and penalty weights (integral, fractional, zero, large); non-trivial when at least one route"


def weight(r):
    return r.choice([0, 1, 2.5, r.randint(0, 50), r.random() * 10, r.random() * 1e4, 0.1])


def case(r, ctx, i):
    data = gen.problem(r, **(dict(tw=False, dims=1) if i % 4 == 1 else {}))
    nd = data.num_load_dimensions
    ctx.note("data", gen.describe(data))
    for _ in range(4):
        lp, tp, dp = [weight(r) for _ in range(nd)], weight(r), weight(r)
        ce = CostEvaluator(lp, tp, dp)
        parts = gen.solution_parts(r, data, complete=r.random() < 0.6)
        ctx.note("weights", lp, tp, dp, "solution", [(t, gen.astr(a)) for t, a in parts])
        sol = Solution(data, [Route(data, a, t) for t, a in parts])
        sims = [Sim(data, t, a) for t, a in parts]
        want = uncollected(data, [a for _, a in parts]) + sum(penalised(s, lp, tp, dp) for s in sims)
        ctx.eq(ce.penalised_cost(sol), want, "penalised_cost")
        missing = not sol.is_complete()
        feas = not missing and all(s.feasible for s in sims)
        ctx.eq(ce.cost(sol), want if feas else MAX, "cost")
        ctx.seen((i, tuple(lp), tp, dp, tuple((t, tuple(gen.astr(a))) for t, a in parts)))
        # penalty functions
        for _ in range(4):
            S = r.choice([5, 100, 10**6, 2**40])
            x, y, cap = sorted([r.randint(0, S), r.randint(0, S)]) + [r.randint(0, S)]
            for d in range(nd):
                a, b = ce.load_penalty(x, cap, d), ce.load_penalty(y, cap, d)
                ctx.eq(a, pen(max(x - cap, 0), lp[d]), "load_penalty", x, cap, d)
                ctx.check(0 <= a <= b, "load_penalty not monotone", x, y, cap)
            ctx.eq(ce.tw_penalty(x), pen(x, tp), "tw_penalty", x)
            ctx.eq(ce.dist_penalty(x, cap), pen(max(x - cap, 0), dp), "dist_penalty", x, cap)
            ctx.check(0 <= ce.tw_penalty(x) <= ce.tw_penalty(y), "tw_penalty not monotone", x, y)
            ctx.check(0 <= ce.dist_penalty(x, cap) <= ce.dist_penalty(y, cap), "dist_penalty not monotone", x, y, cap)
        ctx.desc.pop()
    # negative weights are rejected, non-negative ones accepted
    vals = [r.choice([0, 1, 0.5, -1, -0.001, -1e9, 1e9]) for _ in range(4)]
    try:
        CostEvaluator(vals[:2], vals[2], vals[3])
        ok = True
    except ValueError:
        ok = False
    ctx.eq(ok, all(x >= 0 for x in vals), "CostEvaluator accepts", vals)
