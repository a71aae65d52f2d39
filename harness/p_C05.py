"""Solution totals against sums of simulated routes."""
import gen
from gen import *
from oracle import Sim, uncollected
from pyvrp import Route, Solution

RULE = "random problems and random valid solutions (complete and incomplete); non-trivial when at least one route"


def check_solution(ctx, sol, data, parts):
    E = ctx.eq
    sims = [Sim(data, t, a) for t, a in parts]
    tot = lambda f: sum(getattr(s, f) for s in sims)
    E(sol.num_routes(), len(parts), "num_routes")
    E(sol.num_trips(), tot("num_trips"), "num_trips")
    E(sol.num_clients(), tot("num_clients"), "num_clients")
    E(sol.num_shipments(), tot("num_shipments"), "num_shipments")
    E(sol.distance(), tot("distance"), "distance")
    E(sol.distance_cost(), tot("distance_cost"), "distance_cost")
    E(sol.duration(), tot("duration"), "duration")
    E(sol.overtime(), tot("overtime"), "overtime")
    E(sol.duration_cost(), tot("duration_cost"), "duration_cost")
    E(sol.excess_distance(), tot("excess_distance"), "excess_distance")
    E(sol.time_warp(), tot("time_warp"), "time_warp")
    E(sol.fixed_vehicle_cost(), tot("fixed_cost"), "fixed_vehicle_cost")
    E(sol.prizes(), tot("prizes"), "prizes")
    E(sol.uncollected_prizes(), uncollected(data, [a for _, a in parts]), "uncollected_prizes")
    el = [sum(s.excess_load[d] for s in sims) for d in range(data.num_load_dimensions)]
    E(list(sol.excess_load()), el, "excess_load")
    cl = {a.idx for _, acts in parts for a in acts if a.type == C}
    sh = {a.idx for _, acts in parts for a in acts if a.type == P}
    mc = sum(c.required and i not in cl for i, c in enumerate(data.clients()))
    ms = sum(s.required and i not in sh for i, s in enumerate(data.shipments()))
    mg = sum(g.required and not (set(g.clients) & cl) for g in data.groups())
    E(sol.num_missing_clients(), mc, "num_missing_clients")
    E(sol.num_missing_shipments(), ms, "num_missing_shipments")
    E(sol.num_missing_groups(), mg, "num_missing_groups")
    E(sol.is_complete(), mc + ms + mg == 0, "is_complete")
    E(sol.has_excess_load(), any(x > 0 for x in el), "has_excess_load")
    E(sol.has_time_warp(), any(s.time_warp for s in sims), "has_time_warp")
    E(sol.has_excess_distance(), any(s.excess_distance for s in sims), "has_excess_distance")
    E(sol.is_feasible(), mc + ms + mg == 0 and all(s.feasible for s in sims), "is_feasible")
    want = [("C", i) for i in range(data.num_clients) if i not in cl]
    want += [(k, i) for i in range(data.num_shipments) if i not in sh for k in "PQ"]
    nm = {D: "D", C: "C", P: "P", Q: "Q"}
    E(sorted((nm[a.type], a.idx) for a in sol.unplanned()), sorted(want), "unplanned")
    E([[(x.type, x.idx) for x in rt] for rt in sol.routes()],
      [[(D, s.v.start_depot)] + [(a.type, a.idx) for a in s.acts] + [(D, s.v.end_depot)] for s in sims], "routes")
    return sims


def case(r, ctx, i):
    kw = {}
    if i % 3 == 1:
        kw = dict(tw=False, dims=r.choice([0, 1]))
    data = gen.problem(r, **kw)
    ctx.note("data", gen.describe(data))
    for _ in range(5):
        parts = gen.solution_parts(r, data, complete=r.random() < 0.5)
        ctx.note("solution", [(t, gen.astr(a)) for t, a in parts])
        sol = Solution(data, [Route(data, a, t) for t, a in parts])
        check_solution(ctx, sol, data, parts)
        if all(t == 0 and all(a.type == C for a in acts) for t, acts in parts):
            check_solution(ctx, Solution(data, [[a.idx for a in acts] for _, acts in parts]), data, parts)
        ctx.seen((i, tuple((t, tuple(gen.astr(a))) for t, a in parts)))
        ctx.desc.pop()
