"""Local search: valid, complete and never worse results; perturbation counts."""
import gen
from gen import *
from oracle import Sim, penalised, uncollected
from p_C04 import route_ok, solution_ok
from p_C08 import weights, UNARY, BINARY
from pyvrp import CostEvaluator, RandomNumberGenerator, Route as PRoute, Solution as PSolution
from pyvrp.search import LocalSearch, _search as S

RULE = ("random problems, starting solutions (complete and incomplete), penalty weights, subsets and orders of operators, neighbourhood sizes; each search object is used for several calls; "
        "non-trivial when the problem has at least one client or shipment")


def snap(sol):
    return [(rt.vehicle_type(), gen.astr(list(rt)[1:-1])) for rt in sol.routes()]


def acts_of(sol):
    return [(rt.vehicle_type(), list(rt)[1:-1]) for rt in sol.routes()]


def cost(data, sol, w):
    parts = acts_of(sol)
    return sum(penalised(Sim(data, t, a), *w) for t, a in parts) + uncollected(data, [a for _, a in parts])


def complete(data, sol):
    """Why the solution is not complete and group-respecting, or None."""
    cl = {a.idx for _, acts in acts_of(sol) for a in acts if a.type == C}
    sh = {a.idx for _, acts in acts_of(sol) for a in acts if a.type == P}
    for i, c in enumerate(data.clients()):
        if c.required and i not in cl:
            return f"required client {i} is missing"
    for i, s in enumerate(data.shipments()):
        if s.required and i not in sh:
            return f"required shipment {i} is missing"
    for k, g in enumerate(data.groups()):
        n = sum(i in cl for i in g.clients)
        if n > 1:
            return f"group {k} is visited {n} times"
        if g.required and n == 0:
            return f"required group {k} is missing"
    return None


def check_result(ctx, data, out, what):
    parts = acts_of(out)
    bad = solution_ok(data, parts)
    for t, a in parts:
        bad = bad or route_ok(data, t, a)
        v = data.vehicle_type(t)
        for x in a:
            if x.type == D and x.idx not in v.reload_depots:
                bad = bad or f"reloads at depot {x.idx}"
    ctx.check(bad is None, f"{what}: invalid result ({bad}): {snap(out)}")
    miss = complete(data, out)
    ctx.check(miss is None, f"{what}: {miss}: {snap(out)}")
    ctx.check(out.is_complete(), f"{what}: result is not reported as complete")


def perturbation(r, ctx, data, sol, nb, ce):
    lo = r.randint(0, 6)
    hi = lo + r.choice([0, 0, 1, r.randint(0, 12)])
    pm = S.PerturbationManager(S.PerturbationParams(lo, hi))
    rng = RandomNumberGenerator(seed=r.randint(1, 10**6))
    ctx.check(lo <= pm.num_perturbations() <= hi, f"initial number of perturbations {pm.num_perturbations()} not in [{lo}, {hi}]")
    for _ in range(3):
        pm.shuffle(rng)
        ctx.check(lo <= pm.num_perturbations() <= hi, f"number of perturbations {pm.num_perturbations()} not in [{lo}, {hi}]")
        space = S.SearchSpace(data, nb)
        space.shuffle(rng)
        ss = S.Solution(data)
        ss.load(sol)
        keys = [act(C, i) for i in range(data.num_clients)] + [act(P, i) for i in range(data.num_shipments)]
        before = {str(k): ss[k].route is not None for k in keys}
        pm.perturb(ss, space, ce)
        after = {str(k): ss[k].route is not None for k in keys}
        ch = sum(before[k] != after[k] for k in before)
        ctx.eq(ch, min(pm.num_perturbations(), len(keys)), f"number of visits inserted or removed by a perturbation of {pm.num_perturbations()}")
        for i in range(data.num_shipments):
            ctx.eq(ss[act(P, i)].route is None, ss[act(Q, i)].route is None, f"shipment {i} split by perturbation")
        if pm.num_perturbations():
            for k in keys:
                if before[str(k)] != after[str(k)]:
                    ctx.check(space.is_promising(k), f"perturbed visit {gen.astr([k])[0]} is not marked promising")
    if lo < hi:
        try:
            S.PerturbationParams(hi, lo)
            ctx.check(False, f"PerturbationParams({hi}, {lo}) accepted")
        except ValueError:
            pass


def case(r, ctx, i):
    data = gen.problem(r, nc=r.randint(0, 9), nv=r.choice([1, 1, 2, 2, 3, 4]), optional=r.choice([0.0, 0.4, 0.8]))
    if i % 3:
        data = gen.strip(r, data)
    if data.num_clients + data.num_shipments == 0:
        return
    ctx.note("data", gen.describe(data))
    w = weights(r, data)
    ce = CostEvaluator(*w)
    ctx.note("weights", *w)
    nb = S.compute_neighbours(data, S.NeighbourhoodParams(num_neighbours=r.choice([1, 2, 5, 20])))
    seed = r.randint(1, 10**6)
    lo = r.randint(0, 4)
    pm = S.PerturbationManager(S.PerturbationParams(lo, lo + r.randint(0, 6)))
    names = [op for op in UNARY + BINARY if getattr(S, op, None) is not None and getattr(S, op).supports(data)]
    k = r.random()
    if k < 0.5:
        use = names
    else:
        use = r.sample(names, r.randint(0, len(names)))
    ops = [getattr(S, op)(data) for op in use]
    ls = LocalSearch(data, RandomNumberGenerator(seed=seed), nb, pm)
    for o in ops:
        ls.add_operator(o)
    ctx.note("operators", use, "seed", seed)
    prev = None
    for call in range(4):
        if prev is not None and r.random() < 0.5:
            sol = prev
        else:
            parts = gen.solution_parts(r, data, complete=r.random() < 0.7)
            sol = PSolution(data, [PRoute(data, a, t) for t, a in parts])
        before = snap(sol)
        ref = PSolution(data, [PRoute(data, a, t) for t, a in acts_of(sol)])
        mode = r.choice(["exhaustive", "exhaustive", "perturbed"])
        ctx.note("call", call, mode, before)
        what = f"{mode} search from {before}"
        was_complete = complete(data, sol) is None
        cb = cost(data, sol, w)
        out = ls(sol, ce, exhaustive=mode == "exhaustive")
        ctx.seen((i, call, str(before)))
        ctx.eq(snap(sol), before, f"{what}: input solution afterwards")
        ctx.check(sol == ref, f"{what}: input solution changed")
        check_result(ctx, data, out, what)
        ca = cost(data, out, w)
        ctx.eq(ce.penalised_cost(out), ca, f"{what}: reported penalised cost")
        if mode == "exhaustive" and was_complete:
            ctx.check(ca <= cb, f"{what}: cost rose from {cb} to {ca}")
        if mode == "exhaustive":
            again = ls(out, ce, exhaustive=True)
            check_result(ctx, data, again, what + " repeated")
            cc = cost(data, again, w)
            ctx.check(cc <= ca, f"{what}: repeating the search made the cost rise from {ca} to {cc}")
        st = ls.statistics
        ctx.check(st.num_improving <= st.num_updates, f"{what}: {st.num_improving} improving moves but {st.num_updates} updates")
        prev = out
    # no perturbation at all
    parts = gen.solution_parts(r, data, complete=True)
    sol = PSolution(data, [PRoute(data, a, t) for t, a in parts])
    ls0 = LocalSearch(data, RandomNumberGenerator(seed=seed), nb, S.PerturbationManager(S.PerturbationParams(0, 0)))
    for o in ops:
        ls0.add_operator(o)
    for _ in range(2):
        ctx.note("unperturbed", snap(sol))
        out = ls0(sol, ce, exhaustive=False)
        check_result(ctx, data, out, "unperturbed search")
        ca, cb = cost(data, out, w), cost(data, sol, w)
        ctx.check(ca <= cb, f"unperturbed search from {snap(sol)}: cost rose from {cb} to {ca}")
        sol = out
    perturbation(r, ctx, data, sol, nb, ce)
