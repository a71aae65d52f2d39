"""Structural validity of routes and solutions: accepted exactly when the rules hold."""
import gen
from gen import *
from pyvrp import Route, Solution, RandomNumberGenerator

RULE = "random valid structures, and mutations of them; accepted iff an independent restatement of the rules holds; non-trivial when at least one visit"


def route_ok(data, vt, acts):
    """None if valid, else the reason."""
    v = data.vehicle_type(vt)
    trips = 1
    open_, done = set(), set()
    for a in acts:
        if a.type == D:
            trips += 1
            if a.idx >= data.num_depots:
                return "depot"
            if open_:
                return "crosses"
        elif a.type == C:
            if a.idx >= data.num_clients:
                return "client"
        else:
            if a.idx >= data.num_shipments:
                return "shipment"
            if a.type == P:
                if a.idx in open_ or a.idx in done:
                    return "pickup twice"
                open_.add(a.idx)
            else:
                if a.idx not in open_:
                    return "delivery without open pickup"
                open_.discard(a.idx)
                done.add(a.idx)
    if open_:
        return "unpaired"
    if trips > (1 + v.max_reloads if v.reload_depots else 1):
        return "trips"
    return None


def solution_ok(data, parts):
    if len(parts) > sum(v.num_available for v in data.vehicle_types()):
        return "too many routes"
    seen_c, seen_s, used = set(), set(), {}
    for t, acts in parts:
        if not any(a.type != D for a in acts):
            return "empty route"
        used[t] = used.get(t, 0) + 1
        for a in acts:
            if a.type == C:
                if a.idx in seen_c:
                    return "client twice"
                seen_c.add(a.idx)
            if a.type == P:
                if a.idx in seen_s:
                    return "shipment twice"
                seen_s.add(a.idx)
    for g in data.groups():
        if len(seen_c & set(g.clients)) > 1:
            return "group"
    for t, n in used.items():
        if n > data.vehicle_type(t).num_available:
            return "vehicles"
    return None


def accepted(f):
    try:
        f()
        return True, None
    except (ValueError, IndexError, RuntimeError) as e:
        return False, f"{type(e).__name__}: {e}"


def mutate(r, data, acts):
    acts = list(acts)
    for _ in range(r.randint(1, 2)):
        k = r.random()
        n = len(acts)
        if k < 0.2 and n:
            del acts[r.randrange(n)]
        elif k < 0.4 and n > 1:
            i, j = r.randrange(n), r.randrange(n)
            acts[i], acts[j] = acts[j], acts[i]
        elif k < 0.55:
            acts.insert(r.randint(0, n), act(D, r.randint(0, data.num_depots)))
        elif k < 0.7 and n:
            acts.insert(r.randint(0, n), r.choice(acts))
        elif k < 0.8:
            acts.insert(r.randint(0, n), act(C, r.randint(0, data.num_clients)))
        else:
            acts.insert(r.randint(0, n), act(r.choice([P, Q]), r.randint(0, data.num_shipments)))
    return acts


def case(r, ctx, i):
    data = gen.problem(r, ns=r.choice([0, 1, 2, 3]), reload=0.7, dims=1)
    ctx.note("data", gen.describe(data))
    # routes
    for _ in range(10):
        vt = r.randrange(data.num_vehicle_types)
        cl = r.sample(range(data.num_clients), r.randint(0, data.num_clients))
        sh = r.sample(range(data.num_shipments), r.randint(0, data.num_shipments))
        acts = gen.route_acts(r, data, vt, cl, sh)
        if r.random() < 0.7:
            acts = mutate(r, data, acts)
        why = route_ok(data, vt, acts)
        if r.random() < 0.02:
            vt, why = data.num_vehicle_types + r.choice([0, 1, 7]), "vehicle type"
        ctx.note("route", vt, gen.astr(acts), "invalid because", why)
        got, err = accepted(lambda: Route(data, acts, vt))
        ctx.eq(got, why is None, "route accepted", gen.astr(acts), "rule:", why, "error:", err)
        ctx.seen((i, vt, tuple(gen.astr(acts))))
        ctx.desc.pop()
    # solutions
    for _ in range(6):
        parts = gen.solution_parts(r, data)
        if r.random() < 0.6:
            k = r.random()
            if k < 0.25 and parts:
                parts.append(r.choice(parts))
            elif k < 0.4:
                parts.append((r.randrange(data.num_vehicle_types), []))
            elif k < 0.65 and data.num_clients:
                t = r.randrange(data.num_vehicle_types)
                parts.append((t, [act(C, r.randrange(data.num_clients))]))
            elif k < 0.75 and data.num_shipments:
                t, s = r.randrange(data.num_vehicle_types), r.randrange(data.num_shipments)
                parts.append((t, [act(P, s), act(Q, s)]))
            else:
                parts = [(r.randrange(data.num_vehicle_types), [a for a in p[1] if a.type != D]) for p in parts]
            r.shuffle(parts)
        why = solution_ok(data, parts)
        ctx.note("solution", [(t, gen.astr(a)) for t, a in parts], "invalid because", why)
        routes = [Route(data, a, t) for t, a in parts]
        got, err = accepted(lambda: Solution(data, routes))
        ctx.eq(got, why is None, "solution accepted", [(t, gen.astr(a)) for t, a in parts], "rule:", why, "error:", err)
        if all(t == 0 and all(a.type == C for a in acts) for t, acts in parts):
            got, err = accepted(lambda: Solution(data, [[a.idx for a in acts] for _, acts in parts]))
            ctx.eq(got, why is None, "solution accepted from lists", parts, err)
        ctx.seen((i, tuple((t, tuple(gen.astr(a))) for t, a in parts)))
        ctx.desc.pop()
    # random solutions
    rng = RandomNumberGenerator(seed=r.randrange(2**31))
    for _ in range(3):
        s = Solution.make_random(data, rng)
        parts = [(rt.vehicle_type(), [x for x in rt][1:-1]) for rt in s.routes()]
        ctx.note("random", [(t, gen.astr(a)) for t, a in parts])
        ctx.eq(solution_ok(data, parts), None, "random solution valid")
        for t, a in parts:
            ctx.eq(route_ok(data, t, a), None, "random route valid")
        seen = {a.idx for _, acts in parts for a in acts if a.type == C}
        ships = {a.idx for _, acts in parts for a in acts if a.type == P}
        for c, cd in enumerate(data.clients()):
            if cd.required:
                ctx.check(c in seen, "random solution misses required client", c)
        for c, sd in enumerate(data.shipments()):
            if sd.required:
                ctx.check(c in ships, "random solution misses required shipment", c)
        for g in data.groups():
            n = len(seen & set(g.clients))
            ctx.check(n <= 1 and (n == 1 or not g.required), "random solution visits group", g.clients, n, "times")
        ctx.seen((i, "random", tuple((t, tuple(gen.astr(a))) for t, a in parts)))
        ctx.desc.pop()
