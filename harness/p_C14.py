"""Granular neighbourhoods: closest admissible activities; search space bookkeeping."""
import sys
import gen
from gen import *
from pyvrp import RandomNumberGenerator
from pyvrp.search import LocalSearch, NeighbourhoodParams, compute_neighbours
from pyvrp.search._search import Node, Route as SRoute, SearchSpace

RULE = ("random problems with shipments, groups, profiles and windows; neighbour lists compared with an independently computed proximity; random histories of marks on search spaces; "
        "random malformed neighbourhoods; non-trivial when some list is non-empty")
INF = sys.float_info.max


def step(data, a):
    if a.type == C:
        c = data.client(a.idx)
        return c
    s = data.shipment(a.idx)
    return s.pickup if a.type == P else s.delivery


def arc(data, v, par, f, t):
    dur = float(data.duration_matrix(v.profile)[f.location, t.location])
    dist = float(data.distance_matrix(v.profile)[f.location, t.location])
    serv, fe, fl, te, tl = (float(x) for x in (f.service_duration, f.tw_early, f.tw_late, t.tw_early, t.tw_late))
    if fe + serv + dur > tl:
        return INF
    wait = max(te - dur - serv - fl, 0.0)
    return float(v.unit_distance_cost) * dist + float(v.unit_duration_cost) * (dur + wait) + par.weight_wait_time * wait


def proximity(data, par, a, b):
    if a.type == C and b.type == C:
        ga = data.client(a.idx).group
        if ga is not None and ga == data.client(b.idx).group:
            return INF
    srcs = [step(data, a)] if a.type == C else [data.shipment(a.idx).pickup, data.shipment(a.idx).delivery]
    best = INF
    for v in data.vehicle_types():
        for f in srcs:
            best = min(best, arc(data, v, par, f, step(data, b)))
            if par.symmetric_proximity:
                best = min(best, arc(data, v, par, step(data, b), f))
    return best


def leq(x, y):
    return x <= y or x - y <= 1e-9 * max(abs(x), abs(y), 1.0)


def neighbourhood(r, ctx):
    data = gen.problem(r, nc=r.choice([None, 0, 1, 2, 12]))
    if r.random() < 0.4:
        data = gen.strip(r, data)
    nc, ns = data.num_clients, data.num_shipments
    ctx.note(describe(data))
    k = r.choice([1, 2, 3, r.randint(1, 30), 50, 2**40])
    w, sym = r.choice([0, 0.2, 1, 2.5, 10]), r.random() < 0.5
    par = NeighbourhoodParams(w, k, sym)
    ctx.eq((par.weight_wait_time, par.num_neighbours, par.symmetric_proximity), (w, k, sym), "neighbourhood parameters")
    ctx.note("parameters", w, k, sym)
    nb = compute_neighbours(data, par)
    keys = [act(C, i) for i in range(nc)] + [act(P, i) for i in range(ns)]
    ctx.eq(sorted(map(str, nb)), sorted(map(str, keys)), "activities with a neighbourhood")
    every = keys + [act(Q, i) for i in range(ns)]
    size = min(k, max(nc, 1) - 1 + max(2 * ns, 2) - 2)
    for a in keys:
        lst = list(nb[a])
        adm = [b for b in every if b != a and not (a.type == P and b == act(Q, a.idx))]
        names = set(map(str, adm))
        ctx.check(len(set(map(str, lst))) == len(lst), f"neighbours of {a} contain duplicates: {list(map(str, lst))}")
        ctx.check(all(str(b) in names for b in lst), f"neighbours of {a} contain an inadmissible activity: {list(map(str, lst))}")
        ctx.check(size <= len(lst) <= k, f"{a} has {len(lst)} neighbours, expected {size}")
        px = [proximity(data, par, a, b) for b in lst]
        for x, y in zip(px, px[1:]):
            ctx.check(leq(x, y), f"neighbours of {a} are not ordered by proximity: {list(zip(map(str, lst), px))}")
        inside = set(map(str, lst))
        out = [(proximity(data, par, a, b), str(b)) for b in adm if str(b) not in inside]
        if out and px:
            ctx.check(leq(px[-1], min(out)[0]), f"{min(out)[1]} at {min(out)[0]} is closer to {a} than its listed neighbour {lst[-1]} at {px[-1]}")
        if lst:
            ctx.seen((str(a), tuple(px), k))
    return data, nb


def bad_neighbours(r, data, nb):
    """(neighbours, acceptable)"""
    nb = {a: list(v) for a, v in nb.items()}
    x = r.randrange(7)
    ok = True
    if x == 0 and nb:
        del nb[r.choice(list(nb))]
        ok = False
    elif x == 1:
        nb[act(C, data.num_clients + 3)] = []
        ok = False
    elif x == 2 and nb:
        a = r.choice(list(nb))
        nb[a].insert(r.randint(0, len(nb[a])), a)
        ok = False
    elif x == 3 and nb:
        a = r.choice(list(nb))
        del nb[a]
        nb[act(r.choice([D, Q]), 0)] = []
        ok = False
    elif x == 4:
        nb = {a: [] for a in nb}
    elif x == 5:
        for a in nb:
            r.shuffle(nb[a])
            nb[a] = nb[a][:r.randint(0, 3)]
    return nb, ok


def fmt(nb):
    return {str(a): list(map(str, v)) for a, v in nb.items()}


def setting(r, ctx, data, nb):
    for make in (lambda n: SearchSpace(data, n), lambda n: LocalSearch(data, RandomNumberGenerator(1), n)):
        n2, ok = bad_neighbours(r, data, nb)
        try:
            o = make(n2)
            ctx.check(ok, f"malformed neighbourhood accepted: {fmt(n2)}")
            ctx.eq(fmt(o.neighbours), fmt(n2), "neighbours reported after construction")
        except RuntimeError as e:
            ctx.check(not ok, f"valid neighbourhood rejected ({e}): {fmt(n2)}")
        o = make(nb)
        cur = nb
        for _ in range(3):
            n2, ok = bad_neighbours(r, data, nb)
            try:
                o.neighbours = n2
                # an empty neighbourhood can be set from scratch only for problems without activities
                ctx.check(ok or (not nb and not any(a.type not in (C, P) or a in v for a, v in n2.items())), f"malformed neighbourhood accepted: {fmt(n2)}")
                if not ok:
                    return
                cur = n2
            except RuntimeError as e:
                ctx.check(not ok, f"valid neighbourhood rejected ({e}): {fmt(n2)}")
            ctx.eq(fmt(o.neighbours), fmt(cur), "neighbours reported after setting")
            if isinstance(o, SearchSpace):
                for a, v in cur.items():
                    ctx.eq(list(map(str, o.neighbours_of(a))), list(map(str, v)), f"neighbours_of({a})")


def marks(r, ctx, data, nb):
    sp = SearchSpace(data, nb)
    units = [("c", i) for i in range(data.num_clients)] + [("s", i) for i in range(data.num_shipments)]
    every = [act(C, i) for i in range(data.num_clients)] + [act(t, i) for i in range(data.num_shipments) for t in (P, Q)]
    key = lambda a: ("c" if a.type == C else "s", a.idx)
    want = {key(a) for a in every if sp.is_promising(a)}
    ctx.check(want in (set(), set(units)), "a new search space has a partial set of promising visits")
    route = None
    parts = solution_parts(r, data)
    if parts:
        t, acts = r.choice(parts)
        route = SRoute(data, t)
        for a in acts:
            route.append(Node(a))
        route.update()
    rng = RandomNumberGenerator(r.randint(1, 10**6))
    for _ in range(r.randint(1, 25)):
        x = r.random()
        if x < 0.12:
            sp.unmark_all_promising()
            want = set()
        elif x < 0.2:
            sp.mark_all_promising()
            want = set(units)
        elif x < 0.55 and every:
            a = r.choice(every)
            sp.mark_promising(a)
            want = want | {key(a)}
        elif x < 0.9 and route is not None:
            i = r.randrange(len(route))
            sp.mark_promising(route[i])
            want = want | {key(route[j].activity) for j in (i - 1, i, i + 1) if 0 <= j < len(route) and route[j].activity.type != D}
        else:
            sp.shuffle(rng)
            ctx.eq(sorted(map(str, sp.activity_order())), sorted(str(a) for a in every if a.type != Q), "activity order")
            offs, o = [], 0
            for t, v in enumerate(data.vehicle_types()):
                offs.append((t, o))
                o += v.num_available
            ctx.eq(sorted(sp.veh_type_order()), offs, "vehicle type order")
        got = {key(a) for a in every if sp.is_promising(a)}
        ctx.eq({key(a) for a in every if sp.is_promising(a) and not (a.type == Q and key(a) not in got)}, want, "promising visits")
        for a in every:
            ctx.eq(sp.is_promising(a), key(a) in want, f"is_promising({a})")
        ctx.seen(("marks", len(want), x < 0.5))


def case(r, ctx, i):
    if i % 50 == 0:
        for k in (0,):
            try:
                NeighbourhoodParams(0.2, k)
                ctx.check(False, "num_neighbours = 0 accepted")
            except ValueError:
                pass
    data, nb = neighbourhood(r, ctx)
    if r.random() < 0.5:
        setting(r, ctx, data, nb)
    else:
        marks(r, ctx, data, nb)
