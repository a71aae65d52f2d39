"""Copies and pickles equal the original in every public attribute; equality tells all defining fields apart."""
import copy
import inspect
import pickle
import numpy as np
import gen
from gen import *
from pyvrp import CostEvaluator, PiecewiseLinearFunction, ShipmentStep, ScheduledActivity
from pyvrp._pyvrp import DynamicBitset
import p_C10 as c10

RULE = ("random objects of every public data class: pickle (protocols 2-5), copy and deepcopy compared on every public attribute and argument-free method; "
        "single-field variations compared with ==; non-trivial when a variation was a valid object")

SCALAR = (int, float, str, bool, type(None))


def snap(x, depth=0):
    """Everything an object reports about itself."""
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, SCALAR):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, ActivityType):
        return str(x)
    if isinstance(x, (list, tuple)):
        return [snap(y, depth + 1) for y in x]
    if isinstance(x, DynamicBitset):
        return [x[i] for i in range(len(x))] + [len(x), x.count(), x.all(), x.any(), x.none()]
    out = {"class": type(x).__name__, "str": str(x) if not isinstance(x, (ProblemData, PiecewiseLinearFunction, ShipmentStep)) else ""}
    for n in dir(x):
        if n.startswith("_"):
            continue
        try:
            v = getattr(x, n)
            if callable(v):
                if n in ("replace", "clear", "add_client", "make_random"):
                    continue
                v = v()
        except TypeError:
            continue
        out[n] = snap(v, depth + 1)
    if hasattr(x, "__len__"):
        out["len"] = len(x)
    return out


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            d = diff(a.get(k), b.get(k), f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b and type(a) is type(b) else f"{path}: {a!r} became {b!r}"


def roundtrip(r, ctx, x, what, eq=True, copies=True):
    s = snap(x)
    for how in ("pickle", "copy", "deepcopy") if copies else ("pickle",):
        y = pickle.loads(pickle.dumps(x, r.choice([2, 3, 4, 5]))) if how == "pickle" else getattr(copy, how)(x)
        ctx.check(type(y) is type(x), f"{how} of {what} has another type")
        d = diff(s, snap(y))
        ctx.check(d is None, f"{how} of {what} differs at {d}")
        if eq:
            ctx.check(x == y and y == x and not (x != y), f"{how} of {what} is not equal to the original ({s})")
        d = diff(s, snap(x))
        ctx.check(d is None, f"{how} of {what} changed the original at {d}")
    return y


def vary(r, ctx, cls, kw, alt, what, norm=lambda k: k):
    """Objects equal exactly when their fields are."""
    a, b = cls(**kw), cls(**dict(kw))
    ctx.check(a == b and b == a, f"two {what} made from {kw} are not equal")
    for k in kw:
        for v in alt.get(k, []):
            kv = {**kw, k: v}
            try:
                c = cls(**kv)
            except (ValueError, IndexError, TypeError, OverflowError):
                continue
            same = norm(kv) == norm(kw)
            ctx.check((a == c) == same and (c == a) == same and (a != c) != same, f"{what} {kw} and with {k}={v!r}: == gives {a == c}, {c == a}, fields equal: {same}")
            ctx.seen((what, k, v if isinstance(v, SCALAR) else str(v)))
            try:
                if a == c:
                    ctx.check(hash(a) == hash(c), f"equal {what} with different hashes")
            except TypeError:
                pass


NAMES = ["", "a", "ab", "b", "some name"]


def alts(r, v):
    if isinstance(v, bool):
        return [v, not v]
    if isinstance(v, str):
        return [v, v + "x", r.choice(NAMES), v[:-1]]
    if isinstance(v, (int, float)):
        return [v, v + 1, v - 1, 0, 1, r.randint(0, 50), MAX]
    if isinstance(v, list):
        o = [v, v + [1], v[:-1], list(reversed(v))]
        if v:
            w = list(v)
            i = r.randrange(len(w))
            w[i] = w[i] + 1 if isinstance(w[i], int) else w[i]
            o.append(w)
        return o
    if v is None:
        return [None, 0, 1]
    return [v]


def c_location(r, ctx):
    kw = dict(x=r.choice([0, 1.5, -3, r.randint(-99, 99), r.random()]), y=r.choice([0, -0.25, r.randint(-99, 99)]), name=r.choice(NAMES))
    vary(r, ctx, Location, kw, dict(x=[kw["x"] + 1, -kw["x"], kw["y"], kw["x"]], y=[kw["y"] + 0.5, kw["x"], kw["y"]], name=alts(r, kw["name"])), "Location")
    vary(r, ctx, Location, dict(kw, x=kw["y"], y=kw["x"]), dict(name=[kw["name"]]), "Location")
    roundtrip(r, ctx, Location(**kw), "Location")


def c_client(r, ctx):
    a, b = sorted([r.randint(0, 40), r.randint(0, 40)])
    kw = dict(location=r.randint(0, 5), delivery=c10.vec(r, 0), pickup=c10.vec(r, 0), service_duration=c10.pos(r), tw_early=a, tw_late=r.choice([b, MAX]), release_time=r.randint(0, b),
              prize=c10.pos(r), required=r.random() < 0.5, group=r.choice([None, 0, 1, 7]), name=r.choice(NAMES))
    alt = {k: alts(r, v) for k, v in kw.items()}
    alt["group"] = [None, 0, 1, 7]
    vary(r, ctx, Client, kw, alt, "Client", lambda k: {**k, "delivery": c10.pad(k["delivery"], k["pickup"]), "pickup": c10.pad(k["pickup"], k["delivery"])})
    roundtrip(r, ctx, Client(**kw), "Client")


def c_depot(r, ctx):
    a, b = sorted([r.randint(0, 40), r.randint(0, 40)])
    kw = dict(location=r.randint(0, 5), tw_early=a, tw_late=r.choice([b, MAX]), service_duration=c10.pos(r), name=r.choice(NAMES))
    vary(r, ctx, Depot, kw, {k: alts(r, v) for k, v in kw.items()}, "Depot")
    roundtrip(r, ctx, Depot(**kw), "Depot")


def c_shipment(r, ctx):
    def w():
        a, b = sorted([r.randint(0, 30), r.randint(0, 30)])
        return a, r.choice([b, MAX]), c10.pos(r)
    p, q = w(), w()
    kw = dict(pickup_location=r.randint(0, 5), delivery_location=r.randint(0, 5), pickup_tw_early=p[0], pickup_tw_late=p[1], pickup_service_duration=p[2],
              delivery_tw_early=q[0], delivery_tw_late=q[1], delivery_service_duration=q[2], amount=c10.vec(r, 0), prize=c10.pos(r), required=r.random() < 0.5, name=r.choice(NAMES))
    try:
        s = Shipment(**kw)
    except ValueError:
        return
    vary(r, ctx, Shipment, kw, {k: alts(r, v) for k, v in kw.items()}, "Shipment")
    t = roundtrip(r, ctx, s, "Shipment")
    st = lambda x: (x.location, x.tw_early, x.tw_late, x.service_duration)
    for a in (s.pickup, s.delivery):
        roundtrip(r, ctx, a, "ShipmentStep")
        for b in (t.pickup, t.delivery):
            ctx.check((a == b) == (st(a) == st(b)), f"shipment steps {st(a)} and {st(b)}: == gives {a == b}")
    for k, v in (("location", 1), ("tw_early", 1), ("tw_late", 1), ("service_duration", 1)):
        try:
            kv = dict(kw)
            kv["pickup_" + k] += v
            o = Shipment(**kv).pickup
            ctx.check(o != s.pickup and s.pickup != o, f"shipment steps that differ in {k} are equal")
        except (ValueError, TypeError, OverflowError):
            pass


def c_group(r, ctx):
    kw = dict(clients=r.sample(range(9), r.randint(0, 4)), required=r.random() < 0.5, name=r.choice(NAMES))
    vary(r, ctx, ClientGroup, kw, {k: alts(r, v) for k, v in kw.items()}, "ClientGroup")
    g = ClientGroup(**kw)
    for _ in range(r.randint(0, 2)):
        try:
            g.add_client(r.randint(0, 12))
        except ValueError:
            pass
    h = roundtrip(r, ctx, g, "ClientGroup")
    h.add_client(99)
    ctx.check(g != h and 99 not in g.clients, "a copy of a group shares its members with the original")


def c_vehicle(r, ctx):
    kw = c10.vehicle_args(r)
    alt = {k: alts(r, v) for k, v in kw.items()}
    alt["start_late"] = [None, kw["tw_early"], kw["tw_late"], kw["tw_early"] + 1]
    vary(r, ctx, VehicleType, kw, alt, "VehicleType", lambda k: {n: v for n, v in c10.vehicle_want(k).items() if n in c10.VT})
    roundtrip(r, ctx, VehicleType(**kw), "VehicleType")


def c_activity(r, ctx):
    t, i = r.choice([D, C, P, Q]), r.choice([0, 1, 7, r.randint(0, 10**6), 2**63])
    vary(r, ctx, Activity, dict(type=t, idx=i), dict(type=[D, C, P, Q], idx=[i, i + 1, 0, i ^ 64]), "Activity")
    a = Activity(t, i)
    roundtrip(r, ctx, a, "Activity")
    ctx.check(Activity(str(a)) == a, f"Activity(str(a)) != a for {a}")
    ctx.eq((a.is_depot(), a.is_client(), a.is_pickup(), a.is_delivery(), a.is_shipment()), (t == D, t == C, t == P, t == Q, t in (P, Q)), f"type predicates of {a}")


def c_bitset(r, ctx):
    n = r.choice([0, 1, 63, 64, 65, 128, r.randint(0, 400)])
    b = DynamicBitset(n)
    for _ in range(r.randint(0, 20)):
        if len(b):
            b[r.randrange(len(b))] = r.random() < 0.8
    c = roundtrip(r, ctx, b, "DynamicBitset")
    if len(b):
        i = r.randrange(len(b))
        c[i] = not c[i]
        ctx.check(b != c, "a copy of a bit set with one bit flipped is equal")
        ctx.seen(("bits", n, i))


def c_pwl(r, ctx):
    n = r.randint(1, 4)
    bp = sorted(r.sample(range(-50, 50), n))
    sg = [(r.randint(-9, 9), r.randint(-9, 9)) for _ in range(n + 1)]
    try:
        f = PiecewiseLinearFunction(bp, sg)
    except ValueError:
        return
    roundtrip(r, ctx, f, "PiecewiseLinearFunction")
    vary(r, ctx, PiecewiseLinearFunction, dict(breakpoints=bp, segments=sg),
         dict(breakpoints=[[x + (i == k) for i, x in enumerate(bp)] for k in range(n)], segments=[[(a + (i == k), b + (i == k and k % 2)) for i, (a, b) in enumerate(sg)] for k in range(n + 1)]), "PiecewiseLinearFunction")


def c_problem(r, ctx):
    data = gen.problem(r, nc=r.randint(0, 5))
    ctx.note(describe(data))
    other = roundtrip(r, ctx, data, "ProblemData", copies=r.random() < 0.5)
    p = c10.parts_of(data)
    same = ProblemData(**p)
    ctx.check(same == data and data == same, "problems made from the same parts are not equal")
    for k in list(p):
        q = {x: list(v) for x, v in p.items()}
        if not q[k]:
            continue
        i = r.randrange(len(q[k]))
        o = q[k][i]
        try:
            if k == "locations":
                q[k][i] = Location(o.x + 1, o.y, name=o.name)
            elif k == "clients":
                kw = {f: getattr(o, f) for f in ("location", "delivery", "pickup", "service_duration", "tw_early", "tw_late", "release_time", "prize", "required", "group", "name")}
                f = r.choice(["service_duration", "prize", "name", "tw_early", "release_time"])
                kw[f] = kw[f] + "x" if f == "name" else kw[f] + 1
                q[k][i] = Client(**kw)
            elif k == "depots":
                q[k][i] = Depot(o.location, o.tw_early, o.tw_late, o.service_duration + 1, name=o.name)
            elif k == "vehicle_types":
                q[k][i] = o.replace(fixed_cost=o.fixed_cost + 1)
            elif k == "groups":
                q[k][i] = ClientGroup(o.clients, not o.required, name=o.name)
            elif k == "shipments":
                q[k][i] = Shipment(o.pickup.location, o.delivery.location, o.pickup.tw_early, o.pickup.tw_late, o.pickup.service_duration + 1, o.delivery.tw_early, o.delivery.tw_late,
                                   o.delivery.service_duration, o.amount, o.prize, o.required, name=o.name)
            else:
                if len(p["locations"]) < 2:
                    continue
                m = o.copy()
                m[0, 1] += 1
                q[k][i] = m
            d2 = ProblemData(**q)
        except ValueError:
            continue
        ctx.check(d2 != data and data != d2, f"problems that differ in {k}[{i}] are equal")
        ctx.seen(("problem", k))
    # further use of the copy
    parts = solution_parts(r, data)
    if parts:
        t, a = r.choice(parts)
        d = diff(snap(Route(data, a, t)), snap(Route(other, a, t)))
        ctx.check(d is None, f"a route made with an unpickled problem differs at {d}")


def c_solution(r, ctx):
    data = gen.problem(r)
    ctx.note(describe(data))
    parts = solution_parts(r, data)
    ctx.note([(t, astr(a)) for t, a in parts])
    routes = [Route(data, a, t) for t, a in parts]
    for x in routes[:2]:
        y = roundtrip(r, ctx, x, "Route")
        for s in x.schedule()[:4]:
            roundtrip(r, ctx, s, "ScheduledActivity")
    sol = Solution(data, routes)
    y = roundtrip(r, ctx, sol, "Solution")
    ctx.eq(hash(y), hash(sol), "hash of a copied solution")
    ce = CostEvaluator([r.randint(0, 9) for _ in range(data.num_load_dimensions)], r.randint(0, 9), r.randint(0, 9))
    ctx.eq((ce.penalised_cost(y), ce.cost(y)), (ce.penalised_cost(sol), ce.cost(sol)), "cost of a copied solution")
    ctx.check(Solution(data, y.routes()) == sol, "a solution made of unpickled routes is not equal")
    perm = list(routes)
    r.shuffle(perm)
    ctx.check(Solution(data, perm) == sol, "the order of routes matters for equality of solutions")
    # variations of the routes
    key = lambda ps: sorted((t, tuple(astr(a))) for t, a in ps)
    for _ in range(3):
        ps = [(t, list(a)) for t, a in parts]
        x = r.random()
        try:
            if ps and x < 0.4:
                i = r.randrange(len(ps))
                if len(ps[i][1]) > 1:
                    j = r.randrange(len(ps[i][1]) - 1)
                    ps[i][1][j], ps[i][1][j + 1] = ps[i][1][j + 1], ps[i][1][j]
            elif ps and x < 0.6:
                i = r.randrange(len(ps))
                ps[i] = (r.randrange(data.num_vehicle_types), ps[i][1])
            elif ps and x < 0.8:
                del ps[r.randrange(len(ps))]
            else:
                ps = solution_parts(r, data)
            rs = [Route(data, a, t) for t, a in ps]
            o = Solution(data, rs)
        except (RuntimeError, ValueError, IndexError):
            continue
        same = key(ps) == key(parts)
        ctx.check((o == sol) == same and (sol == o) == same, f"solutions {key(ps)} and {key(parts)}: == gives {o == sol}")
        if same:
            ctx.eq(hash(o), hash(sol), "hash of equal solutions")
        for (t, a), x in zip(ps, rs):
            for (t2, a2), z in zip(parts, routes):
                e = (t, astr(a)) == (t2, astr(a2))
                ctx.check((x == z) == e, f"routes {t} {astr(a)} and {t2} {astr(a2)}: == gives {x == z}")
        ctx.seen(("solution", str(key(ps))))


KINDS = [c_location, c_client, c_depot, c_shipment, c_group, c_vehicle, c_vehicle, c_activity, c_bitset, c_pwl, c_problem, c_problem, c_solution, c_solution, c_solution]


def case(r, ctx, i):
    KINDS[i % len(KINDS)](r, ctx)
