"""Problem data: accepted exactly when the documented domain rules hold; stored values unchanged."""
import numpy as np
import gen
from gen import *
from pyvrp import PiecewiseLinearFunction  # noqa: F401

RULE = ("random argument lists with boundary values for every data class, and random single or double mutations of valid problems; accepted iff an independent restatement of the rules holds, "
        "and accepted objects report back what was passed; non-trivial when the object was accepted or rejected for exactly one reason")


def val(r, hi=20):
    return r.choice([0, 0, 1, r.randint(0, hi), r.randint(0, hi), r.randint(0, hi), -1, -r.randint(1, hi), MAX, 10**12])


def pos(r, hi=20):
    return r.choice([0, 1, r.randint(0, hi), r.randint(0, hi), MAX])


def vec(r, neg=0.1):
    return [(-r.randint(1, 5) if r.random() < neg else pos(r, 10)) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]


def pad(a, b):
    return list(a) + [0] * (max(len(a), len(b)) - len(a))


def attempt(ctx, cls, kw, bad, what):
    try:
        o = cls(**kw)
    except (ValueError, IndexError) as e:
        ctx.check(bad, f"{what} {kw} rejected ({e}), but no rule is violated")
        return None
    ctx.check(not bad, f"{what} {kw} accepted, although {bad}")
    return o


def name(r):
    return r.choice(["", "a", "some name", "x" * 40, "é"])


def same(ctx, o, want, what):
    for k, v in want.items():
        ctx.eq(getattr(o, k), v, f"{what}.{k}")


def tw_bad(e, l, s):
    return (e > l and "window ends before it starts") or (e < 0 and "window starts before 0") or (s < 0 and "negative service")


def client(r, ctx):
    kw = dict(location=r.randint(0, 5), delivery=vec(r), pickup=vec(r), service_duration=val(r), tw_early=val(r), tw_late=r.choice([MAX, val(r), val(r, 40)]),
              release_time=val(r), prize=val(r), required=r.random() < 0.5, group=r.choice([None, None, 0, r.randint(0, 9)]), name=name(r))
    if r.random() < 0.6:  # mostly valid, with at most one deviation
        a, b = sorted([r.randint(0, 40), r.randint(0, 40)])
        base = dict(delivery=vec(r, 0), pickup=vec(r, 0), service_duration=pos(r), tw_early=a, tw_late=b, release_time=r.randint(0, b), prize=pos(r))
        k = r.choice([None, *base])
        kw.update({x: y for x, y in base.items() if x != k})
    d, p = pad(kw["delivery"], kw["pickup"]), pad(kw["pickup"], kw["delivery"])
    bad = (any(x < 0 for x in d) and "negative delivery") or (any(x < 0 for x in p) and "negative pickup") or tw_bad(kw["tw_early"], kw["tw_late"], kw["service_duration"]) \
        or (not 0 <= kw["release_time"] <= kw["tw_late"] and "release outside") or (kw["prize"] < 0 and "negative prize")
    o = attempt(ctx, Client, kw, bad, "Client")
    if o:
        same(ctx, o, {**kw, "delivery": d, "pickup": p}, "client")
        ctx.eq(str(o), kw["name"], "str(client)")


def depot(r, ctx):
    a = pos(r, 30)
    kw = dict(location=r.randint(0, 5), tw_early=r.choice([val(r, 30), a]), tw_late=r.choice([val(r, 30), min(a + r.randint(0, 5), MAX)]), service_duration=r.choice([val(r), pos(r)]), name=name(r))
    o = attempt(ctx, Depot, kw, tw_bad(kw["tw_early"], kw["tw_late"], kw["service_duration"]), "Depot")
    if o:
        same(ctx, o, kw, "depot")


def shipment(r, ctx):
    def w(ok):
        if not ok:
            return val(r, 30), val(r, 30), val(r)
        a, b = sorted([r.randint(0, 30), r.randint(0, 30)])
        return a, r.choice([b, MAX]), pos(r)
    ok = r.random()
    p, d = w(ok < 0.8), w(ok < 0.8 or ok > 0.9)
    kw = dict(pickup_location=r.randint(0, 5), delivery_location=r.randint(0, 5), pickup_tw_early=p[0], pickup_tw_late=p[1], pickup_service_duration=p[2],
              delivery_tw_early=d[0], delivery_tw_late=d[1], delivery_service_duration=d[2], amount=vec(r, r.choice([0, 0.2])), prize=r.choice([val(r), pos(r)]), required=r.random() < 0.5, name=name(r))
    bad = tw_bad(*p) or tw_bad(*d) or (d[1] < p[0] and "delivery closes before the pickup opens") or (any(x < 0 for x in kw["amount"]) and "negative amount") or (kw["prize"] < 0 and "negative prize")
    o = attempt(ctx, Shipment, kw, bad, "Shipment")
    if o:
        same(ctx, o, {k: kw[k] for k in ("amount", "prize", "required", "name")}, "shipment")
        for st, x in ((o.pickup, p), (o.delivery, d)):
            ctx.eq((st.tw_early, st.tw_late, st.service_duration), x, "shipment step")
        ctx.eq((o.pickup.location, o.delivery.location), (kw["pickup_location"], kw["delivery_location"]), "shipment locations")


def group(r, ctx):
    mem = [r.randint(0, 6) for _ in range(r.randint(0, 4))]
    kw = dict(clients=mem, required=r.random() < 0.5, name=name(r))
    g = attempt(ctx, ClientGroup, kw, len(set(mem)) != len(mem) and "duplicate member", "ClientGroup")
    if g is None:
        return
    mem = list(mem)
    for _ in range(3):
        ctx.eq((list(g.clients), list(g), len(g), g.required, g.name, g.mutually_exclusive), (mem, mem, len(mem), kw["required"], kw["name"], True), "group")
        x = r.randint(0, 8)
        try:
            g.add_client(x)
            ctx.check(x not in mem, f"add_client({x}) accepted twice")
            mem.append(x)
        except ValueError:
            ctx.check(x in mem, f"add_client({x}) rejected")


VT = ["num_available", "capacity", "start_depot", "end_depot", "fixed_cost", "tw_early", "tw_late", "shift_duration", "max_distance", "unit_distance_cost", "unit_duration_cost", "profile",
      "start_late", "initial_load", "reload_depots", "max_reloads", "max_overtime", "unit_overtime_cost", "name"]


def vehicle_bad(kw):
    cap, ini = pad(kw["capacity"], kw["initial_load"]), pad(kw["initial_load"], kw["capacity"])
    sl = kw["tw_late"] if kw["start_late"] is None else kw["start_late"]
    return (kw["num_available"] == 0 and "no vehicles") or (any(x < 0 for x in cap) and "negative capacity") or (kw["tw_early"] > sl and "start_late < tw_early") \
        or (sl > kw["tw_late"] and "start_late > tw_late") or (kw["tw_early"] < 0 and "negative tw_early") or (any(x < 0 for x in ini) and "negative initial load") \
        or (any(i > c for i, c in zip(ini, cap)) and "initial load exceeds capacity") \
        or next((f"negative {k}" for k in ("shift_duration", "max_distance", "unit_distance_cost", "unit_duration_cost", "max_overtime", "unit_overtime_cost") if kw[k] < 0), False)


def vehicle_want(kw):
    w = dict(kw, capacity=pad(kw["capacity"], kw["initial_load"]), initial_load=pad(kw["initial_load"], kw["capacity"]))
    w["start_late"] = kw["tw_late"] if kw["start_late"] is None else kw["start_late"]
    w["max_duration"] = min(kw["shift_duration"] + kw["max_overtime"], MAX)
    w["max_trips"] = 1 if not kw["reload_depots"] else min(kw["max_reloads"] + 1, 2**64 - 1)
    return w


def vehicle_args(r):
    a, b, c = sorted([r.randint(0, 40) for _ in range(3)])
    cap = vec(r, 0)
    kw = dict(num_available=r.choice([1, 2, r.randint(1, 50), 2**31, 2**40]), capacity=cap, start_depot=r.randint(0, 3), end_depot=r.randint(0, 3), fixed_cost=val(r), tw_early=a,
              tw_late=r.choice([c, MAX]), shift_duration=pos(r, 99), max_distance=pos(r, 99), unit_distance_cost=pos(r), unit_duration_cost=pos(r), profile=r.randint(0, 2),
              start_late=r.choice([None, b]), initial_load=[r.randint(0, min(x, 9)) for x in cap[:r.randint(0, len(cap))]], reload_depots=[r.randint(0, 3) for _ in range(r.choice([0, 1, 2]))],
              max_reloads=r.choice([0, 1, r.randint(0, 9), 2**64 - 1]), max_overtime=pos(r, 50), unit_overtime_cost=pos(r), name=name(r))
    return kw


def bad_field(r, k):
    if k == "num_available":
        return r.choice([0, 1, 7])
    if k in ("capacity", "initial_load"):
        return vec(r, 0.3)
    if k in ("start_depot", "end_depot", "profile", "max_reloads"):
        return r.randint(0, 9)
    if k == "reload_depots":
        return [r.randint(0, 9) for _ in range(r.randint(0, 2))]
    if k == "start_late":
        return r.choice([None, val(r, 50)])
    if k == "name":
        return name(r)
    return val(r, 60)


def vehicle_(r, ctx):
    kw = vehicle_args(r)
    for k in r.sample(VT, r.choice([0, 1, 1, 2, 5])):
        kw[k] = bad_field(r, k)
    o = attempt(ctx, VehicleType, kw, vehicle_bad(kw), "VehicleType")
    if not o:
        return
    want = vehicle_want(kw)
    same(ctx, o, want, "vehicle type")
    # replace
    ch = {k: bad_field(r, k) for k in r.sample(VT, r.choice([0, 1, 1, 2, 3]))}
    ch = {k: v for k, v in ch.items() if v is not None}
    full = {k: want[k] for k in VT}
    full.update(ch)
    bad = vehicle_bad(full)
    try:
        n = o.replace(**ch)
    except ValueError as e:
        ctx.check(bad, f"replace({ch}) of {full} rejected ({e})")
        return
    ctx.check(not bad, f"replace({ch}) of {full} accepted, although {bad}")
    same(ctx, n, vehicle_want(full), f"vehicle type after replace({ch})")
    same(ctx, o, want, "vehicle type that was replaced")


# ------------------------------------------------------------------ problems
def parts_of(data):
    return dict(locations=list(data.locations()), clients=list(data.clients()), depots=list(data.depots()), vehicle_types=list(data.vehicle_types()),
                distance_matrices=[np.array(m) for m in data.distance_matrices()], duration_matrices=[np.array(m) for m in data.duration_matrices()], groups=list(data.groups()),
                shipments=list(data.shipments()))


def overlap(a, b):
    return a.tw_early <= b.tw_late and a.tw_late >= b.tw_early


def problem_bad(p):
    """All reasons to reject."""
    L, cs, ds, vs, gs, ss = p["locations"], p["clients"], p["depots"], p["vehicle_types"], p["groups"], p["shipments"]
    out = []
    if not ds:
        out.append("no depots")
    if not vs:
        out.append("no vehicle types")
    nd = len(vs[0].capacity) if vs else 0
    for i, c in enumerate(cs):
        if c.location >= len(L):
            out.append("client location")
        if len(c.delivery) != nd or len(c.pickup) != nd:
            out.append("client dimensions")
        if c.group is not None:
            if c.group >= len(gs):
                out.append("client group index")
            elif i not in list(gs[c.group].clients):
                out.append("client not in its group")
            elif c.required:
                out.append("required client in exclusive group")
    for d in ds:
        if d.location >= len(L):
            out.append("depot location")
    for k, g in enumerate(gs):
        if not list(g.clients):
            out.append("empty group")
        for m in g.clients:
            if m >= len(cs):
                out.append("group member index")
            elif cs[m].group != k:
                out.append("group member not in group")
    for s in ss:
        if s.pickup.location >= len(L) or s.delivery.location >= len(L):
            out.append("shipment location")
        if len(s.amount) != nd:
            out.append("shipment dimensions")
    for v in vs:
        if len(v.capacity) != nd:
            out.append("capacity dimensions")
        if v.start_depot >= len(ds):
            out.append("start depot")
        elif not overlap(ds[v.start_depot], v):
            out.append("start depot overlap")
        if v.end_depot >= len(ds):
            out.append("end depot")
        elif not overlap(ds[v.end_depot], v):
            out.append("end depot overlap")
        if v.profile >= len(p["distance_matrices"]):
            out.append("profile")
        if any(x >= len(ds) for x in v.reload_depots):
            out.append("reload depot")
    D1, D2 = p["distance_matrices"], p["duration_matrices"]
    if not D1 or not D2:
        out.append("no matrices")
    if len(D1) != len(D2):
        out.append("number of matrices")
    for m in D1 + D2:
        if m.shape != (len(L), len(L)):
            out.append("matrix shape")
        elif any(m[i, i] != 0 for i in range(len(L))):
            out.append("diagonal")
    return out


def rc(c, **kw):
    a = dict(location=c.location, delivery=c.delivery, pickup=c.pickup, service_duration=c.service_duration, tw_early=c.tw_early, tw_late=c.tw_late, release_time=c.release_time, prize=c.prize,
             required=c.required, group=c.group, name=c.name)
    a.update(kw)
    return Client(**a)


def rs(s, **kw):
    a = dict(pickup_location=s.pickup.location, delivery_location=s.delivery.location, pickup_tw_early=s.pickup.tw_early, pickup_tw_late=s.pickup.tw_late,
             pickup_service_duration=s.pickup.service_duration, delivery_tw_early=s.delivery.tw_early, delivery_tw_late=s.delivery.tw_late,
             delivery_service_duration=s.delivery.service_duration, amount=s.amount, prize=s.prize, required=s.required, name=s.name)
    a.update(kw)
    return Shipment(**a)


def mutate(r, p):
    """One random change; many make the problem invalid."""
    n = len(p["locations"])
    k = r.randrange(23)
    cs, ds, vs, gs, ss = p["clients"], p["depots"], p["vehicle_types"], p["groups"], p["shipments"]
    if not ds or not vs or not p["distance_matrices"] or not p["duration_matrices"]:
        return
    def pick(xs):
        return r.randrange(len(xs)) if xs else None
    i = pick(cs)
    if k == 0 and cs:
        cs[i] = rc(cs[i], location=max(n + r.choice([-1, 0, 1]), 0))
    elif k == 1 and cs:
        x = [1] * (len(cs[i].delivery) + r.choice([-1, 1]) if cs[i].delivery else 1)
        cs[i] = rc(cs[i], delivery=x, pickup=[0] * len(x))
    elif k == 2 and cs:
        cs[i] = rc(cs[i], group=r.choice([None, len(gs), r.randint(0, 3)]))
    elif k == 3 and cs:
        cs[i] = rc(cs[i], required=not cs[i].required)
    elif k == 4:
        p["depots"] = ds[:r.randint(0, len(ds) - 1)]
    elif k == 5:
        j = pick(ds)
        ds[j] = Depot(max(n + r.choice([-1, 0, 2]), 0), ds[j].tw_early, ds[j].tw_late, ds[j].service_duration)
    elif k == 6:
        gs.append(ClientGroup(r.sample(range(len(cs) + 1), r.randint(0, min(2, len(cs)))), r.random() < 0.5))
    elif k == 7 and gs:
        gs.pop(pick(gs))
    elif k == 8 and gs:
        j = pick(gs)
        mem = list(gs[j].clients)
        mem = mem[:-1] if r.random() < 0.5 else mem + [x for x in [r.randint(0, len(cs) + 1)] if x not in mem]
        gs[j] = ClientGroup(mem, gs[j].required)
    elif k == 9 and ss:
        j = pick(ss)
        ss[j] = rs(ss[j], **{r.choice(["pickup_location", "delivery_location"]): max(n + r.choice([-1, 0, 1]), 0)})
    elif k == 10 and ss:
        j = pick(ss)
        ss[j] = rs(ss[j], amount=[1] * r.randint(0, 4))
    elif k == 11:
        p["vehicle_types"] = []
    elif k == 12:
        j = pick(vs)
        vs[j] = vs[j].replace(capacity=[5] * r.randint(0, 4), initial_load=[])
    elif k == 13:
        j = pick(vs)
        vs[j] = vs[j].replace(**{r.choice(["start_depot", "end_depot"]): len(ds) + r.choice([-1, 0, 1])})
    elif k == 14:
        j = pick(vs)
        vs[j] = vs[j].replace(profile=len(p["distance_matrices"]) + r.choice([-1, 0, 1]))
    elif k == 15:
        j = pick(vs)
        vs[j] = vs[j].replace(reload_depots=[len(ds) + r.choice([-1, 0, 1])])
    elif k == 16:
        j = pick(ds)
        a = r.randint(0, 60)
        ds[j] = Depot(ds[j].location, a, a + r.randint(0, 20), ds[j].service_duration)
    elif k in (17, 18):
        m = r.choice([p["distance_matrices"], p["duration_matrices"]])
        j = pick(m)
        x = r.randrange(3)
        if x == 0:
            m.pop(j)
        elif x == 1:
            m[j] = np.zeros(r.choice([(n + 1, n + 1), (n, n + 1), (n + 1, n), (max(n - 1, 1), n)]), dtype=np.int64)
        else:
            q = m[j].copy()
            if min(q.shape):
                q[(r.randrange(min(q.shape)),) * 2] = r.choice([1, -1])
            m[j] = q
    elif k == 19:
        r.choice([p["distance_matrices"], p["duration_matrices"]]).append(np.zeros((n, n), dtype=np.int64))
    elif k == 20:
        p["locations"] = p["locations"][:-1] if r.random() < 0.5 else p["locations"] + [Location(1, 2)]
    elif k == 21:
        p["distance_matrices"], p["duration_matrices"] = [], r.choice([[], p["duration_matrices"]])
    elif k == 22:
        j = pick(vs)
        a = r.randint(0, 100)
        try:
            vs[j] = vs[j].replace(tw_early=a, tw_late=a + 5, start_late=a)
        except ValueError:
            pass


def check_data(ctx, data, p):
    ctx.eq((data.num_locations, data.num_clients, data.num_depots, data.num_groups, data.num_shipments, data.num_vehicle_types, data.num_vehicles, data.num_profiles, data.num_load_dimensions),
           (len(p["locations"]), len(p["clients"]), len(p["depots"]), len(p["groups"]), len(p["shipments"]), len(p["vehicle_types"]), sum(v.num_available for v in p["vehicle_types"]),
            len(p["distance_matrices"]), len(p["vehicle_types"][0].capacity)), "counts")
    for nm, one in (("locations", "location"), ("clients", "client"), ("depots", "depot"), ("groups", "group"), ("shipments", "shipment"), ("vehicle_types", "vehicle_type")):
        got = list(getattr(data, nm)())
        ctx.check(len(got) == len(p[nm]) and all(a == b for a, b in zip(got, p[nm])), f"{nm} are not those passed in")
        for k, x in enumerate(p[nm]):
            ctx.check(getattr(data, one)(k) == x, f"{one}({k}) is not the object passed in")
    for nm, one in (("distance_matrices", "distance_matrix"), ("duration_matrices", "duration_matrix")):
        for k, m in enumerate(p[nm]):
            ctx.check(np.array_equal(getattr(data, nm)()[k], m) and np.array_equal(getattr(data, one)(k), m), f"{nm}[{k}] is not the matrix passed in")
    tw = any(x.tw_early != 0 or x.tw_late != MAX for x in p["clients"] + p["depots"] + p["vehicle_types"] + [q for s in p["shipments"] for q in (s.pickup, s.delivery)]) \
        or any(v.start_late != MAX for v in p["vehicle_types"])
    ctx.eq(data.has_time_windows(), tw, "has_time_windows")
    for nm, one in (("locations", "location"), ("clients", "client"), ("depots", "depot"), ("shipments", "shipment")):
        try:
            getattr(data, one)(len(p[nm]))
            ctx.check(False, f"{one}({len(p[nm])}) does not exist but is returned")
        except IndexError:
            pass


def problem_(r, ctx):
    base = gen.problem(r, nc=r.randint(0, 5))
    if r.random() < 0.3:
        base = gen.strip(r, base, 0.9)
    p = parts_of(base)
    if r.random() < 0.1:
        p["vehicle_types"] = [v.replace(num_available=r.choice([2**31 - 1, 2**31, 2**33])) for v in p["vehicle_types"]]
    orig = {k: list(v) for k, v in p.items()}
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        mutate(r, p)
    bad = problem_bad(p)
    try:
        data = ProblemData(**p)
    except (ValueError, IndexError) as e:
        ctx.check(bad, f"problem rejected ({e}), but no rule is violated")
        data = None
    else:
        ctx.check(not bad, f"problem accepted, although: {bad}")
        check_data(ctx, data, p)
    # the same through replace
    ch = {k: v for k, v in p.items() if not (len(v) == len(orig[k]) and all(a is b for a, b in zip(v, orig[k])))}
    ch.update({k: orig[k] for k in r.sample(sorted(p), 1) if k not in ch})
    full = parts_of(base)
    full.update(ch)
    bad = problem_bad(full)
    try:
        rep = base.replace(**ch)
    except (ValueError, IndexError) as e:
        ctx.check(bad, f"replace({sorted(ch)}) rejected ({e}), but no rule is violated")
        return
    ctx.check(not bad, f"replace({sorted(ch)}) accepted, although: {bad}")
    check_data(ctx, rep, full)


def case(r, ctx, i):
    f = [client, depot, shipment, group, vehicle_, vehicle_, problem_, problem_, problem_][i % 9]
    for _ in range(4):
        f(r, ctx)
        ctx.seen((i, r.random()))
