"""The modelling interface: the data built is exactly what was described."""
import warnings
import numpy as np
import gen
from gen import *
from pyvrp import Model
from pyvrp.constants import MAX_VALUE
from p_C11 import snap, diff

warnings.simplefilter("ignore")
RULE = ("random sequences of modelling calls (additions interleaved, equal-looking objects, foreign references, repeated edges, several exports) against an independent record of what was added; "
        "non-trivial when the built data has at least one client or shipment")


class Ref:
    def __init__(self):
        self.locs, self.clients, self.depots, self.groups, self.ships, self.vts, self.profs = [], [], [], [], [], [], []
        self.edges = []  # (profile index or None, from, to, distance, duration)


def pick(r, objs, foreign):
    """(object, index) or a foreign object."""
    if objs and r.random() > 0.01:
        i = r.randrange(len(objs))
        return objs[i], i
    return foreign, None


def build(r, ctx):
    m, ref = Model(), Ref()
    alien = Model()
    al = alien.add_location(0, 0)
    ad, ag, ap = alien.add_depot(al), alien.add_client_group(), alien.add_profile()
    def add_loc():
        kw = dict(x=r.randint(0, 2), y=r.randint(0, 2), name=r.choice(["", "l"]))
        ref.locs.append((m.add_location(**kw), kw))
    def lst(v):
        return [v] if isinstance(v, int) else v
    nd = r.choice([0, 1, 1, 2])
    def load(x=9):
        if r.random() < 0.005:
            return [1, 2, 3]
        return [] if nd == 0 else r.choice([r.randint(0, x), [r.randint(0, x)]]) if nd == 1 else [r.randint(0, x), r.randint(0, x)]
    def attempt(f, kw, bad, what):
        try:
            o = f(**kw)
        except ValueError as e:
            ctx.check(bad, f"{what} rejected: {e} ({ {k: str(v) for k, v in kw.items()} })")
            return None
        ctx.check(not bad, f"{what} accepted although it refers to something that is not in the model, or breaks a rule ({ {k: str(v) for k, v in kw.items()} })")
        return o
    def add_client():
        l, li = pick(r, [x for x, _ in ref.locs], al)
        g, gi = (None, None) if r.random() < 0.6 else pick(r, [x for x, _ in ref.groups], ag)
        e = r.randint(0, 20)
        kw = dict(location=l, delivery=load(), pickup=load() if r.random() < 0.5 else [], service_duration=r.randint(0, 9), tw_early=e, tw_late=e + r.randint(0, 50), release_time=r.randint(0, e), prize=r.randint(0, 9),
                  required=r.random() < (0.1 if g is not None else 0.6), group=g, name=r.choice(["", "c"]))
        bad = li is None or (g is not None and gi is None) or (g is not None and kw["required"])
        c = attempt(m.add_client, kw, bad, "client")
        if c is not None:
            if gi is not None:
                ref.groups[gi][1]["clients"].append(len(ref.clients))
            ref.clients.append((c, dict(kw, location=li, group=gi, delivery=lst(kw["delivery"]), pickup=lst(kw["pickup"]))))
    def add_depot():
        l, li = pick(r, [x for x, _ in ref.locs], al)
        e = r.randint(0, 5)
        kw = dict(location=l, tw_early=e, tw_late=e + r.randint(20, 100), service_duration=r.randint(0, 5), name=r.choice(["", "d"]))
        d = attempt(m.add_depot, kw, li is None, "depot")
        if d is not None:
            ref.depots.append((d, dict(kw, location=li)))
    def add_ship():
        (a, ai), (b, bi) = pick(r, [x for x, _ in ref.locs], al), pick(r, [x for x, _ in ref.locs], al)
        kw = dict(pickup_location=a, delivery_location=b, pickup_tw_early=r.randint(0, 5), pickup_tw_late=r.randint(5, 50), pickup_service_duration=r.randint(0, 5),
                  delivery_tw_early=r.randint(0, 30), delivery_tw_late=r.randint(30, 90), delivery_service_duration=r.randint(0, 5), amount=load(), prize=r.randint(0, 9),
                  required=r.random() < 0.5, name=r.choice(["", "s"]))
        s = attempt(m.add_shipment, kw, ai is None or bi is None, "shipment")
        if s is not None:
            ref.ships.append((s, dict(kw, pickup_location=ai, delivery_location=bi, amount=lst(kw["amount"]))))
    def add_group():
        kw = dict(required=r.random() < 0.5, name=r.choice(["", "g"]))
        ref.groups.append((m.add_client_group(**kw), dict(kw, clients=[])))
    def add_profile():
        n = r.choice(["", "p"])
        p = m.add_profile(name=n)
        ref.profs.append((p, n))
    def add_edge():
        (a, ai), (b, bi) = (r.choice(ref.locs)[0], 0), (r.choice(ref.locs)[0], 0)
        ai = next(i for i, (x, _) in enumerate(ref.locs) if x is a)
        bi = next(i for i, (x, _) in enumerate(ref.locs) if x is b)
        dist, dur = r.choice([0, r.randint(0, 99), r.randint(0, 99), -1 if r.random() < 0.1 else 3]), r.choice([None, 0, r.randint(0, 99)])
        if ai == bi and r.random() < 0.8:
            dist, dur = 0, r.choice([None, 0])
        p, pi = (None, None) if not ref.profs or r.random() < 0.5 else pick(r, [x for x, _ in ref.profs], ref.profs[0][0])
        if p is not None and pi is None:
            pi = 0
        kw = dict(frm=a, to=b, distance=dist)
        if dur is not None:
            kw["duration"] = dur
        d = dur or 0
        bad = dist < 0 or d < 0 or (ai == bi and (dist or d))
        f = m.add_edge
        if p is not None and r.random() < 0.5:
            f = p.add_edge
        else:
            kw["profile"] = p
        e = attempt(f, kw, bad, "edge")
        if e is not None:
            ctx.check(e.frm is a and e.to is b and e.distance == dist and e.duration == d, "the edge returned is not the edge added")
            ref.edges.append((pi, ai, bi, dist, d))
    def add_vt():
        kw, want = {}, {}
        def opt(k, v, p=0.5, w=None):
            if r.random() < p:
                kw[k] = v
                want[k] = v if w is None else w
        bad = False
        for k in ("start_depot", "end_depot"):
            if r.random() < 0.5:
                d, di = pick(r, [x for x, _ in ref.depots], ad)
                bad |= di is None
                kw[k], want[k] = d, di
        if r.random() < 0.5:
            p, pi = pick(r, [x for x, _ in ref.profs], ap)
            bad |= pi is None
            kw["profile"], want["profile"] = p, pi
        if r.random() < 0.4:
            ds = [pick(r, [x for x, _ in ref.depots], ad) for _ in range(r.randint(0, 3))]
            bad |= any(i is None for _, i in ds)
            kw["reload_depots"], want["reload_depots"] = [x for x, _ in ds], [i for _, i in ds]
        cap = load(30)
        kw["capacity"], want["capacity"] = cap, lst(cap)
        opt("initial_load", 0, 0.2 if nd == 1 else 0, [0])
        opt("num_available", r.randint(1, 4))
        opt("fixed_cost", r.randint(0, 99))
        opt("tw_early", r.randint(0, 5))
        opt("tw_late", r.randint(20, 100))
        opt("shift_duration", r.randint(0, 100))
        opt("max_distance", r.randint(0, 100))
        opt("unit_distance_cost", r.randint(0, 5))
        opt("unit_duration_cost", r.randint(0, 5))
        opt("start_late", r.randint(6, 20), 0.3)
        opt("max_reloads", r.randint(0, 5))
        opt("max_overtime", r.randint(0, 5))
        opt("unit_overtime_cost", r.randint(0, 5))
        opt("name", r.choice(["", "v"]))
        v = attempt(m.add_vehicle_type, kw, bad, "vehicle type")
        if v is not None:
            ref.vts.append((v, want))
    for _ in range(r.randint(1, 5)):
        add_loc()
    add_depot()
    ops = [add_loc, add_client, add_client, add_client, add_depot, add_ship, add_group, add_profile, add_edge, add_edge, add_edge, add_vt]
    wt = [r.random() for _ in ops]
    wt[6] /= 4
    for _ in range(r.randint(3, 30)):
        r.choices(ops, wt)[0]()
        if r.random() < 0.05:
            export(r, ctx, m, ref)
    if not ref.vts:
        add_vt()
    return m, ref


VDEF = dict(num_available=1, start_depot=0, end_depot=0, fixed_cost=0, tw_early=0, tw_late=MAX, shift_duration=MAX, max_distance=MAX, unit_distance_cost=1, unit_duration_cost=0, profile=0,
            initial_load=[], reload_depots=[], max_reloads=2**64 - 1, max_overtime=0, unit_overtime_cost=0, name="")


def expected(ref, missing):
    n = len(ref.locs)
    fill = min(missing, MAX_VALUE)
    def base():
        a = np.full((n, n), fill, dtype=np.int64)
        np.fill_diagonal(a, 0)
        return a
    profs = range(max(len(ref.profs), 1))
    dist, dur = [base() for _ in profs], [base() for _ in profs]
    for own in (False, True):  # profile edges go first
        for p, i, j, d, t in ref.edges:
            for q in profs:
                if (own and p == q) or (not own and p is None):
                    dist[q][i, j], dur[q][i, j] = d, t
    vts = []
    for _, w in ref.vts:
        k = {**VDEF, **w}
        k.setdefault("start_late", k["tw_late"])
        vts.append(VehicleType(**k))
    return ProblemData([Location(**k) for _, k in ref.locs], [Client(**k) for _, k in ref.clients], [Depot(**k) for _, k in ref.depots], vts, dist, dur,
                       [ClientGroup(**k) for _, k in ref.groups], [Shipment(**k) for _, k in ref.ships])


def export(r, ctx, m, ref):
    missing = r.choice([MAX_VALUE, MAX_VALUE * 2, 10**6, 0, None])
    mv = MAX_VALUE if missing is None else missing
    try:
        want = expected(ref, mv)
    except (ValueError, IndexError) as e:
        want = None
    try:
        data = m.data() if missing is None else m.data(missing_value=missing)
    except (ValueError, IndexError) as e:
        ctx.check(want is None, f"data() failed: {e}")
        return None
    ctx.check(want is not None, "data() accepted an invalid problem")
    d = diff(snap(want), snap(data))
    ctx.check(d is None, f"the data built differs from what was described at {d}")
    ctx.check(data == want, "the data built is not equal to what was described")
    for what, got, exp in (("locations", m.locations, ref.locs), ("clients", m.clients, ref.clients), ("depots", m.depots, ref.depots), ("groups", m.groups, ref.groups), ("shipments", m.shipments, ref.ships),
                           ("vehicle types", m.vehicle_types, ref.vts), ("profiles", m.profiles, ref.profs)):
        ctx.check(len(got) == len(exp) and all(a is b for a, (b, _) in zip(got, exp)), f"the model's {what} are not the objects returned when adding them")
    return data


def imported(r, ctx, data):
    s = snap(data)
    m = Model.from_data(data)
    back = m.data()
    d = diff(s, snap(back))
    ctx.check(d is None and back == data, f"data changed by importing and exporting at {d}")
    # changing the model must not change the data it was made from
    l = m.add_location(5, 5)
    m.add_depot(l)
    m.add_client(m.locations[0], required=False, group=m.groups[0] if m.groups else None)
    m.add_vehicle_type(capacity=[1] * data.num_load_dimensions)
    m.add_profile()
    m.add_client_group()
    m.add_edge(m.locations[0], l, 3, 4)
    d = diff(s, snap(data))
    ctx.check(d is None, f"extending a model changed the data it was made from at {d}")
    try:
        more = m.data()
    except ValueError:
        return
    ctx.eq((more.num_locations, more.num_depots, more.num_clients, more.num_vehicle_types, more.num_profiles, more.num_groups), (data.num_locations + 1, data.num_depots + 1, data.num_clients + 1,
           data.num_vehicle_types + 1, data.num_profiles + 1, data.num_groups + 1), "sizes after extending an imported model")
    for p in range(data.num_profiles):
        ctx.check(np.array_equal(more.distance_matrix(p)[:data.num_locations, :data.num_locations], data.distance_matrix(p)) and
                  np.array_equal(more.duration_matrix(p)[:data.num_locations, :data.num_locations], data.duration_matrix(p)), "matrices after extending an imported model")


def case(r, ctx, i):
    if i % 4 == 3:
        data = gen.problem(r)
        ctx.note(describe(data))
        imported(r, ctx, data)
        ctx.seen(("import", i))
        return
    m, ref = build(r, ctx)
    ctx.note([{k: str(v) for k, v in w.items()} for _, w in ref.clients], [w for _, w in ref.vts], ref.edges)
    data = export(r, ctx, m, ref)
    if data is not None:
        if data.num_clients + data.num_shipments:
            ctx.seen((data.num_clients, str(ref.edges), str([w for _, w in ref.vts])))
        imported(r, ctx, data)
