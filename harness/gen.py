"""Random problem data, routes and solutions (deterministic in the generator passed)."""
import numpy as np
from pyvrp import (Activity, ActivityType, Client, ClientGroup, Depot, Location, ProblemData, Route,
                   Shipment, Solution, VehicleType)

MAX = 2**63 - 1


class Kind(ActivityType):
    """Activity types that compare fast (equal to, and accepted as, those of the package)."""
    def __init__(self, kind):
        ActivityType.__init__(self, int(kind))
        self.v = int(kind)
    def __eq__(self, o):
        return self is o or (not isinstance(o, Kind) and isinstance(o, ActivityType) and int(o) == self.v)
    def __ne__(self, o):
        return not self == o
    def __hash__(self):
        return hash(self.v)


D, C, P, Q = (Kind(k) for k in (ActivityType.DEPOT, ActivityType.CLIENT, ActivityType.PICKUP, ActivityType.DELIVERY))
KINDS = {k.v: k for k in (D, C, P, Q)}
ACTS = {}


class Act(Activity):
    """Activities with fast attributes."""
    __slots__ = ("type", "idx")
    def __init__(self, t, i):
        Activity.__init__(self, t, i)
        self.type, self.idx = t, i
    def __eq__(self, o):
        return self is o or Activity.__eq__(self, o)
    def __ne__(self, o):
        return not self == o
    __hash__ = Activity.__hash__


def act(t, i):
    if not isinstance(t, Kind):
        t = KINDS[int(t)]
    a = ACTS.get((t.v, i))
    if a is None:
        a = ACTS[t.v, i] = Act(t, i)
    return a


def scale(r):
    return r.choice([3, 10, 10, 50, 50, 1000, 10**6])


def window(r, S, p_none=0.3, p_inf=0.2):
    """(early, late)"""
    x = r.random()
    if x < p_none:
        return 0, MAX
    a = r.randint(0, 4 * S)
    if r.random() < p_inf:
        return a, MAX
    return a, a + r.choice([0, 1, S // 2, S, r.randint(0, 4 * S)])


def matrix(r, n, S, p_zero=0.05):
    kind = r.random()
    m = np.zeros((n, n), dtype=np.int64)
    for i in range(n):
        for j in range(n):
            if i != j:
                m[i, j] = 0 if r.random() < p_zero else r.randint(0, S)
    if kind < 0.2:
        m = np.minimum(m, m.T)
    elif kind < 0.3:                 # all the same: many different routes with equal statistics
        m[:] = r.randint(0, S)
        np.fill_diagonal(m, 0)
    return m


def clients(r, n, nloc, nd, S, tw=True, optional=0.4, rel=0.3):
    out = []
    for i in range(n):
        e, l = window(r, S) if tw else (0, MAX)
        rt = 0
        if tw and r.random() < rel:
            rt = r.randint(0, min(l, 5 * S))
        req = r.random() >= optional
        dl = [r.choice([0, r.randint(0, 10), r.randint(0, 10)]) for _ in range(nd)]
        pk = [r.choice([0, 0, r.randint(0, 10)]) for _ in range(nd)]
        out.append(dict(location=r.randrange(nloc), delivery=dl, pickup=pk, service_duration=r.choice([0, r.randint(0, S)]),
                        tw_early=e, tw_late=l, release_time=rt, prize=r.choice([0, r.randint(0, 5 * S)]) if not req else r.choice([0, r.randint(0, S)]),
                        required=req, name=r.choice(["", f"c{i}"])))
    return out


def shipments(r, n, nloc, nd, S, tw=True, optional=0.4):
    out = []
    while len(out) < n:
        pe, pl = window(r, S) if tw else (0, MAX)
        de, dl = window(r, S) if tw else (0, MAX)
        if dl < pe:
            continue
        req = r.random() >= optional
        out.append(Shipment(r.randrange(nloc), r.randrange(nloc), pe, pl, r.choice([0, r.randint(0, S)]), de, dl, r.choice([0, r.randint(0, S)]),
                            [r.choice([0, r.randint(0, 10)]) for _ in range(nd)], r.choice([0, r.randint(0, 5 * S)]), req,
                            name=r.choice(["", f"s{len(out)}"])))
    return out


def vehicle(r, nd, ndep, nprof, S, tw=True, reload=0.5, initial=0.3):
    e, l = window(r, 3 * S, 0.4, 0.3) if tw else (0, MAX)
    sl = None
    if tw and r.random() < 0.4:
        sl = min(l, e + r.randint(0, 3 * S))
    cap = [r.choice([0, r.randint(0, 15), r.randint(5, 40)]) for _ in range(nd)]
    kw = dict(num_available=r.randint(1, 3), capacity=cap, start_depot=r.randrange(ndep), end_depot=r.randrange(ndep),
              fixed_cost=r.choice([0, r.randint(0, 3 * S)]), tw_early=e, tw_late=l,
              shift_duration=r.choice([MAX, r.randint(0, 6 * S)]), max_distance=r.choice([MAX, r.randint(0, 5 * S)]),
              unit_distance_cost=r.choice([0, 1, 1, r.randint(0, 5)]), unit_duration_cost=r.choice([0, 0, 1, r.randint(0, 5)]),
              profile=r.randrange(nprof), start_late=sl,
              initial_load=[r.randint(0, c) if r.random() < initial else 0 for c in cap],
              max_overtime=r.choice([0, 0, r.randint(0, 2 * S)]), unit_overtime_cost=r.choice([0, r.randint(0, 5)]),
              name=r.choice(["", "v"]))
    if r.random() < reload:
        kw["reload_depots"] = [r.randrange(ndep) for _ in range(r.randint(1, 2))]
        if r.random() < 0.7:
            kw["max_reloads"] = r.randint(0, 3)
    return VehicleType(**kw)


def problem(r, nc=None, ns=None, tw=None, ng=None, nv=None, dims=None, optional=0.4, reload=0.5, S=None, nprof=None, ndep=None, initial=0.3, rel=0.3):
    """A random valid problem."""
    S = S or scale(r)
    while True:
        nloc = r.randint(1, 8)
        nde = ndep or r.choice([1, 1, 2, 3])
        npf = nprof or r.choice([1, 1, 2])
        nd = r.choice([0, 1, 1, 1, 2, 3]) if dims is None else dims
        c = r.randint(0, 8) if nc is None else nc
        s = r.choice([0, 0, 1, 2, 3]) if ns is None else ns
        t = (r.random() < 0.8) if tw is None else tw
        locs = [Location(r.randint(0, S), r.randint(0, S), name=r.choice(["", f"l{i}"])) for i in range(nloc)]
        cs = clients(r, c, nloc, nd, S, t, optional, rel)
        groups = []
        g = (r.choice([0, 0, 1, 2]) if ng is None else ng) if c else 0
        free = list(range(c))
        r.shuffle(free)
        for k in range(g):
            if not free:
                break
            mem = [free.pop() for _ in range(min(len(free), r.randint(1, 3)))]
            for i in mem:
                cs[i]["group"] = k
                cs[i]["required"] = False
            groups.append(ClientGroup(mem, r.random() < 0.5, name=r.choice(["", f"g{k}"])))
        depots = []
        for i in range(nde):
            e, l = window(r, 4 * S, 0.6, 0.3) if t else (0, MAX)
            dp = Depot(r.randrange(nloc), e, l, r.choice([0, 0, r.randint(0, S)]), name=r.choice(["", f"d{i}"]))
            if depots and r.random() < 0.25:     # the same as an earlier depot
                dp = r.choice(depots)
            depots.append(dp)
        vts = []
        for _ in range(200):
            v = vehicle(r, nd, nde, npf, S, t, reload, initial)
            ok = all(depots[d].tw_early <= v.tw_late and depots[d].tw_late >= v.tw_early for d in (v.start_depot, v.end_depot))
            if ok:
                vts.append(v)
            if len(vts) >= (nv or r.randint(1, 3)):
                break
        if not vts:
            continue
        return ProblemData(locs, [Client(**x) for x in cs], depots, vts, [matrix(r, nloc, S) for _ in range(npf)],
                           [matrix(r, nloc, S) for _ in range(npf)], groups, shipments(r, s, nloc, nd, S, t, optional))


def describe(data):
    def f(o, names):
        return {n: getattr(o, n) for n in names}
    return dict(
        clients=[f(c, ["location", "delivery", "pickup", "service_duration", "tw_early", "tw_late", "release_time", "prize", "required", "group"]) for c in data.clients()],
        depots=[f(d, ["location", "tw_early", "tw_late", "service_duration"]) for d in data.depots()],
        groups=[(g.clients, g.required) for g in data.groups()],
        shipments=[(s.pickup.location, s.pickup.tw_early, s.pickup.tw_late, s.pickup.service_duration, s.delivery.location, s.delivery.tw_early, s.delivery.tw_late,
                    s.delivery.service_duration, s.amount, s.prize, s.required) for s in data.shipments()],
        vehicle_types=[f(v, ["num_available", "capacity", "start_depot", "end_depot", "fixed_cost", "tw_early", "tw_late", "shift_duration", "max_distance",
                             "unit_distance_cost", "unit_duration_cost", "profile", "start_late", "initial_load", "reload_depots", "max_reloads", "max_overtime", "unit_overtime_cost"]) for v in data.vehicle_types()],
        dist=[m.tolist() for m in data.distance_matrices()], dur=[m.tolist() for m in data.duration_matrices()])


def route_acts(r, data, vt, cl, sh, allow_reload=True):
    """Random valid activity list visiting exactly these clients and shipments."""
    v = data.vehicle_type(vt)
    units = [("c", i) for i in cl] + [("s", i) for i in sh]
    r.shuffle(units)
    maxt = min(v.max_trips, 4)
    nt = r.randint(1, maxt) if (allow_reload and v.reload_depots and maxt >= 1) else 1
    trips = [[] for _ in range(nt)]
    for u in units:
        trips[r.randrange(nt)].append(u)
    out = []
    for k, tr in enumerate(trips):
        if k:
            out.append(act(D, r.choice(v.reload_depots)))
        seq = []
        for kind, i in tr:
            if kind == "c":
                seq.insert(r.randint(0, len(seq)), act(C, i))
            else:
                a = r.randint(0, len(seq))
                seq.insert(a, act(P, i))
                seq.insert(r.randint(a + 1, len(seq)), act(Q, i))
        out += seq
    return out


def solution_parts(r, data, complete=False, empty_ok=False):
    """[(vehicle type, activities)] of a random valid solution."""
    cl = []
    groups = {}
    for i, c in enumerate(data.clients()):
        if c.group is not None:
            groups.setdefault(c.group, []).append(i)
        elif (c.required and (complete or r.random() < 0.9)) or (not c.required and r.random() < 0.5):
            cl.append(i)
    for g, mem in groups.items():
        if (data.group(g).required and complete) or r.random() < 0.6:
            cl.append(r.choice(mem))
    sh = [i for i, s in enumerate(data.shipments()) if (s.required and (complete or r.random() < 0.9)) or (not s.required and r.random() < 0.5)]
    vehs = [t for t, v in enumerate(data.vehicle_types()) for _ in range(v.num_available)]
    r.shuffle(vehs)
    k = r.randint(1, len(vehs))
    parts = [(t, [], []) for t in vehs[:k]]
    for i in cl:
        r.choice(parts)[1].append(i)
    for i in sh:
        r.choice(parts)[2].append(i)
    return [(t, route_acts(r, data, t, c, s)) for t, c, s in parts if c or s]


def solution(r, data, complete=False):
    parts = solution_parts(r, data, complete)
    return Solution(data, [Route(data, a, t) for t, a in parts])


def astr(acts):
    return [f"{NAMES[a.type]}{a.idx}" for a in acts]


NAMES = {D: "D", C: "C", P: "P", Q: "Q"}


def strip(r, data, p=0.6):
    """The same problem with a random selection of features switched off."""
    off = {f: r.random() < p for f in ("ctw", "rel", "csvc", "prize", "dtw", "dsvc", "vtw", "start_late", "shift", "maxdist", "udist", "udur", "uover", "fixed", "stw", "init", "cap")}
    cs = []
    for c in data.clients():
        tw = (0, MAX) if off["ctw"] else (c.tw_early, c.tw_late)
        cs.append(Client(c.location, c.delivery, c.pickup, 0 if off["csvc"] else c.service_duration, *tw, 0 if off["rel"] else c.release_time,
                         0 if off["prize"] else c.prize, c.required, c.group))
    ds = [Depot(d.location, *((0, MAX) if off["dtw"] else (d.tw_early, d.tw_late)), 0 if off["dsvc"] else d.service_duration) for d in data.depots()]
    ss = []
    for s in data.shipments():
        p, q = s.pickup, s.delivery
        ptw, qtw = ((0, MAX), (0, MAX)) if off["stw"] else ((p.tw_early, p.tw_late), (q.tw_early, q.tw_late))
        ss.append(Shipment(p.location, q.location, *ptw, 0 if off["csvc"] else p.service_duration, *qtw, 0 if off["csvc"] else q.service_duration, s.amount,
                           0 if off["prize"] else s.prize, s.required))
    vs = []
    for v in data.vehicle_types():
        tw = (0, MAX) if off["vtw"] else (v.tw_early, v.tw_late)
        vs.append(VehicleType(v.num_available, [10**6 for _ in v.capacity] if off["cap"] else v.capacity, v.start_depot, v.end_depot, 0 if off["fixed"] else v.fixed_cost, *tw,
                              MAX if off["shift"] else v.shift_duration, MAX if off["maxdist"] else v.max_distance, 0 if off["udist"] and r.random() < 0.5 else v.unit_distance_cost,
                              0 if off["udur"] else v.unit_duration_cost, v.profile, tw[1] if off["start_late"] else v.start_late, [0 for _ in v.capacity] if off["init"] else v.initial_load,
                              v.reload_depots, v.max_reloads, max_overtime=v.max_overtime, unit_overtime_cost=0 if off["uover"] else v.unit_overtime_cost))
    try:
        return ProblemData(data.locations(), cs, ds, vs, data.distance_matrices(), data.duration_matrices(), data.groups(), ss)
    except ValueError:
        return data
