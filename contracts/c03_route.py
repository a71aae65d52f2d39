"""
C03: what a route reports follows from its activities. Ghost prefix sums and folds over the
schedule define the distance, loads, prizes and durations; the folds are made of the segment
operations that C01 and C02 specify.
"""
import re
import z3
from dv import contract, loopvars, havocs, Sum, View
from symex import *
import models
from c04_routes import kind, index
import matrix_contract as MC

R, PD, ACT, SACT, VT, LS = "pyvrp::Route", "pyvrp::ProblemData", "pyvrp::Activity", "pyvrp::Route::ScheduledActivity", "pyvrp::VehicleType", "pyvrp::LoadSegment"
CL, DP, SH = "pyvrp::Client", "pyvrp::Depot", "pyvrp::Shipment"
k, d = z3.Ints("k d")
B = 2**40
T0 = z3.IntVal(0)
KINDS = ("depot", "client", "pickup", "delivery")


class Seq:
    """A sequence of activities (the elements of a vector with element type T)."""
    def __init__(self, v, st, data, vec, T):
        self.v, self.ex, self.st, self.data, self.vec, self.T = v, v.ex, st, data, vec, T
        self.n = self.ex.veclen(st, vec)
        self.seen, self.keep = set(), []
        self.vecs = {c: data.fieldaddr(f)[0] for c, f in ((CL, "clients_"), (DP, "depots_"), (SH, "shipments_"))}
    def addr(self, q):
        return self.ex.vecelem(self.vec, self.T, q)
    def kind(self, q, w):
        return kind(self.v, self.st, self.addr(q), w)
    def idx(self, q):
        return index(self.v, self.st, self.addr(q))
    def obj(self, cls, i):
        return View(self.v, self.ex.vecelem(self.vecs[cls], cls, i), cls, self.st)
    def pick(self, q, f):
        """The value of f(kind, object) at position q; pickup and delivery objects are a shipment's."""
        i = self.idx(q)
        key = z3.simplify(as_int(q))
        if key.get_id() not in self.seen:   # precondition: every activity has one of the four types, and an index
            self.seen.add(key.get_id())
            self.keep.append(key)
            self.ex.facts.append(z3.And(z3.Or(*[self.kind(q, w) for w in KINDS]), i >= 0))
        return z3.If(self.kind(q, "depot"), f("depot", self.obj(DP, i)), z3.If(self.kind(q, "client"), f("client", self.obj(CL, i)),
               z3.If(self.kind(q, "pickup"), f("pickup", self.obj(SH, i)), f("delivery", self.obj(SH, i)))))
    def loc(self, q):
        return self.pick(q, lambda w, o: o.get(f"{w}.location") if w in ("pickup", "delivery") else o.get("location"))


def fresh(v, data, schedule=True):
    """A route as the constructor hands it to its set functions: totals zero, one entry per dimension."""
    o = v.localobj(R, "route")
    ex = v.ex
    nd = v.call(r"^pyvrp::ProblemData::numLoadDimensions\(\) const$", data, st=v.st.copy())
    for f in v.recs[R].kids:
        n, t = f.name, f.type
        if t.startswith("std::vector<"):
            continue
        ll = ex.prim_ll(models.scalar_name(ex, t))
        ex.store_addr(v.st, o.fieldaddr(n)[0], 0, ll, True)
    vt = v.int("vehicleType", 0, B)
    ex.store_addr(v.st, o.fieldaddr("vehicleType_")[0], vt, ex.prim_ll("unsigned long"), True)
    for n in ("delivery_", "pickup_", "excessLoad_"):
        ex.setlen(v.st, o.fieldaddr(n)[0], nd)
    if schedule:
        ex.setlen(v.st, o.fieldaddr("schedule_")[0], v.int("activities", 2, B))
    v.require(nd >= 0)
    vehicle = View(v, ex.vecelem(data.fieldaddr("vehicleTypes_")[0], VT, vt), VT, v.st)
    return o, vehicle, nd


@contract("C03", "distance: the sum over consecutive stops; its cost and excess")
def set_distance(v):
    ex = v.ex
    MC.install(v)
    data = v.obj(PD, "data")
    o, veh, nd = fresh(v, data)
    st0 = v.st.copy()
    S = Seq(v, st0, data, o.fieldaddr("schedule_")[0], SACT)
    v.require(S.kind(z3.IntVal(0), "depot"))
    prof = veh.get("profile")
    D = lambda i, j: dist(v, st0, data, "distance", prof, i, j)
    T = Sum(v, "legs", lambda q: D(S.loc(q - 1), S.loc(q)) , rng=(-2**61, 2**61))
    first = D(S.loc(z3.IntVal(-1)), S.loc(z3.IntVal(0)))   # the leg into the first stop is not driven
    df, _ = o.fieldaddr("distance_")
    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        for x, gx in lv.items():
            b = f"1 <= {x} <= activities"
            out.append((b, lambda w, gx=gx: z3.And(1 <= gx(w), gx(w) <= S.n), dict(ground=True)))
            out.append((f"distance = legs before {x}", lambda w, gx=gx: ex.load_addr(w.st, df, ex.prim_ll("long")) == T.inst(gx(w)) - first, dict(ground=True)))
            for y, gy in lv.items():
                if y != x:
                    out.append((f"{y} = location before {x}", lambda w, gx=gx, gy=gy: gy(w) == S.loc(gx(w) - 1), dict(ground=True)))
                    out.append((f"{y} = legs before {x}", lambda w, gx=gx, gy=gy: gy(w) == T.inst(gx(w)) - first, dict(ground=True)))
        return out
    ex.loop_templates.append(tmpl)
    T.inst(1)
    v.call(r"^pyvrp::Route::setDistance\(pyvrp::ProblemData const&\)$", o, data)
    v.cover(extra=S.n == 2)
    g = lambda f: v.call(rf"^pyvrp::Route::{f}\(\) const$", o)
    want = T.inst(S.n) - first
    v.ensure("distance is the sum of the legs", g("distance") == want)
    v.ensure("excess distance", g("excessDistance") == z3.If(want > veh.get("maxDistance"), want - veh.get("maxDistance"), 0))
    v.ensure("distance cost", g("distanceCost") == veh.get("unitDistanceCost") * want)


def dist(v, st, data, which, prof, i, j):
    m = v.call(rf"^pyvrp::ProblemData::{which}Matrix\(unsigned long\) const$", data, prof, st=st.copy())
    return MC.value(v, st, MC.one(m), i, j)


@contract("C03", "a matrix has its cells in row-major order")
def matrix_cell(v):
    ex = v.ex
    M = MC.name(v.recs)
    m = v.obj(M, "m")
    r, c = v.int("row", 0, B), v.int("col", 0, B)
    rows, cols = m.get("rows_"), m.get("cols_")
    v.require(0 <= r, r < rows, 0 <= c, c < cols, rows < 2**31, cols < 2**31, m.len("data_") == rows * cols)
    v.cover()
    st0 = v.st.copy()
    a = ex.vecelem(m.fieldaddr("data_")[0], "Measure", cols * r + c)
    inst = {}
    for dem, fs in v.m.bydem.items():
        if re.match(r"^pyvrp::Matrix<pyvrp::Measure<[^<>]*>>::(operator\(\)|numRows|numCols)\(.*\)( const)?$", dem) and any(not f.decl for f in fs):
            inst[dem] = [f for f in fs if not f.decl][0]
    v.ensure("some instance is used", z3.BoolVal(any("operator" in x for x in inst)))
    for dem, f in sorted(inst.items()):
        if "operator" in dem:
            p = v.call(f, m, r, c)
            v.ensure(f"{dem}: the cell of row and column", AND(MC.one(p).idx[-1] == cols * r + c, ex.load(st0, p, ex.prim_ll("long")) == ex.load_addr(st0, a, ex.prim_ll("long"))))
        else:
            v.ensure(f"{dem}: dimensions", v.call(f, m) == (rows if "numRows" in dem else cols))


@contract("C03", "prizes, shipments and fixed cost: sums over the visits")
def set_other(v):
    ex = v.ex
    MC.install(v)
    data = v.obj(PD, "data")
    o, veh, nd = fresh(v, data)
    st0 = v.st.copy()
    S = Seq(v, st0, data, o.fieldaddr("schedule_")[0], SACT)
    P = Sum(v, "prizes", lambda q: S.pick(q, lambda w, x: z3.IntVal(0) if w in ("depot", "delivery") else x.get("prize")), rng=(-2**61, 2**61))
    N = Sum(v, "shipments", lambda q: z3.If(S.kind(q, "pickup"), 1, 0), rng=(0, B))
    pf, nf = o.fieldaddr("prizes_")[0], o.fieldaddr("numShipments_")[0]
    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        for x, gx in lv.items():
            out.append((f"0 <= {x} <= activities", lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= S.n), dict(ground=True)))
            for s, f, t in ((P, pf, "long"), (N, nf, "unsigned long")):
                out.append((f"{s.name} before {x}", lambda w, gx=gx, s=s, f=f, t=t: ex.load_addr(w.st, f, ex.prim_ll(t)) == s.inst(gx(w)), dict(ground=True)))
                for y, gy in lv.items():
                    if y != x:
                        out.append((f"{y} = {s.name} before {x}", lambda w, gx=gx, gy=gy, s=s: gy(w) == s.inst(gx(w)), dict(ground=True)))
        return out
    ex.loop_templates.append(tmpl)
    v.call(r"^pyvrp::Route::setOtherStatistics\(pyvrp::ProblemData const&\)$", o, data)
    v.cover(extra=S.n == 2)
    g = lambda f: v.call(rf"^pyvrp::Route::{f}\(\) const$", o)
    v.ensure("prizes of the clients and shipments served", g("prizes") == P.inst(S.n))
    v.ensure("shipments served", g("numShipments") == N.inst(S.n))
    v.ensure("fixed vehicle cost", g("fixedVehicleCost") == veh.get("fixedCost"))


SEG = ["initial_", "delta_", "increase_", "excessLoad_"]


class Loads:
    """Ghost fold, per load dimension: the load segment before each stop, and loads handed over and taken in."""
    def __init__(self, v, S, veh):
        self.v, self.S, self.veh = v, S, veh
        I = z3.IntSort()
        self.f = {n: z3.Function(f"segment {n}", I, I, I) for n in SEG + ["delivery", "pickup"]}
        self.seen, self.keep = set(), []
        st = S.st
        self.cap = lambda e: veh.elem("capacity", e, st=st)
        init = lambda e: veh.elem("initialLoad", e, st=st)
        self.start = lambda e: z3.If(init(e) > 0, init(e), 0)
        F = self.f
        v.ex.facts.append(z3.ForAll([d], z3.And(F["initial_"](1, d) == self.start(d), F["delta_"](1, d) == 0, F["increase_"](1, d) == 0, F["excessLoad_"](1, d) == 0,
                                                F["delivery"](1, d) == 0, F["pickup"](1, d) == self.start(d))))
    def step(self, q, e):
        S, F = self.S, self.f
        i, dl, inc, x, tdl, tpk = [F[n](q, e) for n in SEG + ["delivery", "pickup"]]
        mx = lambda a, b: z3.If(a >= b, a, b)
        def after(w, o):
            if w == "depot":     # the vehicle is emptied: what exceeds its capacity is kept
                return (0, 0, 0, x + mx(i + inc - self.cap(e), 0), tdl, tpk)
            if w == "client":    # hands over its delivery, then takes in its pickup
                a, b = o.elem("delivery", e, st=S.st), o.elem("pickup", e, st=S.st)
                return (i + a, dl + b - a, mx(inc, dl + mx(b - a, 0)), x, tdl + a, tpk + b)
            a = o.elem("amount", e, st=S.st)
            a = a if w == "pickup" else -a
            return (i, dl + a, mx(inc, dl + mx(a, 0)), x, tdl, tpk)
        return [S.pick(q, lambda w, o, j=j: as_int(after(w, o)[j])) for j in range(6)]
    def at(self, q, e, n):
        for c in [q] + [z3.IntVal(j) for j in range((self.v.unroll or 0) + 2)]:
            self.unfold(c)
            self.unfold(c - 1)
        return self.f[n](q, e)
    def unfold(self, q):
        q = z3.simplify(as_int(q))
        if q.get_id() in self.seen:
            return
        self.seen.add(q.get_id())
        self.keep.append(q)
        new = self.step(q, d)
        self.v.ex.facts.append(z3.Implies(q >= 1, z3.ForAll([d], z3.And(*[self.f[n](q + 1, d) == x for n, x in zip(SEG + ["delivery", "pickup"], new)]))))
    def excess(self, q, e):
        """Excess load after the first q stops."""
        c = self.at(q, e, "initial_") + self.at(q, e, "increase_") - self.cap(e)
        return self.at(q, e, "excessLoad_") + z3.If(c > 0, c, 0)


@contract("C03", "loads: the load segment of the visits, and totals, per dimension")
def set_load(v):
    ex = v.ex
    data = v.obj(PD, "data")
    o, veh, nd = fresh(v, data)
    z = Addr(ex.local("zero"))
    ex.store_addr(v.st, z, 0, ex.prim_ll("long"), True)
    for n in ("delivery_", "pickup_", "excessLoad_"):
        models.fill(ex, v.st, o.fieldaddr(n)[0], "Measure", z)
    st0 = v.st.copy()
    S = Seq(v, st0, data, o.fieldaddr("schedule_")[0], SACT)
    L = Loads(v, S, veh)
    v.require(z3.ForAll([d], z3.And(0 <= veh.elem("initialLoad", d), 0 <= veh.elem("capacity", d))))
    off = {n: v.recs[LS].field(n).off for n in SEG}
    final = {"delivery_": lambda e: L.at(S.n, e, "delivery"), "pickup_": lambda e: L.at(S.n, e, "pickup"), "excessLoad_": lambda e: L.excess(S.n, e)}
    cell = lambda w, n, e: o.elem(n, e, st=w.st)
    dim = z3.And(0 <= d, d < nd)
    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        ind = {x: g for x, g in lv.items() if x.startswith("phi")} or lv
        hs = havocs(eview.env)[-2:]
        for x, gx in ind.items():
            b = f"1 <= {x} <= activities"
            out.append((b, lambda w, gx=gx: z3.And(1 <= gx(w), gx(w) <= S.n), dict(ground=True)))
            bd = f"0 <= {x} <= dimensions"
            out.append((bd, lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= nd), dict(ground=True)))
            for n in final:
                out.append((f"{n} final below {x}", lambda w, gx=gx, n=n: z3.ForAll([d], z3.Implies(dim, cell(w, n, d) == z3.If(d < gx(w), final[n](d), 0))), dict(needs=bd)))
            for h in hs:
                for n, m in (("delivery_", "delivery"), ("pickup_", "pickup")):
                    out.append((f"{n} final below {h}, total before {x} at it", lambda w, gx=gx, n=n, m=m, h=h: z3.ForAll([d], z3.Implies(dim, cell(w, n, d) == z3.If(d < h, final[n](d), z3.If(d == h, L.at(gx(w), d, m), 0)))), dict(needs=b)))
                for y, gy in lv.items():
                    for n in SEG:
                        if y != x and ("+" not in y or y.endswith(f"+{off[n]}")):
                            out.append((f"{y} = {n} before {x} in dimension {h}", lambda w, gx=gx, gy=gy, n=n, h=h: gy(w) == L.at(gx(w), h, n), dict(needs=b)))
        return out
    ex.loop_templates.append(tmpl)
    ex.loop_timeout = 6000
    v.call(r"^pyvrp::Route::setLoad\(pyvrp::ProblemData const&\)$", o, data)
    v.cover(extra=AND(S.n == 3, nd == 1))
    st1 = v.st
    e = v.int("dim", 0, B)
    for acc, n, title in (("delivery", "delivery_", "delivered load"), ("pickup", "pickup_", "picked up load, with the initial load"), ("excessLoad", "excessLoad_", "excess load")):
        p = v.call(rf"^pyvrp::Route::{acc}\(\) const$", o, st=st1.copy())
        a = MC.one(p)
        v.ensure(f"{title}: one per dimension", ex.veclen(st1, a) == nd)
        v.ensure(f"{title}", ex.load_addr(st1, ex.vecelem(a, "Measure", e), ex.prim_ll("long")) == final[n](e), also=[e < nd])


DSEG = "pyvrp::DurationSegment"
DF = ["duration_", "timeWarp_", "startEarly_", "startLate_", "releaseTime_", "cumDuration_", "cumTimeWarp_", "prevEndLate_"]
MEAS = r"pyvrp::Measure<[^>]*>"
MERGE3 = rf"^pyvrp::DurationSegment::merge\({MEAS}, pyvrp::DurationSegment const&, pyvrp::DurationSegment const&\)$"
MERGE2 = r"^pyvrp::DurationSegment::merge\(pyvrp::DurationSegment const&, pyvrp::DurationSegment const&\)$"
DCTOR = r"^pyvrp::DurationSegment::DurationSegment\(%s\)$"
mx = lambda a, b: z3.If(a >= b, a, b)
mn = lambda a, b: z3.If(a <= b, a, b)


class Drive:
    """Ghost functions over the visits: the duration segment from each visit to the end of the
    route (back to front, by the operations that C01 specifies), the release time of each trip,
    and the clock of a vehicle that drives the route."""
    def __init__(self, v, S, veh, dur):
        self.v, self.ex, self.S, self.veh, self.dur = v, v.ex, S, veh, dur
        I = z3.IntSort()
        self.f = {n: z3.Function(f"from here {n}", I, I) for n in DF}
        self.rel = z3.Function("release time of the trip", I, I)
        self.now = z3.Function("clock", I, I)
        self.out = {n: z3.Function(f"visit {n}", I, I) for n in ("start", "end", "wait", "warp")}
        self.trips = Sum(v, "reloads", lambda q: z3.If(S.kind(q, "depot"), 1, 0), rng=(0, 2**41))
        self.seen, self.keep = set(), []
        self.scratch = st = S.st.copy()
        self.start, self.end = S.obj(DP, veh.get("startDepot", st)), S.obj(DP, veh.get("endDepot", st))
        a, b = self.make("depot", self.end, z3.IntVal(0)), self.local("vehicle")
        self.run(DCTOR % f"pyvrp::VehicleType const&, {MEAS}", b, Ptr.to(veh.addr), veh.get("twLate", st))
        e = self.call(MERGE2, a, b)
        self.known(S.n, e)
        self.service = Sum(v, "service", lambda q: S.pick(q, lambda w, o: self.attr(w, o, "serviceDuration")), rng=(-2**61, 2**61))
        self.travel = Sum(v, "travel", lambda q: dur(S.loc(q), self.next(q)), rng=(-2**61, 2**61))
    # --- segments by the real operations
    def run(self, pat, *args):
        """Runs the function on a state of its own."""
        v = self.v
        keep, v.st = v.st, self.scratch
        try:
            fn = v.find(pat)
            for match, h in self.ex.handlers[:4]:   # callee contracts in force
                if match(fn.dem):
                    return h(self.ex, v.st, [a.ptr if isinstance(a, View) else a for a in args], fn, None)
            return v.call(fn, *args)
        finally:
            v.st, self.scratch = keep, v.st
    def local(self, n):
        return self.v.localobj(DSEG, n)
    def attr(self, w, o, f):
        return o.get(f"{w}.{f}") if w in ("pickup", "delivery") else o.get(f)
    def make(self, w, o, service):
        r = self.local(f"seg {w}")
        if w == "depot":
            self.run(DCTOR % f"pyvrp::Depot const&, {MEAS}", r, Ptr.to(o.addr), service)
        elif w == "client":
            self.run(DCTOR % "pyvrp::Client const&", r, Ptr.to(o.addr))
        else:
            self.run(DCTOR % "pyvrp::Shipment::Step const&", r, Ptr.to(o.fieldaddr(w)[0]))
        return r
    def call(self, pat, *args):
        r = self.local("ret")
        self.run(pat, r, *args)
        return r
    def get(self, o, acc, *args):
        return self.run(rf"^pyvrp::DurationSegment::{acc}\({MEAS if args else ''}\) const$", o, *args)
    def segment(self, q):
        """An object with the fields of the ghost segment at q."""
        o = self.local("ghost")
        for n in DF:
            self.ex.store_addr(self.scratch, o.fieldaddr(n)[0], self.f[n](q), self.ex.prim_ll("long"), True)
        return o
    def known(self, q, o, cond=None):
        for n in DF:
            e = self.f[n](q) == o.get(n, self.scratch)
            self.ex.facts.append(e if cond is None else z3.Implies(cond, e))
    # --- places
    def next(self, q):
        return z3.If(as_int(q) + 1 == self.S.n, self.end.get("location"), self.S.loc(q + 1))
    def nextloc(self, q):
        """Where the part from position q on begins."""
        return z3.If(as_int(q) == self.S.n, self.end.get("location"), self.S.loc(q))
    def prevloc(self, q):
        return z3.If(as_int(q) == 0, self.start.get("location"), self.S.loc(q - 1))
    # --- definitions
    def at(self, q):
        for c in [q] + [z3.IntVal(j) for j in range((self.v.unroll or 0) + 1)]:
            self.unfold(c)
            self.unfold(c - 1)
        return q
    def unfold(self, q):
        q = z3.simplify(as_int(q))
        if q.get_id() in self.seen:
            return
        self.seen.add(q.get_id())
        self.keep.append(q)
        S, ex = self.S, self.ex
        rng = z3.And(0 <= q, q < S.n)
        i = S.idx(q)
        S.loc(q)
        S.loc(q + 1)
        rest = self.segment(q + 1)
        edge = self.dur(S.loc(q), self.next(q))
        for w in KINDS:
            o = S.obj(SH if w in ("pickup", "delivery") else DP if w == "depot" else CL, i)
            here = z3.And(rng, S.kind(q, w))
            m = self.call(MERGE3, edge, self.make(w, o, self.attr(w, o, "serviceDuration")), rest)
            if w == "depot":
                ex.facts.append(z3.Implies(here, self.rel(q) == self.get(m, "releaseTime")))
                m = self.call(r"^pyvrp::DurationSegment::finaliseFront\(\) const$", m)
            self.known(q, m, here)
        arrive = self.now(q) + self.dur(self.prevloc(q), S.loc(q))
        early, late, serve = (S.pick(q, lambda w, o, f=f: self.attr(w, o, f)) for f in ("twEarly", "twLate", "serviceDuration"))
        early = z3.If(S.kind(q, "depot"), mx(early, mn(self.rel(q), late)), early)
        self.visit(q, arrive, early, late, serve, rng)
        ex.facts.append(z3.Implies(rng, self.now(q + 1) == self.out["end"](q)))
    def visit(self, q, arrive, early, late, serve, cond):
        wait, warp = mx(early - arrive, 0), mx(arrive - late, 0)
        begin = arrive + wait - warp
        e = dict(start=begin, end=begin + serve, wait=wait, warp=warp)
        self.ex.facts.append(z3.Implies(cond, z3.And(*[self.out[n](q) == x for n, x in e.items()])))


@contract("C03", "lemma: the trip number does not decrease along the visits")
def lemma_trips(v):
    depot = z3.Function("reload", z3.IntSort(), z3.BoolSort())
    C = Sum(v, "trips", lambda q: z3.If(depot(q), 1, 0))
    a, b = v.int("a", 0), v.int("b", 0)
    C.inst(b)
    C.inst(b + 1)
    v.ensure("base", C.f(a) <= C.f(a))
    v.ensure("step", C.f(a) <= C.f(b + 1), also=[a <= b, C.f(a) <= C.f(b)])


def entry(v, st, vec, q):
    a = v.ex.vecelem(vec, SACT, q)
    w = View(v, a, SACT, st)
    r = {n: w.get(f, st) for n, f in dict(start="startTime_", end="endTime_", wait="waitDuration_", warp="timeWarp_", trip="trip_").items()}
    r["kind"] = {n: kind(v, st, a, n) for n in KINDS}
    r["idx"] = index(v, st, a)
    return r


@contract("C03", "schedule: driven visit by visit; durations follow from the segments of the visits", timeout=300)
def set_schedule(v):
    ex = v.ex
    MC.install(v)
    MC.install_segments(v)
    data = v.obj(PD, "data")
    o, veh, nd = fresh(v, data, schedule=False)
    sch = o.fieldaddr("schedule_")[0]
    ex.setlen(v.st, sch, 0)
    acts = v.localobj("std::vector<pyvrp::Activity>", "activities")
    ex.setlen(v.st, acts.addr, v.int("visits", 0, B))
    st0 = v.st.copy()
    S = Seq(v, st0, data, acts.addr, ACT)
    prof = veh.get("profile")
    dur = lambda i, j: dist(v, st0, data, "duration", prof, i, j)
    G = Drive(v, S, veh, dur)
    n = S.n
    C = G.trips
    q = z3.Int("q")
    v.require(z3.ForAll([k, q], z3.Implies(z3.And(0 <= k, k <= q, q <= n), C.f(k) <= C.f(q)), patterns=[z3.MultiPattern(C.f(k), C.f(q))]))   # lemma_count
    ex.loop_timeout = 6000
    sf, tf = o.fieldaddr("service_")[0], o.fieldaddr("travel_")[0]
    ld = lambda w, a: ex.load_addr(w.st, a, ex.prim_ll("long"))
    off = {f: v.recs[DSEG].field(f).off for f in DF}
    def rts(w, mods):
        """Vectors local to the function (release times)."""
        return [key[0] for key in mods if key[0].kind == "local" and len(key) > 2]
    def released(w, a, x):
        """a: the release times of the trips that begin at or after position x, in order."""
        return z3.ForAll([k], z3.Implies(z3.And(x <= k, k < n, S.kind(k, "depot")), ex.load_addr(w.st, ex.vecelem(a, "Measure", C.f(k) - C.f(x)), ex.prim_ll("long")) == G.rel(k)),
                         patterns=[G.rel(k)])
    def driven(w, x):
        def same(k):
            e = entry(v, w.st, sch, k + 1)
            return z3.And(*[e[m] == G.out[m](k) for m in G.out], e["trip"] == C.f(k + 1), e["idx"] == S.idx(k), *[e["kind"][m] == S.kind(k, m) for m in KINDS])
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < x), same(k)))
    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        vecs = []
        for key in modified:
            if key[0].kind == "local" and len(key) > 2 and key[0] not in vecs:
                vecs.append(key[0])
        cells = {}
        for m in modified:
            cells.setdefault(m[0], set()).add(m[1] if len(m) == 2 else None)
        segs = {f"{r.name}+{c}" for r, cs in cells.items() if r.kind == "local" and cs == set(off.values()) for c in cs}
        ptrs = {x for x in lv if (x.startswith("phi") or x.startswith("loc_")) and x not in segs}
        T = z3.IntVal
        for x, gx in lv.items():
            if x not in ptrs:
                continue
            b = f"0 <= {x} <= visits"
            out.append((b, lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= n), dict(ground=True)))
            # back to front
            rest = lambda s, gx: (lambda w: s.inst(n) - s.inst(G.at(gx(w))))
            back, fwd = {}, {}
            back["service"] = lambda w, gx=gx: G.service.inst(n) - G.service.inst(gx(w))
            back["travel"] = lambda w, gx=gx: G.travel.inst(n) - G.travel.inst(gx(w))
            back["place"] = lambda w, gx=gx: G.nextloc(gx(w))
            for f in DF:
                back[f] = lambda w, gx=gx, f=f: G.f[f](G.at(gx(w)))
            fwd["clock"] = lambda w, gx=gx: G.now(G.at(gx(w)))
            fwd["place"] = lambda w, gx=gx: G.prevloc(gx(w))
            fwd["trip"] = lambda w, gx=gx: C.inst(gx(w))
            for y, gy in lv.items():
                if y == x:
                    continue
                for m, val in [(f"{m} from {x} on", e) for m, e in back.items() if m not in off or y.endswith(f"+{off[m]}")] + [(f"{m} before {x}", e) for m, e in fwd.items()]:
                    if (y in segs) == (m.split()[0] in off):
                        out.append((f"{y} = {m}", lambda w, gy=gy, val=val: gy(w) == val(w), dict(needs=b) if m.startswith("clock") else dict(ground=True)))
            for r in vecs:
                a = Addr(r, (), 0)
                out.append((f"{r.name} has a release time per trip from {x} on", lambda w, gx=gx, a=a: ex.veclen(w.st, a) == C.inst(n) - C.inst(gx(w)), dict(ground=True)))
                out.append((f"{r.name} are the release times of the trips from {x} on", lambda w, gx=gx, a=a: released(w, a, gx(w)), dict(needs=b)))
            if any(len(m) > 2 and m[0] is sch.region for m in modified):
                out.append((f"visits scheduled before {x}", lambda w, gx=gx: ex.veclen(w.st, sch) == gx(w) + 1, dict(ground=True)))
                out.append((f"the start depot is scheduled ({x})", lambda w: left(w.st), dict(ground=True)))
                out.append((f"visits below {x} are scheduled as driven", lambda w, gx=gx: driven(w, gx(w)), dict(needs=b)))
        return out
    ex.loop_templates.append(tmpl)
    C.inst(n)
    # the first segment, from the start depot, and leaving it
    leg = dur(G.start.get("location"), G.nextloc(T0))
    G.at(T0)
    first = G.call(MERGE3, leg, G.make("depot", G.start, G.start.get("serviceDuration")), G.segment(T0))
    vs = G.local("vehicle")
    G.run(DCTOR % f"pyvrp::VehicleType const&, {MEAS}", vs, Ptr.to(veh.addr), veh.get("startLate"))
    whole = G.call(MERGE2, vs, first)
    early, late = G.start.get("twEarly"), G.start.get("twLate")
    begin = G.get(whole, "startEarly")
    first_rel = G.get(whole, "releaseTime")
    e0 = mx(early, mn(first_rel, late))
    l0 = mn(late, veh.get("startLate"))
    w0, x0 = mx(e0 - begin, 0), mx(begin - l0, 0)
    s0 = begin + w0 - x0
    ex.facts.append(G.now(T0) == s0 + G.start.get("serviceDuration"))
    def left(st):
        a = entry(v, st, sch, T0)
        return z3.And(a["kind"]["depot"], a["idx"] == veh.get("startDepot", st0), a["trip"] == 0, a["start"] == s0, a["end"] == s0 + G.start.get("serviceDuration", st0), a["wait"] == w0, a["warp"] == x0)
    v.call(r"^pyvrp::Route::setSchedule\(pyvrp::ProblemData const&, .*\)$", o, data, acts)
    v.cover(extra=n == 2)
    st1 = v.st
    g = lambda f: v.call(rf"^pyvrp::Route::{f}\(\) const$", o, st=st1.copy())
    D = G.get(whole, "duration")
    over = mx(D - veh.get("shiftDuration"), 0)
    want = dict(duration=D, timeWarp=G.get(whole, "timeWarp", veh.get("maxDuration")), startTime=begin, slack=G.get(whole, "slack"), releaseTime=first_rel, overtime=over)
    for f, x in want.items():
        v.ensure(f"{f} follows from the segments", g(f) == x)
    v.ensure("duration cost", g("durationCost") == veh.get("unitDurationCost") * D + veh.get("unitOvertimeCost") * over)
    v.ensure("service: the sum over the visits and the start depot", g("serviceDuration") == G.service.inst(n) + G.start.get("serviceDuration"))
    v.ensure("travel: the sum of the legs", g("travelDuration") == G.travel.inst(n) + leg)
    v.ensure("end time", g("endTime") == begin + D - want["timeWarp"])
    v.ensure("waiting: what is neither travel nor service", g("waitDuration") == D - G.travel.inst(n) - leg - G.service.inst(n) - G.start.get("serviceDuration"))
    v.ensure("one entry per visit and depot", ex.veclen(st1, sch) == n + 2)
    E = lambda q: entry(v, st1, sch, q)
    v.ensure("leaves the start depot", left(st1))
    i = v.int("visit", 0, B)
    a = E(i + 1)
    G.at(i)
    v.ensure("every visit is scheduled as driven", AND(a["idx"] == S.idx(i), a["trip"] == C.inst(i + 1), *[a[m] == G.out[m](i) for m in G.out], *[a["kind"][m] == S.kind(i, m) for m in KINDS]), also=[i < n])
    a = E(n + 1)
    at = G.now(n) + dur(G.prevloc(n), G.end.get("location"))
    we, xe = mx(G.end.get("twEarly") - at, 0), mx(at - G.end.get("twLate"), 0)
    v.ensure("arrives at the end depot", AND(a["kind"]["depot"], a["idx"] == veh.get("endDepot"), a["trip"] == C.inst(n) + 1, a["start"] == at + we - xe, a["end"] == a["start"], a["wait"] == we, a["warp"] == xe))


INT_FIELDS = None
NEEDS_SCHEDULE = ("setDistance", "setLoad", "setOtherStatistics")
WRITES = {"setSchedule": ["duration_", "overtime_", "durationCost_", "timeWarp_", "travel_", "service_", "startTime_", "releaseTime_", "slack_"],
          "setDistance": ["distance_", "distanceCost_", "excessDistance_"], "setLoad": [], "setOtherStatistics": ["fixedVehicleCost_", "prizes_", "numShipments_"]}
ZERO = {"setSchedule": ["travel_", "service_"], "setDistance": ["distance_"], "setLoad": [], "setOtherStatistics": ["prizes_", "numShipments_"]}
VECS = ("delivery_", "pickup_", "excessLoad_")


def scalars(v):
    return [f for f in v.recs[R].kids if not f.type.startswith("std::vector<")]


@contract("C03", "constructor: validates, then computes everything, each from its starting point")
def constructor(v):
    ex = v.ex
    data = v.obj(PD, "data")
    o = v.localobj(R, "route")
    acts = v.localobj("std::vector<pyvrp::Activity>", "activities")
    ex.setlen(v.st, acts.addr, v.int("visits", 0, B))
    vt = v.int("vehicleType", 0, B)
    nd = v.call(r"^pyvrp::ProblemData::numLoadDimensions\(\) const$", data, st=v.st.copy())
    v.require(nd >= 0)
    made = v.int("scheduled", 2, B)
    ll = lambda n: ex.prim_ll(models.scalar_name(ex, v.recs[R].field(n).type))
    rd = lambda st, n: ex.load_addr(st, o.fieldaddr(n)[0], ll(n))
    res = {n: v.int(f"{w} {n}") for w, fs in WRITES.items() for n in fs}
    slen = lambda st: ex.veclen(st, o.fieldaddr("schedule_")[0])
    checked, seen = [], set()
    filled = {n: v.int(f"setLoad {n}") for n in VECS}

    def callee(name):
        def h(ex_, st, args, fn, inst):
            seen.add(name)
            ex.assumed[f"contract: Route::{name}" + (" (proved in C04)" if name == "validate" else " (proved in C03)")] = 1
            if name == "validate":
                checked.append(list(st.pc))
                v.ensure("the activities are validated", MC.one(args[2]).region is acts.addr.region, pc=list(st.pc))
                v.ensure("validated for the vehicle type", rd(st, "vehicleType_") == vt, pc=list(st.pc))
                return None
            v.ensure(f"{name} is for the vehicle type", rd(st, "vehicleType_") == vt, pc=list(st.pc))
            for n in ZERO[name]:
                v.ensure(f"{name} starts from zero {n}", rd(st, n) == 0, pc=list(st.pc))
            if name == "setSchedule":
                v.ensure("scheduled from an empty schedule", slen(st) == 0, pc=list(st.pc))
                v.ensure("the activities are scheduled", MC.one(args[2]).region is acts.addr.region, pc=list(st.pc))
                ex.setlen(st, o.fieldaddr("schedule_")[0], made)
            else:
                v.ensure(f"{name} comes after the schedule", slen(st) == made, pc=list(st.pc))
            if name == "setLoad":
                for n in VECS:
                    a = o.fieldaddr(n)[0]
                    v.ensure(f"setLoad starts with one {n} per dimension", ex.veclen(st, a) == nd, pc=list(st.pc))
                    v.ensure(f"setLoad starts from zero {n}", o.elem(n, d, st=st) == 0, pc=list(st.pc) + [0 <= d, d < nd])
                    z = Addr(ex.local(f"result {n}"))
                    ex.store_addr(st, z, filled[n], ex.prim_ll("long"), True)
                    models.fill(ex, st, a, "Measure", z)
            for n in WRITES[name]:
                ex.store_addr(st, o.fieldaddr(n)[0], res[n], ll(n), True)
            return None
        return h
    for name in ("validate", *WRITES):
        ex.handlers.insert(0, (lambda q, name=name: q.startswith(f"pyvrp::Route::{name}(pyvrp::ProblemData const&"), callee(name)))
    v.call(r"^pyvrp::Route::Route\(pyvrp::ProblemData const&, std::vector<pyvrp::Activity, [^,]*>> const&, unsigned long\)$", o, data, acts, vt)
    if len(seen) != 1 + len(WRITES):
        raise Unsupported(f"the constructor does not use {sorted({'validate', *WRITES} - seen)}: its contract is about these")
    v.cover()
    st = v.st
    v.ensure("an invalid route is rejected: everything is validated", OR(*[AND(*pc) for pc in checked]))
    v.ensure("nothing else is rejected", NOT(v.throws()), pc=[])
    v.ensure("vehicle type", rd(st, "vehicleType_") == vt)
    v.ensure("the schedule is the computed one", slen(st) == made)
    for n, x in res.items():
        v.ensure(f"{n} is the computed one", rd(st, n) == x)
    for n in VECS:
        v.ensure(f"{n}: one per dimension", ex.veclen(st, o.fieldaddr(n)[0]) == nd)
        v.ensure(f"{n} is the computed one", o.elem(n, d, st=st) == filled[n], also=[0 <= d, d < nd])


@contract("C03", "a list of visits is a list of client activities")
def visits_constructor(v):
    ex = v.ex
    data = v.obj(PD, "data")
    o = v.localobj(R, "route")
    vec = v.localobj("std::vector<unsigned long>", "visits")
    n = v.int("count", 0, B)
    ex.setlen(v.st, vec.addr, n)
    vt = v.int("vehicleType", 0, B)
    st0 = v.st.copy()
    at = lambda q: ex.load_addr(st0, ex.vecelem(vec.addr, "unsigned long", q), ex.prim_ll("unsigned long"))
    fields = scalars(v)
    res = {f.name: v.int(f"route {f.name}") for f in fields}
    sizes = {m: v.int(f"route size {m}", 0, B) for m in ("schedule_", *VECS)}
    ll = lambda f: ex.prim_ll(models.scalar_name(ex, f.type))
    calls = []
    def listed(st, a, lim):
        e = lambda q: ex.vecelem(a, ACT, q)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < lim), z3.And(kind(v, st, e(k), "client"), index(v, st, e(k)) == at(k))))
    def built(ex_, st, args, fn, inst):
        ex.assumed["contract: Route::Route(data, activities, vehicle_type) (proved in C03)"] = 1
        calls.append(list(st.pc))
        a = MC.one(args[2])
        v.ensure("as many activities as visits", ex.veclen(st, a) == n, pc=list(st.pc))
        v.ensure("every visit is a client activity, in order", listed(st, a, n), pc=list(st.pc))
        v.ensure("the vehicle type is passed on", as_int(args[3]) == vt, pc=list(st.pc))
        t = View(v, MC.one(args[0]), R, st)
        for f in fields:
            ex.store_addr(st, t.fieldaddr(f.name)[0], res[f.name], ll(f), True)
        for m, x in sizes.items():
            ex.setlen(st, t.fieldaddr(m)[0], x)
        return None
    ex.handlers.insert(0, (lambda q: re.match(r"^pyvrp::Route::Route\(pyvrp::ProblemData const&, std::vector<pyvrp::Activity, ", q), built))
    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        regs = {q[0].name: Addr(q[0], (), 0) for q in modified if q[0].kind == "local" and len(q) > 2}
        for x, gx in lv.items():
            b = f"0 <= {x} <= visits"
            out.append((b, lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= n), dict(ground=True)))
            for m, a in regs.items():
                out.append((f"{m}: as many as {x}", lambda w, gx=gx, a=a: ex.veclen(w.st, a) == gx(w), dict(ground=True)))
                out.append((f"{m}: visits below {x}", lambda w, gx=gx, a=a: listed(w.st, a, gx(w)), dict(needs=b)))
        return out
    ex.loop_templates.append(tmpl)
    v.call(r"^pyvrp::Route::Route\(pyvrp::ProblemData const&, std::vector<unsigned long, [^,]*>> const&, unsigned long\)$", o, data, vec, vt)
    if not calls:
        raise Unsupported("not made by the other constructor")
    v.cover(extra=n == 2)
    v.ensure("a route is made", OR(*[AND(*pc) for pc in calls]))
    for f in fields:
        v.ensure(f"the route is that one: {f.name}", ex.load_addr(v.st, o.fieldaddr(f.name)[0], ll(f)) == res[f.name])
    for m, x in sizes.items():
        v.ensure(f"the route is that one: size of {m}", ex.veclen(v.st, o.fieldaddr(m)[0]) == x)


@contract("C03", "what is derived from the statistics: counts, feasibility, first and last depot, activities by index")
def observers(v):
    ex = v.ex
    o = v.obj(R, "route")
    st0 = v.st.copy()
    sv = o.fieldaddr("schedule_")[0]
    n = ex.veclen(st0, sv)
    v.require(2 <= n, n <= B)
    trip = lambda q: View(v, ex.vecelem(sv, SACT, q), SACT, st0).get("trip_")
    i = v.int("i", 0, 2**62)
    last = trip(n - 1)
    pairs = o.get("numShipments_")
    v.require(0 <= last, 0 <= pairs, last + 1 + 2 * pairs <= n)   # as many depots as trips plus one, and two steps per shipment
    v.cover()
    g = lambda f, *a: v.call(rf"^pyvrp::Route::{f}\({'unsigned long' if a else ''}\) const$", o, *a, st=st0.copy())
    v.ensure("size", g("size") == n)
    v.ensure("trips: that of the last depot", g("numTrips") == last)
    v.ensure("depots: one more than trips", g("numDepots") == last + 1)
    v.ensure("shipments", g("numShipments") == pairs)
    clients = n - 2 * pairs - last - 1
    v.ensure("clients: the other activities", g("numClients") == clients)
    e = g("empty")
    v.ensure("empty only if nothing is served", IMPL(e, AND(clients == 0, pairs == 0)))
    v.ensure("empty if nothing is served", IMPL(AND(clients == 0, pairs == 0), e))
    nx = o.len("excessLoad_")
    over = z3.Exists([d], z3.And(0 <= d, d < nx, o.elem("excessLoad_", d) > 0))
    r = dict(hasExcessLoad=over, hasTimeWarp=o.get("timeWarp_") > 0, hasExcessDistance=o.get("excessDistance_") > 0)
    r["isFeasible"] = AND(NOT(over), o.get("timeWarp_") <= 0, o.get("excessDistance_") <= 0)
    for f, want in r.items():
        b = v.call(rf"^pyvrp::Route::{f}\(\) const$", o)
        v.cover(f"{f} can hold", extra=b)
        v.cover(f"{f} can fail", extra=NOT(b))
        v.ensure(f"{f} only if so", IMPL(b, want))
        v.ensure(f"{f} if so", IMPL(want, b))
    v.ensure("start depot", g("startDepot") == index(v, st0, ex.vecelem(sv, SACT, T0)))
    v.ensure("end depot", g("endDepot") == index(v, st0, ex.vecelem(sv, SACT, n - 1)))
    v.ensure("vehicle type", g("vehicleType") == o.get("vehicleType_"))
    w = View(v, ex.vecelem(sv, SACT, i), SACT, st0)
    a = lambda f: v.call(rf"^pyvrp::Route::ScheduledActivity::{f}\(\) const$", w, st=st0.copy())
    for f in ("startTime", "endTime", "waitDuration", "timeWarp", "trip"):
        v.ensure(f"activity: {f}", a(f) == w.get(f + "_"))
    v.ensure("activity: duration is from start to end", a("duration") == w.get("endTime_") - w.get("startTime_"))
    before = len(ex.throws)
    p = v.call(r"^pyvrp::Route::operator\[\]\(unsigned long\) const$", o, i)
    th = v.throws() if len(ex.throws) > before else z3.BoolVal(False)
    v.ensure("an index past the end is rejected", i < n)
    v.ensure("no other index is rejected", NOT(AND(th, i < n)), pc=[])
    v.ensure("activity by index", MC.one(p).idx[-1] == i)
