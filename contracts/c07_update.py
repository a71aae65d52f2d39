"""
C07: what a search route caches after update() is a fold over its nodes: locations, counters,
distances, and the duration and load segments of every prefix and suffix, with a trip ended at
every reload depot. Ghost functions over the positions define the folds by the segment operations
that C01 and C02 specify.
"""
import z3
from dv import contract, loopvars, havocs, Sum, View
from symex import *
import models
from c04_routes import kind, index
import matrix_contract as MC
from c03_route import DSEG, DF, MERGE2, MERGE3, DCTOR, MEAS, mx, PD, DP, CL, SH, KINDS
from c08_proposal import Alg, LSEG, LF

ROUTE, NODE, ACT = "pyvrp::search::Route", "pyvrp::search::Route::Node", "pyvrp::Activity"
k, d = z3.Ints("k d")
B = 2**40
T0, T1 = z3.IntVal(0), z3.IntVal(1)
INF = 2**63 - 1
LCTOR = r"^pyvrp::LoadSegment::LoadSegment\(%s\)$"


class Nodes:
    """A search route: positions, the nodes on them, and the representation invariant."""
    def __init__(self, v, name="route"):
        self.v, self.ex = v, v.ex
        ex = v.ex
        self.o = o = v.obj(ROUTE, name)
        self.st = v.st.copy()
        self.vec = o.fieldaddr("nodes")[0]
        self.n = ex.veclen(self.st, self.vec)
        v.require(2 <= self.n, self.n <= B)
        ref = lambda f, c: View(v, MC.one(ex.load_addr(self.st, o.fieldaddr(f)[0], ex.prim_ll("pointer"))), c, self.st)
        self.data, self.veh = ref("data", PD), ref("vehicleType_", "pyvrp::VehicleType")
        self.vecs = {c: self.data.fieldaddr(f)[0] for c, f in ((CL, "clients_"), (DP, "depots_"), (SH, "shipments_"))}
        q = z3.Int("q")
        i = self.id
        # every position has a node of its own; the first and last are the start and end depot
        v.require(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.n), z3.And((i(q) == i(T0)) == (q == 0), (i(q) == i(self.n - 1)) == (q == self.n - 1))), patterns=[i(q)]))
        v.require(self.kind(T0, "depot"), self.kind(self.n - 1, "depot"), i(T0) != i(self.n - 1))
        self.seen, self.keep = set(), []
        def role(at):
            def h(ex_, st, args, fn, inst):
                ex.assumed["contract: Node::isStartDepot and isEndDepot (representation invariant of search::Route)"] = 1
                a = MC.one(args[0])
                if a.region.kind != "heap":
                    raise Unsupported("role of a node that is not on the route")
                return a.idx[0] == i(at)
            return h
        ex.handlers.insert(0, (lambda s: s == f"{NODE}::isStartDepot() const", role(T0)))
        ex.handlers.insert(0, (lambda s: s == f"{NODE}::isEndDepot() const", role(self.n - 1)))
    def id(self, q):
        return self.node(q).idx[0]
    def node(self, q):
        return MC.one(self.ex.load_addr(self.st, self.ex.vecelem(self.vec, NODE + "*", q), self.ex.prim_ll("pointer")))
    def act(self, q):
        return View(self.v, self.node(q), NODE, self.st).fieldaddr("activity_")[0]
    def kind(self, q, w):
        return kind(self.v, self.st, self.act(q), w)
    def idx(self, q):
        return index(self.v, self.st, self.act(q))
    def reload(self, q):
        return z3.And(self.kind(q, "depot"), as_int(q) != 0, as_int(q) != self.n - 1)
    def obj(self, cls, i):
        return View(self.v, self.ex.vecelem(self.vecs[cls], cls, i), cls, self.st)
    def known(self, q):
        """The activity of the node at q is one of the four kinds."""
        key = z3.simplify(as_int(q))
        if key.get_id() not in self.seen:
            self.seen.add(key.get_id())
            self.keep.append(key)
            self.ex.facts.append(z3.Implies(z3.And(0 <= key, key < self.n), z3.And(z3.Or(*[self.kind(q, w) for w in KINDS]), self.idx(q) >= 0)))
    def pick(self, q, f):
        i = self.idx(q)
        r = [f(w, self.obj(DP if w == "depot" else CL if w == "client" else SH, i)) for w in KINDS]
        out = r[-1]
        for w, x in list(zip(KINDS, r))[-2::-1]:
            c = self.kind(q, w)
            out = {n: ITE(c, x[n], out[n]) for n in x} if isinstance(x, dict) else ITE(c, x, out)
        return out
    def loc(self, q):
        return self.pick(q, lambda w, o: o.get(f"{w}.location") if w in ("pickup", "delivery") else o.get("location"))


class Segments:
    """Ghost segments: at, before and after each position."""
    def __init__(self, v, N):
        self.v, self.ex, self.N = v, v.ex, N
        I = z3.IntSort()
        self.A, self.L = Alg(v, DSEG, DF), Alg(v, LSEG, LF)
        prof = N.veh.get("profile", N.st)
        m = lambda w: MC.one(v.call(rf"^pyvrp::ProblemData::{w}Matrix\(unsigned long\) const$", N.data, prof, st=N.st.copy()))
        self.mat = {w: m(w) for w in ("distance", "duration")}
        self.F = {w: {f: z3.Function(f"duration {w} {f}", I, I) for f in DF} for w in ("at", "before", "after")}
        self.G = {w: {f: z3.Function(f"load {w} {f}", I, I, I) for f in LF} for w in ("at", "before", "after")}
        self.seen, self.keep = set(), []
        self.clients = Sum(v, "clients", lambda q: z3.If(N.kind(q, "client"), 1, 0), rng=(0, B))
        self.pickups = Sum(v, "pickups", lambda q: z3.If(N.kind(q, "pickup"), 1, 0), rng=(0, B))
        self.deliveries = Sum(v, "deliveries", lambda q: z3.If(N.kind(q, "delivery"), 1, 0), rng=(0, B))
        self.legs = Sum(v, "legs", lambda q: self.leg("distance", q, q + 1), rng=(-2**61, 2**61))
        self.cap = lambda e: N.veh.elem("capacity", e, st=N.st)
    def leg(self, w, p, q):
        return MC.value(self.v, self.N.st, self.mat[w], self.N.loc(p), self.N.loc(q))
    def dur(self, w, q):
        return {f: self.F[w][f](as_int(q)) for f in DF}
    def load(self, w, q, e):
        return {f: self.G[w][f](as_int(q), as_int(e)) for f in LF}
    def depot(self, o, service):
        return self.A.make(DCTOR % f"pyvrp::Depot const&, {MEAS}", Ptr.to(o.addr), service)
    def make(self, w, o):
        if w == "depot":       # a reload depot: its time window applies when the next trip starts
            return {f: z3.IntVal(INF if f in ("startLate_", "prevEndLate_") else 0) for f in DF}
        if w == "client":
            return self.A.make(DCTOR % "pyvrp::Client const&", Ptr.to(o.addr))
        return self.A.make(DCTOR % "pyvrp::Shipment::Step const&", Ptr.to(o.fieldaddr(w)[0]))
    def lmake(self, d, w, o):
        if w == "depot":
            return self.L.make(LCTOR % "")
        if w == "client":
            return self.L.make(LCTOR % "pyvrp::Client const&, unsigned long", Ptr.to(o.addr), d)
        return self.L.make(LCTOR % "pyvrp::Shipment const&, pyvrp::Activity::ActivityType, unsigned long", Ptr.to(o.addr), self.v.enum("ActivityType", w.upper()), d)
    def vehicle(self, late):
        return self.A.make(DCTOR % f"pyvrp::VehicleType const&, {MEAS}", Ptr.to(self.N.veh.addr), late)
    def at(self, q, *dims):
        """Unfolds the definitions around q (loads: in the given dimensions)."""
        self.N.known(q)
        for x in (q - 1, q, q + 1):
            self.unfold(x, *dims)
        return q
    def unfold(self, q, *dims):
        q = z3.simplify(as_int(q))
        self.keep.append(q)
        for e in dims or (None,):
            e = None if e is None else z3.simplify(as_int(e))
            self.keep.append(e)
            key = (q.get_id(), None if e is None else e.get_id())
            if key not in self.seen:
                self.seen.add(key)
                if e is None and "duration" in self.focus:
                    self.unfold_dur(q)
                if e is not None and "load" in self.focus:
                    self.unfold_load(q, e)
    def parts(self, q):
        n = self.N.n
        return q == 0, q == n - 1, z3.And(0 < q, q < n - 1)
    def unfold_dur(self, q):
        N, n, st = self.N, self.N.n, self.N.st
        veh = N.veh
        first, last, inner = self.parts(q)
        def durs(c, w, p, val):
            self.ex.facts.append(z3.Implies(c, z3.And(*[self.F[w][f](p) == val[f] for f in DF])))
        # at a position
        sd, ed = N.obj(DP, veh.get("startDepot", st)), N.obj(DP, veh.get("endDepot", st))
        durs(first, "at", q, self.A.op(MERGE2, self.vehicle(veh.get("startLate", st)), self.depot(sd, sd.get("serviceDuration", st))))
        durs(last, "at", q, self.A.op(MERGE2, self.depot(ed, T0), self.vehicle(veh.get("twLate", st))))
        durs(inner, "at", q, N.pick(q, self.make))
        # prefix: from the start depot to a position
        p = z3.simplify(q - 1)
        o = N.obj(DP, N.idx(p))
        prev = self.dur("before", p)
        ended = self.A.op(MERGE2, self.A.op(r"^pyvrp::DurationSegment::finaliseBack\(\) const$", prev), self.depot(o, o.get("serviceDuration", st)))
        rng = z3.And(0 < q, q < n)
        durs(first, "before", q, self.dur("at", q))
        durs(rng, "before", q, self.A.op(MERGE3, self.leg("duration", p, q), self.A.pick(N.reload(p), ended, prev), self.dur("at", q)))
        # suffix: from a position to the end depot
        s = z3.simplify(q + 1)
        o = N.obj(DP, N.idx(q))
        nxt = self.dur("after", s)
        started = self.A.op(r"^pyvrp::DurationSegment::finaliseFront\(\) const$", nxt)
        service = self.depot(o, o.get("serviceDuration", st))
        rng = z3.And(0 <= q, q < n - 1)
        durs(last, "after", q, self.dur("at", q))
        durs(rng, "after", q, self.A.op(MERGE3, self.leg("duration", q, s), self.A.pick(N.reload(q), service, self.dur("at", q)), self.A.pick(N.reload(s), started, nxt)))
    def unfold_load(self, q, e):
        N, n, veh = self.N, self.N.n, self.N.veh
        first, last, inner = self.parts(q)
        def loads(c, w, p, val):
            self.ex.facts.append(z3.Implies(c, z3.And(*[self.G[w][f](p, e) == val[f] for f in LF])))
        fin = lambda x: self.L.op(r"^pyvrp::LoadSegment::finalise\(pyvrp::Measure<[^>]*>\) const$", x, self.cap(e))
        lmerge = lambda a, b: self.L.op(r"^pyvrp::LoadSegment::merge\(pyvrp::LoadSegment const&, pyvrp::LoadSegment const&\)$", a, b)
        loads(first, "at", q, self.L.make(LCTOR % "pyvrp::VehicleType const&, unsigned long", Ptr.to(veh.addr), e))
        loads(last, "at", q, self.L.make(LCTOR % ""))
        loads(inner, "at", q, N.pick(q, lambda w, o: self.lmake(e, w, o)))
        p = z3.simplify(q - 1)
        lp = self.load("before", p, e)
        loads(first, "before", q, self.load("at", q, e))
        loads(z3.And(0 < q, q < n), "before", q, lmerge(self.L.pick(N.reload(p), fin(lp), lp), self.load("at", q, e)))
        s = z3.simplify(q + 1)
        ln = self.load("after", s, e)
        loads(last, "after", q, self.load("at", q, e))
        loads(z3.And(0 <= q, q < n - 1), "after", q, lmerge(self.load("at", q, e), self.L.pick(N.reload(s), fin(ln), ln)))


def update(v, focus):
    ex = v.ex
    MC.install(v)
    MC.install_segments(v)
    N = Nodes(v)
    o, n, st0 = N.o, N.n, N.st
    S = Segments(v, N)
    S.focus = focus
    nd = v.call(r"^pyvrp::ProblemData::numLoadDimensions\(\) const$", N.data, st=st0.copy())
    v.require(0 <= nd, nd <= B)
    for f in ("loadAt", "loadAfter", "loadBefore", "load_", "excessLoad_"):
        v.require(o.len(f) == nd)
    # depots: start, end, and the reload depots; each knows its position
    dv_ = o.fieldaddr("depots_")[0]
    nde = ex.veclen(st0, dv_)
    v.require(2 <= nde, nde <= B)
    P = lambda j: View(v, ex.vecelem(dv_, NODE, j), NODE, st0).get("pos_")
    v.require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nde), z3.And(0 <= P(k), P(k) < n))))
    # the position and load dimension the contract speaks about: arbitrary, so every one
    at = v.int("position", 0, B)
    dim = v.int("dimension", 0, B)
    v.require(at < n)
    v.require(dim < nd)
    ex.loop_timeout = 6000
    long, ulong = ex.prim_ll("long"), ex.prim_ll("unsigned long")
    fa = lambda f: o.fieldaddr(f)[0]
    rd = lambda w, f, t, q: ex.load_addr(w.st, ex.vecelem(fa(f), t, q), ulong if t == "unsigned long" else long)
    seg = lambda w, a, cls, q, g: z3.And(*[as_int(View(v, ex.vecelem(a, cls, q), cls, w.st).get(x)) == y for x, y in g.items()])
    loc = lambda w, q: rd(w, "locations", "unsigned long", q) == N.loc(q)
    want, region = {}, {}
    if "count" in focus:
        for f, c in (("numClients_", S.clients), ("numPickups_", S.pickups), ("numDeliveries_", S.deliveries)):
            want[f] = lambda w, q, f=f, c=c: rd(w, f, "unsigned long", q) == c.f(as_int(q) + 1)
            region[f] = ex.vecelem(fa(f), "unsigned long", T0).region
        want["cumDist"] = lambda w, q: rd(w, "cumDist", "Measure", q) == S.legs.f(as_int(q))
        region["cumDist"] = ex.vecelem(fa("cumDist"), "Measure", T0).region
    if "duration" in focus:
        for f, w_ in (("durAt", "at"), ("durBefore", "before"), ("durAfter", "after")):
            want[f] = lambda w, q, f=f, w_=w_: seg(w, fa(f), DSEG, q, S.dur(w_, q))
            region[f] = ex.vecelem(fa(f), DSEG, T0).region
    lregion = ex.vecelem(fa("locations"), "unsigned long", T0).region
    everywhere = {"durAt"}          # read back at other positions than those just written
    inner = lambda f, e: ex.vecelem(fa(f), "std::vector<pyvrp::LoadSegment>", e)
    LV = {"loadAt": "at", "loadBefore": "before", "loadAfter": "after"} if "load" in focus else {}
    lens = lambda w, f, e: ex.veclen(w.st, inner(f, e))
    lwant = lambda w, f, q, e: seg(w, inner(f, e), LSEG, q, S.load(LV[f], q, e))
    for f in LV:
        region[f] = ex.vecelem(inner(f, T0), LSEG, T0).region
    TOT = {f: ex.vecelem(fa(f), "Measure", T0).region for f in ("load_", "excessLoad_")} if LV else {}
    cell = lambda w, f, e: ex.load_addr(w.st, ex.vecelem(fa(f), "Measure", e), long)
    excess = lambda e: S.L.get(r"^pyvrp::LoadSegment::excessLoad\(pyvrp::Measure<[^>]*>\) const$", S.load("before", n - 1, e), S.cap(e))
    I = z3.IntSort()
    D = z3.Function("trip loads", I, I, I)
    seen, keep = set(), []
    def carried(j, e):
        """Load carried on the trips that end at depots 1, ..., j - 1."""
        for q in (z3.simplify(as_int(j) - 1), z3.simplify(as_int(j))):
            key = (q.get_id(), e.get_id())
            if key not in seen:
                seen.add(key)
                keep.append((q, e))
                x = S.L.get(r"^pyvrp::LoadSegment::load\(\) const$", S.load("before", P(q), e))
                ex.facts.append(z3.Implies(q >= 1, D(q + 1, e) == D(q, e) + x))
                ex.facts.append(D(1, e) == 0)
        return D(as_int(j), e)
    totals = {"load_": lambda e: carried(nde, e), "excessLoad_": excess}
    S.at(T0)
    S.at(n - 1)
    S.at(at)
    if LV:
        for q in (T0, n - 1, at):
            S.at(q, dim)
        totals["load_"](dim)
    def counts(q):
        if "count" in focus:
            for c in (S.clients, S.pickups, S.deliveries, S.legs):
                c.inst(q - 1)
                c.inst(q)
                c.inst(q + 1)
    counts(T1), counts(at)
    dims = []
    def loads(eview, lv, lmods, tmods):
        out = []
        outer = len(lmods) == len(LV) and len(tmods) == len(TOT)
        if outer:
            dims[:] = [x.split()[-1] for x in lv]
        h = [x for x in havocs(eview.env) if any(f"havoc!{y}!" in x.decl().name() for y in dims)]     # the dimension of the enclosing loop
        if not outer and not h:
            return out
        for x, gx in lv.items():
            if outer:
                b = f"0 <= {x} <= dimensions"
                out.append((b, lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= nd), dict(ground=True)))
                for f in lmods:
                    out.append((f"{f} in dimensions below {x}", lambda w, f=f, gx=gx: z3.Implies(dim < gx(w), z3.And(lens(w, f, dim) == n, lwant(w, f, at, dim))), dict(needs=b)))
                for f in tmods:
                    out.append((f"{f} in dimensions below {x}", lambda w, f=f, gx=gx: z3.Implies(dim < gx(w), cell(w, f, dim) == totals[f](dim)), dict(needs=b)))
                continue
            c = h[-1]
            done = lambda w, f: z3.Implies(dim < c, lwant(w, f, at, dim))
            def inst(w, gx=gx):
                q = gx(w)
                S.at(q, c)
                S.at(T0, c)
                S.at(n - 1, c)
                return q
            if "load_" in tmods:
                b = f"1 <= {x} <= depots"
                out.append((b, lambda w, gx=gx: z3.And(1 <= gx(w), gx(w) <= nde), dict(ground=True)))
                out.append((f"load_ of the depots before {x}", lambda w, gx=gx: z3.And(cell(w, "load_", c) == carried(gx(w), c), z3.Implies(dim < c, cell(w, "load_", dim) == totals["load_"](dim))), dict(needs=b)))
                continue
            b = f"0 <= {x} <= nodes"
            out.append((b, lambda w, inst=inst: z3.And(0 <= inst(w), inst(w) <= n), dict(ground=True)))
            out.append((f"1 <= {x}", lambda w, gx=gx: 1 <= gx(w), dict(ground=True)))
            out.append((f"{x} < nodes", lambda w, gx=gx: gx(w) < n, dict(ground=True)))
            for f in lmods:
                out.append((f"{f} in dimensions before this", lambda w, f=f: done(w, f)))
                if f == "loadAfter":
                    out.append((f"{f} from {x} on", lambda w, f=f, inst=inst, gx=gx: z3.And(lwant(w, f, inst(w), c), z3.Implies(at >= gx(w), lwant(w, f, at, c))), dict(needs=f"{x} < nodes")))
                    continue
                last = (lambda q: k == n - 1) if f == "loadAt" else (lambda q: False)
                out.append((f"{f} below {x}", lambda w, f=f, inst=inst, last=last: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Or(k < inst(w), last(k))), lwant(w, f, k, c))), dict(needs=b)))
        return out
    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        regs = {q[0] for q in modified}
        mods = [f for f in want if region[f] in regs]
        lmods = [f for f in LV if region[f] in regs]
        tmods = [f for f in TOT if TOT[f] in regs]
        if not lv or not (mods or lmods or tmods or lregion in regs and not LV):
            return out
        if lmods or tmods:
            return loads(eview, lv, lmods, tmods)
        for x, gx in lv.items():
            b = f"0 <= {x} <= nodes"
            def inst(w, gx=gx):
                q = gx(w)
                S.at(q)
                counts(q)
                return q
            out.append((b, lambda w, inst=inst: z3.And(0 <= inst(w), inst(w) <= n), dict(ground=True)))
            out.append((f"1 <= {x}", lambda w, gx=gx: 1 <= gx(w), dict(ground=True)))
            out.append((f"{x} < nodes", lambda w, gx=gx: gx(w) < n, dict(ground=True)))
            if lregion in regs:
                out.append((f"{x} locations", lambda w, inst=inst: ex.veclen(w.st, fa("locations")) == inst(w), dict(ground=True)))
                out.append((f"locations below {x}", lambda w, inst=inst: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < inst(w)), loc(w, k))), dict(needs=b)))
            for f in mods:
                if f in everywhere:
                    out.append((f"{f} below {x} and last", lambda w, f=f, inst=inst: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Or(k < inst(w), k == n - 1)), want[f](w, k))), dict(needs=b)))
                    continue
                out.append((f"{f} below {x}", lambda w, f=f, inst=inst, gx=gx: z3.And(want[f](w, inst(w) - 1), z3.Implies(at < gx(w), want[f](w, at))), dict(needs=f"1 <= {x}")))
                out.append((f"{f} from {x} on", lambda w, f=f, inst=inst, gx=gx: z3.And(want[f](w, inst(w)), z3.Implies(at >= gx(w), want[f](w, at))), dict(needs=f"{x} < nodes")))
        return [c if len(c) == 2 or c[2] else c[:2] for c in out]
    ex.loop_templates.append(tmpl)
    v.call(r"^pyvrp::search::Route::update\(\)$", o)
    v.cover(extra=AND(n == 3, nd == 1, nde == 2))
    w = type("W", (), dict(st=v.st))
    for f in want:
        v.ensure(f"{f}: one per node", ex.veclen(v.st, fa(f)) == n)
        v.ensure(f"{f}: as folded", want[f](w, at))
    for f in LV:
        v.ensure(f"{f}: one per node", lens(w, f, dim) == n)
        v.ensure(f"{f}: as folded", lwant(w, f, at, dim))
    for f in TOT:
        v.ensure(f"{f}: that of the trips" if f == "load_" else f"{f}: that of the whole route", cell(w, f, dim) == totals[f](dim))
    g = lambda f: o.get(f, v.st)
    veh = N.veh
    if "count" in focus:
        v.ensure("locations: one per node", ex.veclen(v.st, fa("locations")) == n)
        v.ensure("locations: those of the nodes", loc(w, at))
        v.ensure("the nodes are kept", ex.veclen(v.st, N.vec) == n)
        dist = S.legs.inst(n - 1)
        v.ensure("distance", g("distance_") == dist)
        v.ensure("excess distance", g("excessDistance_") == mx(dist - veh.get("maxDistance", st0), 0))
        v.ensure("distance cost", g("distanceCost_") == veh.get("unitDistanceCost", st0) * dist)
    if "duration" in focus:
        whole = S.dur("after", T0)
        T = S.A.get(r"^pyvrp::DurationSegment::duration\(\) const$", whole)
        v.ensure("duration: that of the whole route", g("duration_") == T)
        v.ensure("time warp: that of the whole route", g("timeWarp_") == S.A.get(rf"^pyvrp::DurationSegment::timeWarp\({MEAS}\) const$", whole, veh.get("maxDuration", st0)))
        v.ensure("duration cost", g("durationCost_") == veh.get("unitDurationCost", st0) * T + veh.get("unitOvertimeCost", st0) * mx(T - veh.get("shiftDuration", st0), 0))


@contract("C07", "update: locations, counters and distances are folds over the nodes", timeout=200)
def update_counts(v):
    update(v, {"count"})


@contract("C07", "update: duration segments are folds over the nodes", timeout=300)
def update_durations(v):
    update(v, {"duration"})


@contract("C07", "update: load segments are folds over the nodes in every dimension", timeout=400)
def update_loads(v):
    update(v, {"load"})
