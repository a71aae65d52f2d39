"""
C08: what a proposal reports, for every combination of segments that occurs in the code.

Segments are seen through their own accessors, which are arbitrary here (their values are
contracts of their own, below and in C07). Obligations: distance, duration and excess load of
the proposal are those of the concatenation of its segments, with the reload depots at the
boundaries accounted for as on a route: service within the depot's time window, then the next
trip; load limits per trip.
"""
import re
import z3
from dv import contract, View
from symex import *
import dv
import matrix_contract as MC
from c03_route import DSEG, DF, MERGE3, DCTOR, MEAS, mx, PD, DP

ROUTE, PROXY, LSEG = "pyvrp::search::Route", "pyvrp::search::SegmentProxy", "pyvrp::LoadSegment"
LF = ["initial_", "delta_", "increase_", "excessLoad_"]
B = 2**40
ACC = re.compile(r"^(?:.* )?(?:pyvrp::search::(?:Route::)?|\(anonymous namespace\)::)(\w*Segment\w*)::(route|front|back|size|startsAtReloadDepot|endsAtReloadDepot|distance|duration|load)\((?:unsigned long)?\) const$")


class Seg:
    """What one segment reports."""
    def __init__(self, v, j, cls, addr, route):
        self.v, self.j, self.cls, self.addr, self.route = v, j, cls, addr, route
        ex = v.ex
        t = f"segment {j}"
        I = z3.IntSort()
        self.size = v.int(f"{t} size", 1, B)
        self.starts, self.ends = z3.Bool(f"{t} starts at a reload depot"), z3.Bool(f"{t} ends at a reload depot")
        self.place = {e: v.int(f"{t} {e} location", 0, B) for e in ("front", "back")}
        self.idx = {e: v.int(f"{t} {e} index", 0, B) for e in ("front", "back")}
        self.dist = z3.Function(f"{t} distance", I, I)
        self.dur = {f: z3.Function(f"{t} {f}", I, I) for f in DF}
        self.load = {f: z3.Function(f"{t} {f}", I, I) for f in LF}
        one = AND(*[self.place["front"] == self.place["back"], self.idx["front"] == self.idx["back"], self.starts == self.ends])
        v.require(IMPL(self.size == 1, one))
        if cls == "DepotSegment":
            v.require(self.starts, self.ends, self.size == 1)
        elif cls.startswith(("Client", "Pickup", "Delivery")):
            v.require(NOT(self.starts), NOT(self.ends), self.size == 1)
        elif cls == "SegmentBefore":
            v.require(NOT(self.starts))
        elif cls == "SegmentAfter":
            v.require(NOT(self.ends))
    def write(self, st, o, fs, arg):
        for n, f in fs.items():
            self.v.ex.store_addr(st, o.fieldaddr(n)[0], f(arg), self.v.ex.prim_ll("long"), True)
    def access(self, ex, st, args, fn, name):
        v = self.v
        void = fn.rettype.kind == "void"
        arg = as_int(plain(args[-1])) if fn.dem.endswith("(unsigned long) const") else None
        if name == "route":
            return self.route.ptr
        if name == "size":
            return self.size
        if name in ("startsAtReloadDepot", "endsAtReloadDepot"):
            return self.starts if name[0] == "s" else self.ends
        if name == "distance":
            return self.dist(arg)
        cls = PROXY if name in ("front", "back") else DSEG if name == "duration" else LSEG
        if not void and fn.rettype.kind not in ("ptr", "pointer"):
            raise Unsupported(f"result of {fn.dem}")
        o = View(v, MC.one(args[0]), cls, st) if void else v.localobj(cls, f"{name} of {self.j}")
        if name == "duration":
            self.write(st, o, self.dur, arg)
        elif name == "load":
            self.write(st, o, self.load, arg)
        else:
            a = o.fieldaddr("activity_")[0]
            w = View(v, a, "pyvrp::Activity", st)
            ex.store_addr(st, w.fieldaddr("idx_")[0], self.idx[name], ex.prim_ll("unsigned long"), True)
            ty = w.fieldaddr("type_")[0]
            ex.store_addr(st, ty, v.int(f"segment {self.j} {name} type", 0, 3), ex.prim_ll("int"), True)
            ex.store_addr(st, o.fieldaddr("location_")[0], self.place[name], ex.prim_ll("unsigned long"), True)
        return None if void else o.ptr


def setup(v, dem):
    """A proposal object: its segments lie in a std::tuple (last segment first)."""
    ex = v.ex
    inner = re.search(r"Proposal<(.*)>::\w+\(", dem).group(1)
    names = [s.split("::")[-1].strip() for s in inner.split(", ")]
    route = v.obj(ROUTE, "route")
    loc = ex.local("proposal")
    p, at, segs = Ptr.to(Addr(loc, (), 0)), {}, {}
    for j in [j for j in range(len(names)) if not names[j].endswith("&")] + [j for j in range(len(names)) if names[j].endswith("&")]:
        if names[j].endswith("&"):     # held by reference: a pointer, which lies before the preceding segment
            names[j] = names[j][:-1]
            a = Addr(ex.local(f"segment {j}"), (), 0)
            o = next((o for o, q in at.items() if q == j - 1), None)
            if o is None:
                raise Unsupported("a proposal that starts with a reference")
            ex.store_addr(v.st, Addr(loc, (), o - 8), Ptr.to(a), ex.prim_ll("pointer"), True)
            segs[j] = Seg(v, j, names[j], a, route)
            continue
        tail = f"std::get<{j}ul, {inner}>(std::tuple<{inner}> const&)"
        get = [f for d, fs in v.m.bydem.items() if d.endswith(tail) for f in fs if not f.decl]
        if not get:
            raise Unsupported(f"no {tail}")
        a = MC.one(v.call(get[0], p, st=v.st.copy()))
        at[a.off] = j
        segs[j] = Seg(v, j, names[j], a, route)
    segs = [segs[j] for j in range(len(names))]

    def handler(ex_, st, args, fn, inst):
        ex.assumed["contract: accessors of the segments"] = 1
        m = ACC.match(fn.dem)
        this = MC.one(args[1] if fn.rettype.kind == "void" else args[0])
        s = next((s for s in segs if s.addr.region is this.region and s.addr.off == this.off), None)
        if s is None:
            raise Unsupported(f"{fn.dem} of something else")
        if m.group(1) not in (s.cls, "SegmentBetween" if s.cls == "IncrementalSegmentBetween" else None):
            raise Unsupported(f"{fn.dem}: not where {s.cls} was expected")
        return s.access(ex, st, args, fn, m.group(2))
    ex.handlers.insert(0, (lambda d: bool(ACC.match(d)), handler))
    return route, p, segs


def pair(r):
    if isinstance(r, Agg) and len(r.elems) == 2:
        return [as_int(x.elems[0] if isinstance(x, Agg) else x) for x in r.elems]
    raise Unsupported("a pair was expected")


def prop(v, route, f, st):
    return v.call(rf"^pyvrp::search::Route::{f}\(\) const$", route, st=st.copy())


def distance(v, fn):
    ex = v.ex
    MC.install(v)
    route, p, segs = setup(v, fn.dem)
    st0 = v.st.copy()
    r = v.call(fn, p)
    cost, excess = pair(r)
    prof = prop(v, route, "profile", st0)
    total = 0
    m = data_of(v, st0, route, "distance", prof)
    for j, s in enumerate(segs):
        total = total + s.dist(prof)
        if j:
            total = total + MC.value(v, st0, m, segs[j - 1].place["back"], s.place["front"])
    v.cover()
    v.ensure("distance: that of the segments and of the legs between them", cost == prop(v, route, "unitDistanceCost", st0) * total)
    v.ensure("excess distance", excess == mx(total - prop(v, route, "maxDistance", st0), 0))


def data_of(v, st, route, which, prof):
    d = v.ex.load_addr(st, route.fieldaddr("data")[0], v.ex.prim_ll("pointer"))
    return MC.one(v.call(rf"^pyvrp::ProblemData::{which}Matrix\(unsigned long\) const$", d, prof, st=st.copy()))


class Alg:
    """Runs the segment operations (or their contracts in force) on states of their own. Segments are dicts of fields."""
    def __init__(self, v, cls, fields):
        self.v, self.cls, self.fields, self.scratch = v, cls, fields, v.st.copy()
    def obj(self, val=None):
        o = self.v.localobj(self.cls, "ghost")
        for n in self.fields if val else ():
            self.v.ex.store_addr(self.scratch, o.fieldaddr(n)[0], val[n], self.v.ex.prim_ll("long"), True)
        return o
    def read(self, o):
        return {n: as_int(self.v.ex.load_addr(self.scratch, o.fieldaddr(n)[0], self.v.ex.prim_ll("long"))) for n in self.fields}
    def run(self, pat, *args):
        v = self.v
        keep, v.st = v.st, self.scratch
        try:
            fn = v.find(pat)
            args = [a.ptr if isinstance(a, View) else a for a in args]
            for match, h in v.ex.handlers:
                if match(fn.dem) and not ACC.match(fn.dem):
                    return h(v.ex, v.st, args, fn, None)
            return v.call(fn, *args)
        finally:
            v.st, self.scratch = keep, v.st
    def make(self, pat, *args):
        o = self.obj()
        self.run(pat, o, *args)
        return self.read(o)
    def op(self, pat, *args):
        return self.make(pat, *[self.obj(a) if isinstance(a, dict) else a for a in args])
    def pick(self, c, a, b):
        return {n: ITE(c, a[n], b[n]) for n in self.fields}
    def get(self, pat, a, *args):
        return as_int(self.run(pat, self.obj(a), *args))


def excess_load(v, fn):
    route, p, segs = setup(v, fn.dem)
    v.require(NOT(segs[0].starts), NOT(segs[-1].ends))   # a proposal begins and ends at the vehicle's own depots
    st0 = v.st.copy()
    dim = v.int("dimension", 0, B)
    cap = v.ex.load_addr(st0, v.ex.vecelem(MC.one(prop(v, route, "capacity", st0)), "Measure", dim), v.ex.prim_ll("long"))
    A = Alg(v, LSEG, LF)
    L = lambda s: {n: f(dim) for n, f in s.load.items()}
    fin = lambda c, a: A.pick(c, A.op(r"^pyvrp::LoadSegment::finalise\(pyvrp::Measure<[^>]*>\) const$", a, cap), a)
    ls = fin(segs[0].ends, L(segs[0]))
    for s in segs[1:]:
        ls = fin(s.starts, ls)      # the reload depot before the segment: a trip ends
        ls = A.op(r"^pyvrp::LoadSegment::merge\(pyvrp::LoadSegment const&, pyvrp::LoadSegment const&\)$", ls, L(s))
        ls = fin(AND(s.ends, s.size > 1), ls)
    want = A.get(r"^pyvrp::LoadSegment::excessLoad\(pyvrp::Measure<[^>]*>\) const$", ls, cap)
    r = v.call(fn, p, dim)
    v.cover()
    v.ensure("excess load: that of the segments, trip by trip", as_int(r) == want)


def duration(v, fn):
    ex = v.ex
    MC.install(v)
    MC.install_segments(v)
    route, p, segs = setup(v, fn.dem)
    v.require(NOT(segs[0].starts), NOT(segs[-1].ends))
    st0 = v.st.copy()
    g = lambda f: prop(v, route, f, st0)
    prof = g("profile")
    m = data_of(v, st0, route, "duration", prof)
    leg = lambda a, b: MC.value(v, st0, m, a, b)
    data = View(v, MC.one(ex.load_addr(st0, route.fieldaddr("data")[0], ex.prim_ll("pointer"))), PD, st0)
    A = Alg(v, DSEG, DF)
    D = lambda s: {n: f(prof) for n, f in s.dur.items()}
    front = lambda c, a: A.pick(c, A.op(r"^pyvrp::DurationSegment::finaliseFront\(\) const$", a), a)
    merge = lambda e, a, b: A.op(MERGE3, e, a, b)
    last = segs[-1]
    ds, place = front(last.starts, D(last)), last.place["front"]
    for j in reversed(range(len(segs) - 1)):
        s = segs[j]
        edge = leg(s.place["back"], place)
        depot = View(v, ex.vecelem(data.fieldaddr("depots_")[0], DP, s.idx["back"]), DP, st0)
        service = A.make(DCTOR % f"pyvrp::Depot const&, {MEAS}", Ptr.to(depot.addr), depot.get("serviceDuration"))
        trip = front(True, merge(edge, service, ds))      # what follows is a trip of its own, from the depot on
        ds = A.pick(s.ends, merge(0, D(s), trip), merge(edge, D(s), ds))
        place = s.place["front"]
        if j:
            ds = front(AND(s.starts, s.size > 1), ds)
    T = A.get(r"^pyvrp::DurationSegment::duration\(\) const$", ds)
    over = mx(T - g("shiftDuration"), 0)
    W = A.get(rf"^pyvrp::DurationSegment::timeWarp\({MEAS}\) const$", ds, g("maxDuration"))
    cost, warp = pair(v.call(fn, p))
    v.cover()
    v.ensure("duration cost: that of the segments, trip by trip", cost == g("unitDurationCost") * T + g("unitOvertimeCost") * over)
    v.ensure("time warp: that of the segments, trip by trip", warp == W)


for name, make in (("distance", distance), ("excessLoad", excess_load), ("duration", duration)):
    try:
        todo = sorted(x for x, fs in dv.load()[0].bydem.items() if re.match(rf"^(.* )?pyvrp::search::Route::Proposal<[^<>]*>::{name}\([^()]*\) const$", x) and any(not f.decl for f in fs))
    except Exception:
        todo = []
    for x in todo:
        segs = re.sub(r"pyvrp::search::(Route::)?|\(anonymous namespace\)::", "", re.search(r"Proposal<(.*)>::", x).group(1))
        contract("C08", f"Proposal<{segs}>::{name}")(lambda v, x=x, make=make: make(v, [f for f in v.m.bydem[x] if not f.decl][0]))
