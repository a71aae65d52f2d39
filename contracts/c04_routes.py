"""
C04: which routes and solutions are accepted. Ghost counters say how often each client and
shipment step occurs among the activities seen so far.
"""
import z3
from dv import contract, loopvars, havocs, Sum, View
from symex import *
import models
import bitset_contract as BC

S, R, PD, ACT, SACT, VT = "pyvrp::Solution", "pyvrp::Route", "pyvrp::ProblemData", "pyvrp::Activity", "pyvrp::Route::ScheduledActivity", "pyvrp::VehicleType"
k, s, r, p, c, t, g, m = z3.Ints("k s r p c t g m")
IS = dict(depot="isDepot", client="isClient", pickup="isPickup", delivery="isDelivery")


def kind(v, st, addr, what):
    return v.ex.asbool(v.call(rf"^pyvrp::Activity::{IS[what]}\(\) const$", Ptr.to(addr), st=st.copy()))


def index(v, st, addr):
    return v.call(r"^pyvrp::Activity::idx\(\) const$", Ptr.to(addr), st=st.copy())


def getter(v, st, data, f):
    return v.call(rf"^pyvrp::ProblemData::{f}\(\) const$", data, st=st.copy())


class Count:
    """Ghost counter over a sequence: C(0, s) = 0, C(k + 1, s) = C(k, s) + [hit(k, s)]."""
    n = 0
    def __init__(self, v, name, hit):
        Count.n += 1
        self.v, self.name, self.hit = v, name, hit
        self.f = z3.Function(f"count!{name}!{Count.n}", z3.IntSort(), z3.IntSort(), z3.IntSort())
        v.ex.facts.append(z3.ForAll([s], self.f(0, s) == 0))
        self.done = set()
    def at(self, q, x):
        for i in [q] + ([z3.IntVal(j) for j in range((self.v.unroll or 0) + 1)]):
            self.unfold(i)
            self.unfold(i - 1)
        return self.f(q, x)
    def unfold(self, q):
        q = z3.simplify(as_int(q))
        if q.get_id() in self.done:
            return
        self.done.add(q.get_id())
        self.v.ex.keep = getattr(self.v.ex, "keep", []) + [q]
        self.v.ex.facts.append(z3.Implies(q >= 0, z3.ForAll([s], self.f(q + 1, s) == self.f(q, s) + z3.If(self.hit(q, s), 1, 0))))
    def monotone(self, n):
        """Lemma (proved below by induction): a counter does not decrease."""
        return z3.ForAll([k, s], z3.Implies(z3.And(0 <= k, k <= n), z3.And(self.f(k, s) >= 0, self.f(k, s) <= self.f(n, s))))


@contract(["C04", "C05"], "lemma: counters do not decrease")
def lemma_count(v):
    hit = z3.Function("hit", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    C = Count(v, "lemma", lambda q, x: hit(q, x))
    a, b, x = v.int("a", 0), v.int("b", 0), v.int("x")
    C.at(b, x)
    C.at(b + 1, x)
    v.ensure("base", C.f(a, x) <= C.f(a, x))
    v.ensure("step", z3.And(C.f(b + 1, x) >= 0, C.f(a, x) <= C.f(b + 1, x)), also=[a <= b, C.f(b, x) >= 0, C.f(a, x) <= C.f(b, x)])


@contract("C04", "a route is accepted exactly when it refers to existing objects, serves shipments in order within trips, and has no more trips than allowed", timeout=300)
def route_validate(v):
    ex = v.ex
    ex.loop_timeout = 1500
    BC.install(v)
    route, data = v.obj(R, "route"), v.obj(PD, "data")
    acts = v.localobj("std::vector<pyvrp::Activity>", "activities")
    a = acts.addr
    ex.setlen(v.st, a, v.int("visits", 0, 2**40))
    st0 = v.st.copy()
    n = ex.veclen(st0, a)
    el = lambda q: ex.vecelem(a, ACT, q)
    K = lambda q, w: kind(v, st0, el(q), w)
    idx = lambda q: index(v, st0, el(q))
    nc, ns, nd, nv = (getter(v, st0, data, f) for f in ("numClients", "numShipments", "numDepots", "numVehicleTypes"))
    vt = v.call(r"^pyvrp::Route::vehicleType\(\) const$", route, st=st0.copy())
    va = ex.vecelem(data.fieldaddr("vehicleTypes_")[0], VT, vt)
    v.require(z3.ForAll([k], idx(k) >= 0), vt >= 0)
    mr = View(v, va, VT, st0).get("maxReloads")
    v.require(-2**63 <= mr, mr < 2**63)   # any 64-bit value; negative terms stand for the upper half of the unsigned range
    maxtrips = v.call(r"^pyvrp::VehicleType::maxTrips\(\) const$", Ptr.to(va), st=st0.copy())
    P = Count(v, "pickups", lambda q, x: z3.And(K(q, "pickup"), idx(q) == x))
    D = Count(v, "deliveries", lambda q, x: z3.And(K(q, "delivery"), idx(q) == x))
    T = Count(v, "depots", lambda q, x: K(q, "depot"))
    rng = lambda x: z3.And(0 <= x, x < ns)

    def known(q):
        return z3.And(z3.Implies(K(q, "depot"), idx(q) < nd), z3.Implies(K(q, "client"), idx(q) < nc),
                      z3.Implies(z3.Or(K(q, "pickup"), K(q, "delivery")), idx(q) < ns))
    same_trip = lambda q: z3.Implies(K(q, "depot"), z3.ForAll([s], z3.Implies(rng(s), P.f(q, s) == D.f(q, s))))
    order = lambda q: z3.Implies(K(q, "delivery"), P.f(q, idx(q)) >= 1)
    below = lambda c, q: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < q), c(k)))
    per = dict(known=known, trip=same_trip, order=order)

    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        for nm, gx in lv.items():
            b, b2 = f"0 <= {nm} <= visits", f"0 <= {nm} <= shipments"
            out.append((b, lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= n), dict(ground=True)))
            out.append((b2, lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= ns), dict(ground=True)))
            for q, cnd in per.items():
                out.append((f"{q} rules below {nm}", lambda w, gx=gx, cnd=cnd: below(cnd, gx(w)), dict(needs=b)))
            for j, ba in enumerate(ex.bitsets):
                L = ex.veclen(eview.st, ba)
                out.append((f"set {j} holds shipments only ({nm})", lambda w, ba=ba, L=L: z3.ForAll([s], z3.Implies(z3.And(ns <= s, s < L), BC.bit(ex, w.st, ba, s) == 0))))
                for C in (P, D):
                    out.append((f"set {j} holds the {C.name} below {nm}", lambda w, gx=gx, ba=ba, C=C, L=L: z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < L), z3.And(
                        BC.bit(ex, w.st, ba, s) == C.at(gx(w), s), BC.bit(ex, w.st, ba, s) >= 0, BC.bit(ex, w.st, ba, s) <= 1))), dict(needs=b)))
            out.append((f"pairs below {nm}", lambda w, gx=gx: z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < gx(w)), P.f(n, s) == D.f(n, s))), dict(needs=b2)))
            for ny, gy in lv.items():
                if ny != nm:
                    try:
                        e0 = gy(eview)
                    except SkipCandidate:
                        continue
                    out.append((f"{ny} = entry + depots below {nm}", lambda w, gx=gx, gy=gy, e0=e0: gy(w) == e0 + T.at(gx(w), z3.IntVal(0))))
        return out
    ex.loop_templates.append(tmpl)
    v.require(T.f(n, 0) < 2**60, T.monotone(n))
    v.call(r"^pyvrp::Route::validate\(pyvrp::ProblemData const&, .*\) const$", route, data, acts)
    v.cover("some route is accepted", extra=AND(n == 2))
    for C in (P, D, T):
        C.at(n, z3.IntVal(0))
    good = dict(type_=vt < nv, **{q: below(cnd, n) for q, cnd in per.items()})
    good["once"] = z3.ForAll([s], z3.Implies(rng(s), z3.And(P.f(n, s) <= 1, D.f(n, s) <= 1)))
    good["paired"] = z3.ForAll([s], z3.Implies(rng(s), P.f(n, s) == D.f(n, s)))
    good["trips"] = 1 + T.f(n, 0) <= z3.If(maxtrips < 0, maxtrips + 2**64, maxtrips)
    title = dict(type_="its vehicle type exists", known="all visits exist", trip="shipments are served within a trip", order="deliveries follow their pickups",
                 once="no step is visited twice", paired="every pickup has its delivery", trips="it has no more trips than allowed")
    for q, f in good.items():
        v.ensure(f"accepted only if {title[q]}", f, timeout=30)
    hyp = list(good.values()) + [P.monotone(n), D.monotone(n)]
    for q, (pc, what, line) in enumerate(ex.throws):
        v.ensure(f"rejected only if a rule is broken (throw {q})", z3.BoolVal(False), pc=list(pc) + hyp, timeout=30)
    BC.ensure_indices(v)


class Visits:
    """Ghost counter over all activities of all routes: N(r, p, c) is the number of visits of c before position p of route r."""
    n = 0
    def __init__(self, v, name, hit, length):
        Visits.n += 1
        self.v, self.name, self.hit, self.length = v, name, hit, length
        I = z3.IntSort()
        self.f = z3.Function(f"visits!{name}!{Visits.n}", I, I, I, I)
        v.ex.facts.append(z3.ForAll([c], self.f(0, 0, c) == 0))
        self.done = set()
    def at(self, rr, pp, x):
        self.unfold(rr, pp)
        self.unfold(rr, pp - 1)
        self.step(rr)
        self.step(rr - 1)
        for i in range((self.v.unroll or 0)):
            self.step(z3.IntVal(i))
            for j in range(self.v.unroll + 2):
                self.unfold(z3.IntVal(i), z3.IntVal(j))
        return self.f(rr, pp, x)
    def fresh(self, *key):
        key = tuple(z3.simplify(as_int(q)) for q in key)
        ids = tuple(q.get_id() for q in key)
        if ids in self.done:
            return None
        self.done.add(ids)
        self.v.ex.keep = getattr(self.v.ex, "keep", []) + list(key)
        return key
    def unfold(self, rr, pp):
        key = self.fresh(rr, pp)
        if key:
            rr, pp = key
            self.v.ex.facts.append(z3.Implies(z3.And(rr >= 0, pp >= 0), z3.ForAll([c], self.f(rr, pp + 1, c) == self.f(rr, pp, c) + z3.If(self.hit(rr, pp, c), 1, 0))))
    def step(self, rr):
        key = self.fresh(rr)
        if key:
            rr, = key
            self.v.ex.facts.append(z3.Implies(rr >= 0, z3.ForAll([c], self.f(rr + 1, 0, c) == self.f(rr, self.length(rr), c))))
    def monotone(self, n):
        """Lemma (proved below by induction): the counter does not decrease along the routes."""
        return z3.ForAll([r, p, c], z3.Implies(z3.And(0 <= r, r < n, 0 <= p, p <= self.length(r)), z3.And(self.f(r, p, c) >= 0, self.f(r, p, c) <= self.f(n, 0, c))))


@contract(["C04", "C05"], "lemma: visits do not decrease along the routes")
def lemma_visits(v):
    I = z3.IntSort()
    hit, L = z3.Function("hit", I, I, I, z3.BoolSort()), z3.Function("len", I, I)
    N = Visits(v, "lemma", lambda a, b, x: hit(a, b, x), lambda a: L(a))
    a, b, n, x = v.int("a", 0), v.int("b", 0), v.int("n", 0), v.int("x")
    v.require(L(a) >= 0, L(n) >= 0)
    N.at(a, b, x)
    N.at(n, 0, x)
    v.ensure("within a route, by induction on the position", z3.And(N.f(a, b + 1, x) >= N.f(a, 0, x), N.f(a, b, x) <= N.f(a, b + 1, x)), also=[N.f(a, b, x) >= N.f(a, 0, x)])
    N.step(n)
    v.ensure("over routes, by induction on the number of routes", N.f(a, b, x) <= N.f(n + 1, 0, x), also=[N.f(a, b, x) <= N.f(n, 0, x), N.f(n, 0, x) <= N.f(n, L(n), x)])
    v.ensure("the counter starts at zero", N.f(0, 0, x) == 0)


@contract(["C04", "C05"], "a solution is accepted exactly when nothing is visited twice, groups are exclusive, no route is empty and the fleet suffices; what is missing is counted", timeout=600)
def solution_ctor(v):
    ex = v.ex
    ex.loop_timeout = 1500
    BC.install(v)
    data = v.obj(PD, "data")
    o = v.localobj(S, "solution")
    arg = v.localobj("std::vector<pyvrp::Route>", "routes")
    ra = arg.addr
    ex.setlen(v.st, ra, v.int("routes", 0, 2**40))
    st0 = v.st.copy()
    n = ex.veclen(st0, ra)
    route = lambda q: ex.vecelem(ra, R, q)
    rv = lambda q: View(v, route(q), R, st0)
    length = lambda q: ex.veclen(st0, rv(q).fieldaddr("schedule_")[0])
    act = lambda q, b: ex.vecelem(rv(q).fieldaddr("schedule_")[0], SACT, b)
    K = lambda q, b, w: kind(v, st0, act(q, b), w)
    idx = lambda q, b: index(v, st0, act(q, b))
    call = lambda q, f: v.call(rf"^pyvrp::Route::{f}\(\) const$", Ptr.to(route(q)), st=st0.copy())
    nc, ns, ng, nv, veh = (getter(v, st0, data, f) for f in ("numClients", "numShipments", "numGroups", "numVehicleTypes", "numVehicles"))
    inr = z3.And(0 <= r, r < n)
    # what the routes' own validation establishes (route_validate): their visits and vehicle types exist
    v.require(veh >= 0, z3.ForAll([r], z3.Implies(inr, z3.And(call(r, "vehicleType") >= 0, call(r, "vehicleType") < nv, length(r) >= 0))),
              z3.ForAll([r, p], z3.Implies(z3.And(inr, 0 <= p, p < length(r)), z3.And(idx(r, p) >= 0, z3.Implies(K(r, p, "client"), idx(r, p) < nc),
                        z3.Implies(K(r, p, "pickup"), idx(r, p) < ns)))))
    gv = lambda q: View(v, ex.vecelem(data.fieldaddr("groups_")[0], "pyvrp::ClientGroup", q), "pyvrp::ClientGroup", st0)
    glen = lambda q: ex.veclen(st0, gv(q).fieldaddr("clients_")[0])
    member = lambda q, b: ex.load_addr(st0, ex.vecelem(gv(q).fieldaddr("clients_")[0], "unsigned long", b), ex.prim_ll("long"))
    # of the data (C10): members of groups exist
    v.require(z3.ForAll([g, m], z3.Implies(z3.And(0 <= g, g < ng, 0 <= m, m < glen(g)), z3.And(member(g, m) >= 0, member(g, m) < nc))), z3.ForAll([g], glen(g) >= 0),
              z3.ForAll([g], gv(g).get("mutuallyExclusive") == 1))
    C = Visits(v, "clients", lambda a, b, x: z3.And(K(a, b, "client"), idx(a, b) == x), length)
    H = Visits(v, "shipments", lambda a, b, x: z3.And(K(a, b, "pickup"), idx(a, b) == x), length)
    U = Count(v, "vehicles of type", lambda q, x: call(q, "vehicleType") == x)
    v.require(U.monotone(n), z3.ForAll([t], z3.And(U.f(n, t) < 2**60)))
    tot = lambda x: C.f(n, 0, x)
    toth = lambda x: H.f(n, 0, x)
    vtype = lambda x: View(v, ex.vecelem(data.fieldaddr("vehicleTypes_")[0], VT, x), VT, st0)
    avail = lambda x: vtype(x).get("numAvailable")
    v.require(z3.ForAll([t], avail(t) >= 0))
    I = z3.IntSort()
    M = Count(v, "visited members", lambda b, x: tot(member(x, b)) >= 1)     # M(b, g): visited clients among the first b members of g
    req = lambda vec, typ, x: View(v, ex.vecelem(data.fieldaddr(vec)[0], typ, x), typ, st0).get("required") == 1
    v.require(*[z3.ForAll([t], z3.And(0 <= z, z <= 1)) for z in (View(v, ex.vecelem(data.fieldaddr(vec)[0], typ, t), typ, st0).get("required")
                for vec, typ in (("clients_", "pyvrp::Client"), ("shipments_", "pyvrp::Shipment"), ("groups_", "pyvrp::ClientGroup")))])
    big = (0, 2**62)
    MC = Sum(v, "missing clients", lambda x: z3.If(z3.And(tot(x) == 0, req("clients_", "pyvrp::Client", x)), 1, 0), rng=big)
    MS = Sum(v, "missing shipments", lambda x: z3.If(z3.And(toth(x) == 0, req("shipments_", "pyvrp::Shipment", x)), 1, 0), rng=big)
    MG = Sum(v, "missing groups", lambda x: z3.If(z3.And(M.at(glen(x), x) == 0, req("groups_", "pyvrp::ClientGroup", x)), 1, 0), rng=big)
    UC = Sum(v, "unplanned clients", lambda x: z3.If(tot(x) == 0, 1, 0), rng=big)
    US = Sum(v, "unplanned shipment steps", lambda x: z3.If(toth(x) == 0, 2, 0), rng=big)
    fields = {f: o.fieldaddr(f)[0] for f in ("numMissingClients_", "numMissingShipments_", "numMissingGroups_")}
    un, _ = o.fieldaddr("unplanned_")
    ul = lambda w: ex.veclen(w.st, un)
    uel = lambda q: ex.vecelem(un, ACT, q)
    uis = lambda w, q, what, x: z3.And(kind(v, w.st, uel(q), what), index(v, w.st, uel(q)) == x)
    called = []

    def evaluated(ex_, st, args, fn, inst):
        ex.assumed["contract: Solution::evaluate (proved in C05)"] = 1
        called.append((list(st.pc), st.copy()))
        return None
    ex.handlers.insert(0, (lambda d: d == "pyvrp::Solution::evaluate(pyvrp::ProblemData const&)", evaluated))

    def group_ok(x):
        return M.f(glen(x), x) <= 1
    def unplanned_clients(w, lim):
        return z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < lim, tot(c) == 0), z3.And(0 <= UC.f(c), UC.f(c) < UC.f(lim), uis(w, UC.f(c), "client", c))))
    def unplanned_ships(w, lim):
        q = UC.f(nc) + US.f(c)
        return z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < lim, toth(c) == 0), z3.And(0 <= US.f(c), US.f(c) + 1 < US.f(lim), uis(w, q, "pickup", c), uis(w, q + 1, "delivery", c))))

    def tmpl(eview, phis, modified):
        out = []
        lv = loopvars(eview, phis, modified)
        mods = {(q[0], q[1]) for q in modified if len(q) == 2}
        hv = havocs(eview.env)[-3:]
        keys = {q[0] for q in modified}
        grows = any(q[0] is un.region and q[1] == un.off for q in modified)
        sets = [(j, ba) for j, ba in enumerate(ex.bitsets) if any(q[0].kind == "elem" and q[0].parent[0] is ba.region for q in modified)]
        counters = [q[0] for q in modified if q[0].kind == "elem" and root_region(q[0]).name.startswith("loc_")]
        e = eview
        for nm, gx in lv.items():
            lims = dict(routes=n, clients=nc, shipments=ns, groups=ng, types=nv)
            for ln, lim in lims.items():
                out.append((f"0 <= {nm} <= {ln}", lambda w, gx=gx, lim=lim: z3.And(0 <= gx(w), gx(w) <= lim), dict(ground=True)))
            b = f"0 <= {nm} <= routes"
            for j, ba in sets:
                L = ex.veclen(e.st, ba)
                for N in (C, H):
                    out.append((f"set {j} holds the {N.name} before route {nm}", lambda w, gx=gx, ba=ba, N=N, L=L: z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < L), z3.And(
                        BC.bit(ex, w.st, ba, c) == N.at(gx(w), z3.IntVal(0), c), BC.bit(ex, w.st, ba, c) >= 0, BC.bit(ex, w.st, ba, c) <= 1))), dict(needs=b)))
                    for h in hv:
                        bb = f"0 <= {nm} <= length of {h}"
                        out.append((f"set {j} holds the {N.name} before position {nm} of {h}", lambda w, gx=gx, ba=ba, N=N, L=L, h=h: z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < L), z3.And(
                            BC.bit(ex, w.st, ba, c) == N.at(h, gx(w), c), BC.bit(ex, w.st, ba, c) >= 0, BC.bit(ex, w.st, ba, c) <= 1))), dict(needs=bb)))
            for h in hv:
                out.append((f"0 <= {nm} <= length of {h}", lambda w, gx=gx, h=h: z3.And(0 <= gx(w), gx(w) <= length(h)), dict(ground=True)))
                out.append((f"0 <= {nm} <= members of {h}", lambda w, gx=gx, h=h: z3.And(0 <= gx(w), gx(w) <= glen(h)), dict(ground=True)))
                for ny, gy in lv.items():
                    if ny != nm:
                        out.append((f"{ny} = visited members of {h} before {nm}", lambda w, gx=gx, gy=gy, h=h: gy(w) == M.at(gx(w), h), dict(needs=f"0 <= {nm} <= members of {h}")))
            out.append((f"routes before {nm} are not empty", lambda w, gx=gx: z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < gx(w)), z3.Not(ex.asbool(call(r, "empty"))))), dict(needs=b)))
            for creg in {id(q): q for q in counters}.values():
                out.append((f"{creg.name} counts vehicles before {nm}", lambda w, gx=gx, creg=creg: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < nv),
                            ex.load_addr(w.st, Addr(creg, (t,), 0), ex.prim_ll("long")) == U.at(gx(w), t))), dict(needs=b)))
            for f, s_, ln in (("numMissingClients_", MC, "clients"), ("numMissingShipments_", MS, "shipments"), ("numMissingGroups_", MG, "groups")):
                if (fields[f].region, fields[f].off) in mods:
                    out.append((f"{f} below {nm}", lambda w, gx=gx, f=f, s_=s_: ex.load_addr(w.st, fields[f], ex.prim_ll("long")) == s_.inst(gx(w)), dict(needs=f"0 <= {nm} <= {ln}")))
            if grows:
                out.append((f"unplanned clients below {nm} are listed", lambda w, gx=gx: z3.And(ul(w) == UC.inst(gx(w)), unplanned_clients(w, gx(w))), dict(needs=f"0 <= {nm} <= clients")))
                out.append((f"unplanned shipments below {nm} are listed", lambda w, gx=gx: z3.And(ul(w) == UC.f(nc) + US.inst(gx(w)), unplanned_clients(w, nc), unplanned_ships(w, gx(w))), dict(needs=f"0 <= {nm} <= shipments")))
            out.append((f"groups below {nm} are exclusive", lambda w, gx=gx: z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < gx(w)), group_ok(g))), dict(needs=f"0 <= {nm} <= groups")))
            out.append((f"vehicles of types below {nm} suffice", lambda w, gx=gx: z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < gx(w)), U.f(n, t) <= avail(t))), dict(needs=f"0 <= {nm} <= types")))
        return out
    ex.loop_templates.append(tmpl)
    v.call(r"^pyvrp::Solution::Solution\(pyvrp::ProblemData const&, std::vector<pyvrp::Route, [^,]*>>\)$", o, data, arg)
    if not called:
        raise Unsupported("Solution::evaluate is not used")
    v.cover("some solution is accepted", extra=AND(n == 1))
    w = type("W", (), dict(st=v.st))
    for s_, lim in ((MC, nc), (MS, ns), (MG, ng), (UC, nc), (US, ns)):
        s_.inst(lim)
    good = dict(fleet=n <= veh)
    good["nonempty"] = z3.ForAll([r], z3.Implies(inr, z3.Not(ex.asbool(call(r, "empty")))))
    good["clients"] = z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < nc), tot(c) <= 1))
    good["shipments"] = z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < ns), toth(c) <= 1))
    good["groups"] = z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < ng), group_ok(g)))
    good["types"] = z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < nv), U.f(n, t) <= avail(t)))
    title = dict(fleet="there are not more routes than vehicles", nonempty="no route is empty", clients="no client is visited twice", shipments="no shipment is visited twice",
                 groups="no group is visited twice", types="no vehicle type is used more often than available")
    for q, f in good.items():
        v.ensure(f"accepted only if {title[q]}", f, timeout=30)
    hyp = list(good.values()) + [C.monotone(n), H.monotone(n)]
    for q, (pc, what, line) in enumerate(ex.throws):
        v.ensure(f"rejected only if a rule is broken (throw {q})", z3.BoolVal(False), pc=list(pc) + hyp, timeout=30)
    BC.ensure_indices(v)
    rd = lambda f: ex.load_addr(v.st, fields[f], ex.prim_ll("long"))
    v.ensure("missing clients are the required ones that are not visited", rd("numMissingClients_") == MC.f(nc))
    v.ensure("missing shipments are the required ones that are not visited", rd("numMissingShipments_") == MS.f(ns))
    v.ensure("missing groups are the required ones without a visited member", rd("numMissingGroups_") == MG.f(ng))
    v.ensure("as many unplanned activities as there are", ul(w) == UC.f(nc) + US.f(ns))
    v.ensure("every unvisited client is unplanned", unplanned_clients(w, nc), timeout=30)
    v.ensure("both steps of every unvisited shipment are unplanned", unplanned_ships(w, ns), timeout=30)
    v.ensure("the routes are kept", ex.veclen(v.st, o.fieldaddr("routes_")[0]) == n)
    v.ensure("the totals are evaluated", OR(*[AND(*pc) for pc, _ in called]))
