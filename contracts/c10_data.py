"""
C10: constructors of the data classes. Each accepts its arguments if and only if the
documented rules hold, and stores exactly what was passed (amounts padded with zeroes
to a common number of dimensions).
"""
import z3
from dv import contract, loopvars, Sum, sums_tmpl, View
from symex import *
import models

i, j = z3.Ints("i j")
MAX = 2**63 - 1
NS = "pyvrp::"


def num(v, name):
    return v.int(name, -2**63, MAX)


def size(v, name):
    return v.int(name, 0, MAX)


class Vec:
    """A vector argument."""
    def __init__(self, v, name, T):
        self.v, self.T = v, T
        r = v.ex.local(name, ctype=f"std::vector<{T}>")
        self.addr = Addr(r, (), 0)
        self.n = v.int(f"{name}.size", 0, 2**40)
        v.ex.setlen(v.st, self.addr, self.n)
        self.st0 = v.st.copy()
        self.ll = v.ex.prim_ll("long")
        self.ptr = Ptr.to(self.addr)
        self(z3.Int("i"))       # fixes the element type
    def __call__(self, k, st=None):
        return self.v.ex.load_addr(st or self.st0, self.v.ex.vecelem(self.addr, self.T, k), self.ll)
    def padded(self, k):
        return z3.If(z3.And(0 <= k, k < self.n), self(k), 0)


class Str:
    """A std::string argument."""
    def __init__(self, v, name):
        r = v.ex.local(name)
        self.content = v.int(f"{name}.content")
        v.ex.store_addr(v.st, Addr(r, (), 0), models.new_string(v.ex, v.st, self.content), v.ex.prim_ll("pointer"), True)
        self.ptr = Ptr.to(Addr(r, (), 0))


class Opt:
    """A std::optional<integer> argument."""
    def __init__(self, v, name, lo=-2**63):
        r = v.ex.local(name, ctype=None)
        self.has = v.ex.const(f"{name}.engaged", "bool")
        self.val = v.int(name, lo, MAX)
        v.ex.store_addr(v.st, Addr(r, (), 0), self.val, v.ex.prim_ll("long"), True)
        v.ex.store_addr(v.st, Addr(r, (), 8), z3.If(self.has, z3.IntVal(1), z3.IntVal(0)), v.ex.prim_ll("bool"), True)
        self.ptr = Ptr.to(Addr(r, (), 0))


def name_of(o):
    a, f = o.fieldaddr("name")
    return models.content(o.V.ex, o.V.st, o.V.ex.load_addr(o.V.st, a, o.V.ex.prim_ll("pointer")))


def elem(o, path, k):
    a, f = o.fieldaddr(path)
    return o.V.ex.load_addr(o.V.st, o.V.ex.vecelem(a, vec_arg(f.type), k), o.V.ex.prim_ll("long"))


def loops(v, *conds):
    """Loop template: cond(k) for all k below something the loop carries."""
    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            out.append((f"0 <= {nm}", lambda w, g=g: g(w) >= 0))
            for q, (n, c) in enumerate(conds):
                out.append((f"0 <= {nm} <= n{q}", lambda w, g=g, n=n: z3.And(0 <= g(w), g(w) <= n)))
                out.append((f"condition {q} below {nm}", lambda w, g=g, c=c: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g(w)), c(i)))))
        return out
    v.ex.loop_templates.append(tmpl)


def nonneg(x):
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.n), x(i) >= 0))


def accept(v, pat, o, args, good, covers=True):
    """Calls the constructor and states: accepted iff good."""
    v.call(pat, o, *[a.ptr if isinstance(a, (Vec, Str, Opt)) else a for a in args])
    if covers:
        v.cover("some arguments are accepted")
    v.ensure("accepted only if the documented rules hold", good)
    v.ensure("rejected only if a documented rule is broken", NOT(AND(v.throws(), good)), pc=[])


def bit(x):
    """bool argument (i1) as stored."""
    return z3.If(x, z3.IntVal(1), z3.IntVal(0))


def stored(v, o, **fields):
    for f, want in fields.items():
        got = o.get(f.replace("__", "."))
        if z3.is_bool(want) and not z3.is_bool(got):
            want = bit(want)
        v.ensure(f"{f.replace('__', '.')} is stored unchanged", got == want)


@contract(["C10"], "Depot: documented rules, stored unchanged")
def depot(v):
    loc, twe, twl, sd, nm = size(v, "location"), num(v, "tw_early"), num(v, "tw_late"), num(v, "service_duration"), Str(v, "name")
    o = v.localobj(NS + "Depot", "depot")
    good = AND(sd >= 0, twe <= twl, twe >= 0)
    accept(v, r"^pyvrp::Depot::Depot\(unsigned long,", o, [loc, twe, twl, sd, nm], good)
    stored(v, o, location=loc, twEarly=twe, twLate=twl, serviceDuration=sd)
    v.ensure("name is stored unchanged", name_of(o) == nm.content)


@contract(["C10"], "Client: documented rules, stored unchanged and padded")
def client(v):
    loc = size(v, "location")
    d, p = Vec(v, "delivery", "Measure"), Vec(v, "pickup", "Measure")
    sd, twe, twl, rel, prize = (num(v, x) for x in ("service_duration", "tw_early", "tw_late", "release_time", "prize"))
    req = v.ex.const("required", "bool")
    grp, nm = Opt(v, "group", 0), Str(v, "name")
    o = v.localobj(NS + "Client", "client")
    loops(v, (d.n, lambda k: d(k) >= 0), (p.n, lambda k: p(k) >= 0))
    good = AND(nonneg(d), nonneg(p), sd >= 0, twe <= twl, twe >= 0, rel <= twl, rel >= 0, prize >= 0)
    accept(v, r"^pyvrp::Client::Client\(unsigned long,", o, [loc, d, p, sd, twe, twl, rel, prize, req, grp, nm], good)
    stored(v, o, location=loc, twEarly=twe, twLate=twl, serviceDuration=sd, releaseTime=rel, prize=prize, required=req)
    v.ensure("name is stored unchanged", name_of(o) == nm.content)
    amounts(v, o, ("delivery", d), ("pickup", p))
    optional(v, o, "group", grp)


def optional(v, o, f, opt):
    a, _ = o.fieldaddr(f)
    ex = v.ex
    has = ex.load_addr(v.st, Addr(a.region, a.idx, a.off + 8), ex.prim_ll("bool"))
    val = ex.load_addr(v.st, Addr(a.region, a.idx, a.off), ex.prim_ll("long"))
    v.ensure(f"{f} is stored unchanged", z3.And((has == 1) == opt.has, z3.Implies(opt.has, val == opt.val)))


def amounts(v, o, *pairs):
    """Vectors padded with zeroes to the largest of their lengths."""
    n = pairs[0][1].n
    for _, x in pairs[1:]:
        n = z3.If(x.n > n, x.n, n)
    for f, x in pairs:
        a, _ = o.fieldaddr(f)
        v.ensure(f"{f} has as many dimensions as the longest argument", v.ex.veclen(v.st, a) == n)
        v.ensure(f"{f} amounts are stored unchanged, padded with zeroes", elem(o, f, j) == x.padded(j), also=[0 <= j, j < n])


@contract(["C10"], "Shipment step and shipment: documented rules, stored unchanged")
def shipment(v):
    pl, dl = size(v, "pickup_location"), size(v, "delivery_location")
    pe, pt, ps, de, dt, ds, prize = (num(v, x) for x in ("pickup_tw_early", "pickup_tw_late", "pickup_service", "delivery_tw_early", "delivery_tw_late", "delivery_service", "prize"))
    am, nm = Vec(v, "amount", "Measure"), Str(v, "name")
    req = v.ex.const("required", "bool")
    o = v.localobj(NS + "Shipment", "shipment")
    loops(v, (am.n, lambda k: am(k) >= 0))
    good = AND(ps >= 0, ds >= 0, 0 <= pe, pe <= pt, 0 <= de, de <= dt, dt >= pe, nonneg(am), prize >= 0)
    accept(v, r"^pyvrp::Shipment::Shipment\(unsigned long,", o, [pl, dl, pe, pt, ps, de, dt, ds, am, prize, req, nm], good)
    stored(v, o, pickup__location=pl, delivery__location=dl, pickup__twEarly=pe, pickup__twLate=pt, pickup__serviceDuration=ps,
           delivery__twEarly=de, delivery__twLate=dt, delivery__serviceDuration=ds, prize=prize, required=req)
    v.ensure("name is stored unchanged", name_of(o) == nm.content)
    amounts(v, o, ("amount", am))


@contract(["C10"], "Client group: no duplicates, stored unchanged")
def group(v):
    cl, nm = Vec(v, "clients", "unsigned long"), Str(v, "name")
    req = v.ex.const("required", "bool")
    o = v.localobj(NS + "ClientGroup", "group")
    ca, _ = o.fieldaddr("clients_")
    ex = v.ex
    dup = lambda a, b: z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < b), cl(i) != cl(j)))
    def tmpl(eview, phis, modified):
        out = []
        for nm_, g in loopvars(eview, phis, modified).items():
            out.append((f"0 <= {nm_} <= n", lambda w, g=g: z3.And(0 <= g(w), g(w) <= cl.n)))
            out.append((f"{nm_} members so far", lambda w, g=g: ex.veclen(w.st, ca) == g(w)))
            out.append((f"members are the first {nm_} clients", lambda w, g=g: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g(w)), ex.load_addr(w.st, ex.vecelem(ca, "unsigned long", i), ex.prim_ll("long")) == cl(i)))))
            out.append((f"no duplicates before {nm_}", lambda w, g=g: dup(0, g(w))))
        return out
    ex.loop_templates.append(tmpl)
    good = dup(0, cl.n)
    accept(v, r"^pyvrp::ClientGroup::ClientGroup\(std::vector<", o, [cl, req, nm], good)
    stored(v, o, required=req)
    v.ensure("groups are mutually exclusive", o.get("mutuallyExclusive") == 1)
    v.ensure("name is stored unchanged", name_of(o) == nm.content)
    v.ensure("all clients are members", ex.veclen(v.st, ca) == cl.n)
    v.ensure("members are the clients given, in order", elem(o, "clients_", j) == cl(j), also=[0 <= j, j < cl.n])


@contract(["C10"], "Client group: adding a client")
def add_client(v):
    o = v.obj(NS + "ClientGroup", "group")
    c = size(v, "client")
    st0 = v.st.copy()
    ca, _ = o.fieldaddr("clients_")
    ex = v.ex
    n = ex.veclen(st0, ca)
    old = lambda k: ex.load_addr(st0, ex.vecelem(ca, "unsigned long", k), ex.prim_ll("long"))
    inn = z3.Exists([i], z3.And(0 <= i, i < n, old(i) == c))
    v.call(r"^pyvrp::ClientGroup::addClient\(unsigned long\)$", o, c)
    v.cover()
    v.ensure("rejects exactly a member: accepted", z3.Not(inn))
    v.ensure("rejects exactly a member: rejected", NOT(AND(v.throws(), z3.Not(inn))), pc=[])
    v.ensure("one more member", ex.veclen(v.st, ca) == n + 1)
    v.ensure("the new member is last", elem(o, "clients_", n) == c)
    v.ensure("the other members stay", elem(o, "clients_", j) == old(j), also=[0 <= j, j < n])


@contract(["C10"], "Vehicle type: documented rules, stored unchanged and padded", timeout=300)
def vehicle_type(v):
    na = v.int("num_available", 0, MAX)
    cap, il = Vec(v, "capacity", "Measure"), Vec(v, "initial_load", "Measure")
    sdep, edep, prof = size(v, "start_depot"), size(v, "end_depot"), size(v, "profile")
    fixed, twe, twl, shift, maxd, udist, udur, movt, uovt = (num(v, x) for x in (
        "fixed_cost", "tw_early", "tw_late", "shift_duration", "max_distance", "unit_distance_cost", "unit_duration_cost", "max_overtime", "unit_overtime_cost"))
    mr = num(v, "max_reloads")
    sl = Opt(v, "start_late")
    rd, nm = Vec(v, "reload_depots", "unsigned long"), Str(v, "name")
    o = v.localobj(NS + "VehicleType", "vehicle_type")
    loops(v, (cap.n, lambda k: cap(k) >= 0), (il.n, lambda k: il(k) >= 0), (il.n, lambda k: il(k) <= cap.padded(k)),
          (z3.If(cap.n > il.n, cap.n, il.n), lambda k: il.padded(k) <= cap.padded(k)))
    late = z3.If(sl.has, sl.val, twl)
    good = AND(na >= 1, nonneg(cap), nonneg(il), twe <= late, late <= twl, twe >= 0, shift >= 0, maxd >= 0, udist >= 0, udur >= 0,
               movt >= 0, uovt >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < il.n), il(i) <= cap.padded(i))))
    accept(v, r"^pyvrp::VehicleType::VehicleType\(unsigned long,", o,
           [na, cap, sdep, edep, fixed, twe, twl, shift, maxd, udist, udur, prof, sl, il, rd, mr, movt, uovt, nm], good)
    stored(v, o, numAvailable=na, startDepot=sdep, endDepot=edep, fixedCost=fixed, twEarly=twe, twLate=twl, shiftDuration=shift,
           maxDistance=maxd, unitDistanceCost=udist, unitDurationCost=udur, profile=prof, startLate=late, maxReloads=mr, maxOvertime=movt,
           unitOvertimeCost=uovt)
    v.ensure("the maximum duration is shift duration plus overtime (saturating)",
             o.get("maxDuration") == z3.If(shift + movt <= MAX, shift + movt, MAX))
    v.ensure("name is stored unchanged", name_of(o) == nm.content)
    amounts(v, o, ("capacity", cap), ("initialLoad", il))
    ra, _ = o.fieldaddr("reloadDepots")
    v.ensure("all reload depots are stored", v.ex.veclen(v.st, ra) == rd.n)
    v.ensure("reload depots are stored in order", elem(o, "reloadDepots", j) == rd(j), also=[0 <= j, j < rd.n])
    mt = v.call(r"^pyvrp::VehicleType::maxTrips\(\) const$", o)
    v.ensure("max_trips is one more than the number of reloads (saturating), or one if there is nowhere to reload",
             mt == z3.If(rd.n == 0, 1, z3.If(mr == -1, mr, z3.If(mr == MAX, -2**63, mr + 1))))


@contract(["C10"], "Location: stored unchanged")
def location(v):
    ex = v.ex
    x, y, nm = ex.const("x", "real"), ex.const("y", "real"), Str(v, "name")
    o = v.localobj(NS + "Location", "location")
    v.call(r"^pyvrp::Location::Location\(pyvrp::Measure<\(pyvrp::MeasureType\)0, double>,", o, x, y, nm.ptr)
    v.cover()
    dbl = ex.prim_ll("double")
    for f, want in (("x", x), ("y", y)):
        a, _ = o.fieldaddr(f)
        v.ensure(f"{f} is stored unchanged", ex.load_addr(v.st, a, dbl) == want)
    v.ensure("name is stored unchanged", name_of(o) == nm.content)
    v.ensure("never rejected", NOT(v.throws()), pc=[])
