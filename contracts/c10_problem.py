"""
C10: ProblemData. validate() accepts exactly the data that satisfies the documented
rules; the constructor stores what it is given, computes the aggregate counts, and
validates the result.
"""
import z3
from dv import contract, loopvars, havocs, Sum, sums_tmpl, View
from symex import *
import models

i, j, k = z3.Ints("i j k")
PD = "pyvrp::ProblemData"
MAX = 2**63 - 1


class Data:
    """Reads a ProblemData object in one state."""
    def __init__(self, v, o, st=None):
        self.v, self.ex, self.o, self.st = v, v.ex, o, st or v.st.copy()
    def n(self, vec):
        a, _ = self.o.fieldaddr(vec)
        return self.ex.veclen(self.st, a)
    def view(self, vec, k):
        a, f = self.o.fieldaddr(vec)
        t = LY.norm(vec_arg(f.type))
        return View(self.v, self.ex.vecelem(a, t, k), t, self.st)
    def get(self, vec, k, path):
        w = self.view(vec, k)
        a, f = w.fieldaddr(path)
        t = models.scalar_name(self.ex, f.type)
        return self.ex.load_addr(self.st, a, self.ex.prim_ll(t))
    def opt(self, vec, k, path):
        w = self.view(vec, k)
        a, f = w.fieldaddr(path)
        b, l = self.ex.prim_ll("bool"), self.ex.prim_ll("long")
        return self.ex.load_addr(self.st, Addr(a.region, a.idx, a.off + 8), b) == 1, self.ex.load_addr(self.st, a, l)
    def sublen(self, vec, k, path):
        a, _ = self.view(vec, k).fieldaddr(path)
        return self.ex.veclen(self.st, a)
    def sub(self, vec, k, path, m):
        a, f = self.view(vec, k).fieldaddr(path)
        t = vec_arg(f.type)
        return self.ex.load_addr(self.st, self.ex.vecelem(a, t, m), self.ex.prim_ll(models.scalar_name(self.ex, t)))
    def matrix(self, vec, k, row, col):
        """What the matrix reports at (row, col), by its own accessor."""
        w = self.view(vec, k)
        p = self.v.call(r"^pyvrp::Matrix<" + dict(dists_=D1, durs_=D2)[vec] + r">::operator\(\)\(unsigned long, unsigned long\) const$",
                        w.ptr, row, col, st=self.st.copy())
        return self.ex.load(self.st, p, self.ex.prim_ll("long"))


import layouts as LY
D1, D2 = (r"pyvrp::Measure<\(pyvrp::MeasureType\)%d, long>" % t for t in (1, 2))


def rules(v, d):
    """Documented rules, per object: name -> (vector, condition on index)."""
    nd = d.ex.load_addr(d.st, d.o.fieldaddr("numLoadDimensions_")[0], d.ex.prim_ll("long"))
    nc, nl, ng, ndep = d.n("clients_"), d.n("locations_"), d.n("groups_"), d.n("depots_")

    def client(x):
        has, g = d.opt("clients_", x, "group")
        m = z3.Int("m_client")
        inn = z3.Exists([m], z3.And(0 <= m, m < d.sublen("groups_", g, "clients_"), d.sub("groups_", g, "clients_", m) == x))
        return z3.And(d.get("clients_", x, "location") < nl, d.sublen("clients_", x, "delivery") == nd, d.sublen("clients_", x, "pickup") == nd,
                      z3.Implies(has, z3.And(g < ng, inn, z3.Not(z3.And(d.get("clients_", x, "required") == 1, d.get("groups_", g, "mutuallyExclusive") == 1)))))

    def member(g, m):
        c = d.sub("groups_", g, "clients_", m)
        has, cg = d.opt("clients_", c, "group")
        return z3.And(c < nc, has, cg == g)

    def group(g):
        m = z3.Int("m_group")
        return z3.And(d.sublen("groups_", g, "clients_") > 0, z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < d.sublen("groups_", g, "clients_")), member(g, m))))

    def shipment(x):
        return z3.And(d.get("shipments_", x, "pickup.location") < nl, d.get("shipments_", x, "delivery.location") < nl, d.sublen("shipments_", x, "amount") == nd)

    def overlap(dep, x):
        return z3.And(d.get("depots_", dep, "twEarly") <= d.get("vehicleTypes_", x, "twLate"), d.get("vehicleTypes_", x, "twEarly") <= d.get("depots_", dep, "twLate"))

    def reload_(x, m):
        return d.sub("vehicleTypes_", x, "reloadDepots", m) < ndep

    def vtype(x):
        s, e, m = d.get("vehicleTypes_", x, "startDepot"), d.get("vehicleTypes_", x, "endDepot"), z3.Int("m_reload")
        return z3.And(d.sublen("vehicleTypes_", x, "capacity") == nd, s < ndep, e < ndep, d.get("vehicleTypes_", x, "profile") < d.n("dists_"), overlap(s, x), overlap(e, x),
                      z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < d.sublen("vehicleTypes_", x, "reloadDepots")), reload_(x, m))))

    def diag(x, m):
        return z3.And(d.matrix("dists_", x, m, m) == 0, d.matrix("durs_", x, m, m) == 0)

    def square(x):
        return z3.And(*[d.get(w, x, f) == nl for w in ("dists_", "durs_") for f in ("cols_", "rows_")])

    def mats(x):
        m = z3.Int("m_mat")
        return z3.And(square(x), z3.ForAll([m], z3.Implies(z3.And(0 <= m, m < nl), diag(x, m))))
    single = dict(client=("clients_", client), depot=("depots_", lambda x: d.get("depots_", x, "location") < nl), group=("groups_", group),
                  shipment=("shipments_", shipment), vtype=("vehicleTypes_", vtype), matrix=("dists_", mats))
    inner = dict(member=("groups_", member, lambda h: d.sublen("groups_", h, "clients_")), diag=("dists_", diag, lambda h: nl),
                 reload=("vehicleTypes_", reload_, lambda h: d.sublen("vehicleTypes_", h, "reloadDepots")))
    return single, inner


def bounds(v, d):
    """Facts about types: sizes are non-negative."""
    for vec in ("clients_", "locations_", "groups_", "depots_", "shipments_", "vehicleTypes_", "dists_", "durs_"):
        d.n(vec)


@contract("C10", "validate: accepts exactly the documented problems", timeout=400)
def validate(v):
    v.ex.uf_nonlinear = True
    v.ex.loop_timeout = 1000
    o = v.obj(PD, "data")
    d = Data(v, o)
    single, inner = rules(v, d)
    bounds(v, d)
    # unsigned members: the values of the type
    idx = z3.Int("idx")
    def all_(vec, c, upto=None):
        return z3.ForAll([idx], z3.Implies(z3.And(0 <= idx, idx < (d.n(vec) if upto is None else upto)), c(idx)))
    unsigned = []
    for vec, f in (("clients_", "location"), ("depots_", "location"), ("shipments_", "pickup.location"), ("shipments_", "delivery.location"),
                   ("vehicleTypes_", "startDepot"), ("vehicleTypes_", "endDepot"), ("vehicleTypes_", "profile")):
        unsigned.append(z3.ForAll([idx], d.get(vec, idx, f) >= 0))
    unsigned.append(z3.ForAll([idx], d.opt("clients_", idx, "group")[1] >= 0))
    g, m = z3.Ints("g m")
    for vec, f in (("groups_", "clients_"), ("vehicleTypes_", "reloadDepots")):
        unsigned.append(z3.ForAll([g, m], d.sub(vec, g, f, m) >= 0))
        unsigned.append(z3.ForAll([g], d.sublen(vec, g, f) >= 0))
    for vec, f in (("clients_", "required"), ("groups_", "mutuallyExclusive")):
        unsigned.append(z3.ForAll([g], z3.And(d.get(vec, g, f) >= 0, d.get(vec, g, f) <= 1)))
    a, _ = o.fieldaddr("clients_")
    v.require(*unsigned)

    def tmpl(eview, phis, modified):
        out = []
        for nm, gx in loopvars(eview, phis, modified).items():
            for name, (vec, c) in single.items():
                bn = f"0 <= {nm} <= {vec}"
                out.append((bn, lambda w, gx=gx, vec=vec: z3.And(0 <= gx(w), gx(w) <= d.n(vec)), dict(ground=True)))
                out.append((f"{name} rules below {nm}", lambda w, gx=gx, vec=vec, c=c: all_(vec, c, gx(w)), dict(needs=bn)))
            for h in havocs(eview.env)[-3:]:
                for name, (vec, c, lim) in inner.items():
                    mm = z3.Int("mm")
                    bn = f"{nm} <= size of {name} of {h}"
                    out.append((bn, lambda w, gx=gx, lim=lim, h=h: z3.And(0 <= gx(w), gx(w) <= lim(h)), dict(ground=True)))
                    out.append((f"{name} rules of {h} below {nm}", lambda w, gx=gx, c=c, h=h: z3.ForAll([mm], z3.Implies(z3.And(0 <= mm, mm < gx(w)), c(h, mm))), dict(needs=bn)))
        seen = set()
        return [c for c in out if not (c[0] in seen or seen.add(c[0]))]
    v.ex.loop_templates.append(tmpl)
    good = {n: all_(vec, c) for n, (vec, c) in single.items()}
    good["depots"] = d.n("depots_") > 0
    good["types"] = d.n("vehicleTypes_") > 0
    good["matrices"] = z3.And(d.n("dists_") > 0, d.n("durs_") == d.n("dists_"))
    v.call(r"^pyvrp::ProblemData::validate\(\) const$", o)
    v.cover("some problem is accepted")
    for n, f in good.items():
        v.ensure(f"accepted only if {n} rules hold", f, timeout=30)
    hyp = list(good.values())
    for q, (pc, what, line) in enumerate(v.ex.throws):
        v.ensure(f"rejected only if a rule is broken (throw {q})", z3.BoolVal(False), pc=list(pc) + hyp, timeout=30)


ARGS = [("locations_", "pyvrp::Location"), ("clients_", "pyvrp::Client"), ("depots_", "pyvrp::Depot"), ("vehicleTypes_", "pyvrp::VehicleType"),
        ("dists_", None), ("durs_", None), ("groups_", "pyvrp::ClientGroup"), ("shipments_", "pyvrp::Shipment")]


@contract("C10", "ProblemData: stores what it is given, counts it, and validates it", timeout=300)
def construct(v):
    ex = v.ex
    src = v.obj(PD, "arguments")      # the argument vectors are the vectors of some other object
    o = v.localobj(PD, "data")
    d0 = Data(v, src)
    called = []

    def validated(ex, st, args, fn, inst):
        ex.assumed["contract: ProblemData::validate (proved separately)"] = 1
        if len(args[0].alts) == 1 and args[0].alts[0][1].region is o.addr.region:
            called.append(list(st.pc))
        return None
    ex.handlers.insert(0, (lambda d: d == "pyvrp::ProblemData::validate() const", validated))
    total = Sum(v, "vehicles", lambda x: d0.get("vehicleTypes_", x, "numAvailable"))
    n = d0.n("vehicleTypes_")
    x = z3.Int("x")
    wrap = lambda t: ex.wrap(t, 64)
    v.require(z3.ForAll([x], z3.And(d0.get("vehicleTypes_", x, "numAvailable") >= 0)))
    v.require(total.f(n) < 2**63, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= n), z3.And(total.f(x) >= 0, total.f(x) <= total.f(n)))))
    ex.loop_templates.append(sums_tmpl([total], {"n": n}))
    v.call(r"^pyvrp::ProblemData::ProblemData\(std::vector<pyvrp::Location,[^$]*\)$", o, *[Ptr.to(src.fieldaddr(f)[0]) for f, _ in ARGS])
    v.cover()
    d1 = Data(v, o)
    v.ensure("the data is validated", OR(*[AND(*c) for c in called]))
    v.ensure("never rejected otherwise", NOT(v.throws()), pc=[])
    for f, _ in ARGS:
        v.ensure(f"{f} keeps its length", d1.n(f) == d0.n(f))
        same_(v, f, d0, d1)
    v.ensure("num_vehicles is the sum over the vehicle types", d1.ex.load_addr(v.st, o.fieldaddr("numVehicles_")[0], ex.prim_ll("long")) == total.inst(n))
    nd = ex.load_addr(v.st, o.fieldaddr("numLoadDimensions_")[0], ex.prim_ll("long"))
    v.ensure("num_load_dimensions is that of the vehicle types", IMPL(n > 0, nd == d0.sublen("vehicleTypes_", z3.IntVal(0), "capacity")))
    v.ensure("num_load_dimensions without vehicle types", IMPL(AND(n == 0, d0.n("clients_") > 0), nd == d0.sublen("clients_", z3.IntVal(0), "delivery")))
    tw = lambda vec, x, p="": z3.Or(d0.get(vec, x, p + "twEarly") != 0, d0.get(vec, x, p + "twLate") != MAX)
    any_ = [z3.Exists([x], z3.And(0 <= x, x < d0.n(vec), c(x))) for vec, c in (
        ("clients_", lambda x: tw("clients_", x)), ("depots_", lambda x: tw("depots_", x)),
        ("vehicleTypes_", lambda x: z3.Or(tw("vehicleTypes_", x), d0.get("vehicleTypes_", x, "startLate") != MAX)),
        ("shipments_", lambda x: z3.Or(tw("shipments_", x, "pickup."), tw("shipments_", x, "delivery."))))]
    has = ex.load_addr(v.st, o.fieldaddr("hasTimeWindows_")[0], ex.prim_ll("bool"))
    h = has == 1 if z3.is_int(has) else has
    v.ensure("has_time_windows only if something has one", z3.Implies(h, z3.Or(*any_)))
    v.ensure("has_time_windows if something has one", z3.Implies(z3.Or(*any_), h))


def same_(v, vec, d0, d1):
    """Every field of every element is kept."""
    ex = v.ex
    x, y = z3.Ints("x y")
    a0, f = d0.o.fieldaddr(vec)
    a1, _ = d1.o.fieldaddr(vec)
    t = LY.norm(vec_arg(f.type))
    goals = []
    for off, kind, sub in ex.leaf_cells(t):
        for e0, e1 in [(ex.vecelem(a0, t, x), ex.vecelem(a1, t, x))]:
            p0, p1 = Addr(e0.region, e0.idx, e0.off + off), Addr(e1.region, e1.idx, e1.off + off)
            if kind == "vec":
                goals.append(ex.veclen(d0.st, p0) == ex.veclen(d1.st, p1))
                for o2, k2, s2 in ex.leaf_cells(sub):
                    q0, q1 = ex.vecelem(p0, sub, y), ex.vecelem(p1, sub, y)
                    goals.append(ex.readcell(d0.st, (q0.region, q0.off + o2), q0.idx) == ex.readcell(d1.st, (q1.region, q1.off + o2), q1.idx))
            else:
                goals.append(ex.readcell(d0.st, (p0.region, p0.off), p0.idx) == ex.readcell(d1.st, (p1.region, p1.off), p1.idx))
    v.ensure(f"every {vec.rstrip('_')} element is stored unchanged", z3.And(*goals), also=[0 <= x, x < d0.n(vec)])
