"""
C11: equality and copies of the data classes. Two objects compare equal if and only if all
their attributes are equal (names by their characters); a copy has the same value in every
attribute. The attributes are those the compiler reports for the class. Where they are not
the ones listed here, whether a new one is part of the value (or a cache of it) is for the
author of the contract to say: undecided until then.
"""
import z3
from dv import contract, View
from symex import *
import layouts as LY
import models

NS = "pyvrp::"
# attributes that follow from others: (class, attribute) -> invariant of the constructor (C10)
DERIVED = {"pyvrp::VehicleType": {"maxDuration"}}
MAX = 2**63 - 1
ATTRS = {NS + c: a for c, a in {
    "Location": "name x y",
    "Client": "delivery group location name pickup prize releaseTime required serviceDuration twEarly twLate",
    "Depot": "location name serviceDuration twEarly twLate",
    "Shipment": "amount delivery name pickup prize required",
    "Shipment::Step": "location serviceDuration twEarly twLate",
    "ClientGroup": "clients_ mutuallyExclusive name required",
    "VehicleType": "capacity endDepot fixedCost initialLoad maxDistance maxDuration maxOvertime maxReloads name numAvailable profile reloadDepots"
                   " shiftDuration startDepot startLate twEarly twLate unitDistanceCost unitDurationCost unitOvertimeCost",
    "Activity": "idx_ type_",
    "Route::ScheduledActivity": "idx_ type_ endTime_ startTime_ timeWarp_ trip_ waitDuration_",
}.items()}


def leaf_type(ex, cls, sub):
    if cls == NS + "Location" and sub == "Measure":
        return ex.prim_ll("double")
    return ex.prim_ll(models.scalar_name(ex, sub)) if not sub.endswith("*") else ex.prim_ll("pointer")


def differs(v, cls, a, b, sa, sb, skip=()):
    """[(attribute, formula: equal)] of two objects of the class."""
    ex = v.ex
    rec = v.recs[cls]
    out = []
    x = z3.Int("x")
    for off, kind, sub in ex.leaf_cells(cls):
        f = rec.leaf_at(off)
        name = top(rec, off)
        if name in skip:
            continue
        p, q = Addr(a.region, a.idx, a.off + off), Addr(b.region, b.idx, b.off + off)
        if kind == "vec":
            n = ex.veclen(sa, p)
            eq = []
            for o2, k2, s2 in ex.leaf_cells(sub):
                if k2 == "vec":
                    raise Unsupported("nested vectors")
                ty = leaf_type(ex, sub, s2)
                e0, e1 = ex.vecelem(p, sub, x), ex.vecelem(q, sub, x)
                eq.append(ex.load_addr(sa, Addr(e0.region, e0.idx, e0.off + o2), ty) == ex.load_addr(sb, Addr(e1.region, e1.idx, e1.off + o2), ty))
            out.append((name, z3.And(n == ex.veclen(sb, q), z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(*eq))))))
        elif sub.endswith("*"):
            out.append((name, models.content(ex, sa, ex.load_addr(sa, p, ex.prim_ll("pointer"))) == models.content(ex, sb, ex.load_addr(sb, q, ex.prim_ll("pointer")))))
        else:
            ty = leaf_type(ex, cls, sub)
            out.append((name, ex.load_addr(sa, p, ty) == ex.load_addr(sb, q, ty)))
    # an optional is equal if both are empty, or both engaged with equal values
    unknown = {n.split(".")[0] for n, _ in out} - set(ATTRS[cls].split())
    if unknown:
        raise Unsupported(f"{cls} has attributes this contract does not know: {sorted(unknown)}")
    res, opts = [], {}
    for k in rec.kids:
        if k.type.startswith("std::optional<"):
            A, B = (View(v, y, cls) for y in (a, b))
            l, bl = ex.prim_ll("long"), ex.prim_ll("bool")
            g = lambda y, s, o, t: ex.load_addr(s, Addr(y.region, y.idx, y.off + k.off + o), t)
            h0, h1 = g(a, sa, 8, bl) == 1, g(b, sb, 8, bl) == 1
            opts[k.name] = z3.And(h0 == h1, z3.Implies(h0, g(a, sa, 0, l) == g(b, sb, 0, l)))
    for n, f in out:
        t = n.split(".")[0]
        if t in opts:
            if opts[t] is not None:
                res.append((t, opts[t]))
                opts[t] = None
        else:
            res.append((n, f))
    return res


def top(rec, off):
    def find(kids, pre):
        for k in kids:
            if k.name.endswith("(empty)"):
                continue
            if k.kids and not k.type.startswith("std::vector<"):
                r = find(k.kids, pre + ([k.name] if not k.name.startswith("(base") else []))
                if r:
                    return r
            elif k.off == off:
                return ".".join((pre + [k.name])[:2])
    return find(rec.kids, []) or str(off)


def invariants(v, cls, a, st):
    if cls == NS + "VehicleType":
        w = View(v, a, cls, st)
        s, m = w.get("shiftDuration"), w.get("maxOvertime")
        v.require(s >= 0, m >= 0, w.get("maxDuration") == z3.If(s + m <= MAX, s + m, MAX))
    if cls == NS + "ClientGroup":  # a constant: set by the constructor (C10), never assigned after
        v.require(View(v, a, cls, st).get("mutuallyExclusive") == 1)


CLASSES = ["Location", "Client", "Depot", "Shipment", "Shipment::Step", "ClientGroup", "VehicleType", "Activity", "Route::ScheduledActivity"]


def equality(cls):
    def run(v):
        ex = v.ex
        a, b = v.obj(cls, "a"), v.obj(cls, "b")
        st0 = v.st.copy()
        eqs = differs(v, cls, a.addr, b.addr, st0, st0, DERIVED.get(cls, ()))
        for o in (a, b):
            invariants(v, cls, o.addr, st0)
        r = v.call(rf"^{cls}::operator==\({cls} const&\) const$", a, b)
        v.cover("objects can be equal", extra=r)
        v.cover("objects can differ", extra=NOT(r))
        for n, f in eqs:
            v.ensure(f"equal only if {n} is equal", IMPL(r, f))
        v.ensure("equal if every attribute is equal", IMPL(AND(*[f for _, f in eqs]), r))
    return run


def copies(cls):
    def run(v):
        ex = v.ex
        a = v.obj(cls, "a")
        st0 = v.st.copy()
        invariants(v, cls, a.addr, st0)
        o = v.localobj(cls, "copy")
        v.call(rf"^{cls}::{cls.split('::')[-1]}\({cls} const&\)$", o, a)
        v.cover()
        for n, f in differs(v, cls, a.addr, o.addr, st0, v.st):
            v.ensure(f"{n} of the copy is that of the original", f)
        for n, f in differs(v, cls, a.addr, a.addr, st0, v.st):
            v.ensure(f"{n} of the original is unchanged", f)
        v.ensure("never rejected", NOT(v.throws()), pc=[])
    return run


for c in CLASSES:
    contract("C11", f"{c}: equal exactly when every attribute is")(equality(NS + c))
for c in ("Location", "Client", "Depot", "Shipment", "ClientGroup", "VehicleType"):
    contract("C11", f"{c}: a copy has the same attributes")(copies(NS + c))
