"""
C02: LoadSegment. With `initial` on board at the start (what the trip delivers
itself plus the vehicle's initial load), a segment denotes the load curve
x -> (peak(x) = x + increase, end(x) = x + delta).
"""
import z3
from dv import contract
from symex import *
from c01_duration import mx, MEAS, CTOR as _C

LS = "pyvrp::LoadSegment"
F = ["initial_", "delta_", "increase_", "excessLoad_"]
B = 2**50
MERGE = r"^pyvrp::LoadSegment::merge\(pyvrp::LoadSegment const&, pyvrp::LoadSegment const&\)$"
CTOR = r"^pyvrp::LoadSegment::LoadSegment\(%s\)$"


def flds(o):
    return [o[f] for f in F]


def inv(o, b=B):
    i, d, c, x = flds(o)
    return [i >= 0, i <= b, d >= -b, d <= b, c >= 0, c >= d, c <= b, x >= 0, x <= b]


def ob(n, a=""):
    return rf"^pyvrp::LoadSegment::{n}\({a}\) const$"


@contract("C02", "merge is the composition of the two load curves")
def merge(v):
    a, b = v.obj(LS, "a"), v.obj(LS, "b")
    v.require(*inv(a), *inv(b))
    v.cover()
    p, q = flds(a), flds(b)
    s = flds(v.call(MERGE, a, b, ret=LS))
    x = v.int("x", -B, B)
    v.ensure("merge: load at the end for every start load", x + s[1] == (x + p[1]) + q[1])
    v.ensure("merge: peak load for every start load", x + s[2] == mx(x + p[2], (x + p[1]) + q[2]))
    v.ensure("merge: initial loads add up", s[0] == p[0] + q[0])
    v.ensure("merge: excess of closed trips adds up", s[3] == p[3] + q[3])
    v.ensure("merge: invariant is kept", z3.And(s[0] >= 0, s[2] >= 0, s[2] >= s[1], s[3] >= 0))


@contract("C02", "merging is associative and the default segment is its identity")
def assoc(v):
    a, b, c = v.obj(LS, "a"), v.obj(LS, "b"), v.obj(LS, "c")
    v.require(*inv(a), *inv(b), *inv(c))
    v.cover()
    ab = v.call(MERGE, a, b, ret=LS)
    bc = v.call(MERGE, b, c, ret=LS)
    l = flds(v.call(MERGE, ab, c, ret=LS))
    r = flds(v.call(MERGE, a, bc, ret=LS))
    for n, x, y in zip(F, l, r):
        v.ensure(f"associative: {n}", x == y)
    d = v.localobj(LS)
    v.call(CTOR % "", d)
    v.ensure("default segment is empty", z3.And(*[x == 0 for x in flds(d)]))
    l = flds(v.call(MERGE, d, a, ret=LS))
    r = flds(v.call(MERGE, a, d, ret=LS))
    v.ensure("default segment is a left and right identity", z3.And(*[z3.And(x == y, y == z) for x, y, z in zip(l, r, flds(a))]))


@contract("C02", "observers: load, excess load; closing a trip")
def observers(v):
    a = v.obj(LS, "a")
    v.require(*inv(a))
    v.cover()
    i, d, c, x = flds(a)
    cap = v.int("cap", 0, 2**63 - 1)
    v.ensure("initial, delta, increase", z3.And(v.call(ob("initial"), a) == i, v.call(ob("delta"), a) == d, v.call(ob("increase"), a) == c))
    v.ensure("load is the peak of the curve", v.call(ob("load"), a) == i + c)
    e = v.call(ob("excessLoad", MEAS), a, cap)
    v.ensure("excess load over capacity, plus that of closed trips", e == x + mx(i + c - cap, 0))
    f = flds(v.call(ob("finalise", MEAS), a, cap, ret=LS))
    v.ensure("finalise: excess is carried over exactly once", f[3] == e)
    v.ensure("finalise: next trip starts empty", z3.And(f[0] == 0, f[1] == 0, f[2] == 0))


@contract("C02", "segments carry the loads of the object they are made from")
def ctors(v):
    k = v.int("dim", 0, 2**30)
    c = v.obj("pyvrp::Client", "c")
    dl, pk = c.elem("delivery", k), c.elem("pickup", k)
    v.require(dl >= 0, dl <= B, pk >= 0, pk <= B, k < c.len("delivery"), k < c.len("pickup"))
    v.cover()
    r = v.localobj(LS)
    v.call(CTOR % "pyvrp::Client const&, unsigned long", r, c, k)
    s = flds(r)
    # a client is served by handing over the delivery, then taking in the pickup: the load
    # after it is what counts for the peak.
    v.ensure("client segment", z3.And(s[0] == dl, s[1] == pk - dl, s[2] == mx(pk - dl, 0), s[3] == 0))
    h = v.obj("pyvrp::Shipment", "h")
    am = h.elem("amount", k)
    v.require(am >= 0, am <= B)
    for nm, code in (("pickup", "PICKUP"), ("delivery", "DELIVERY")):
        t = activity_code(v, code)
        r = v.localobj(LS)
        v.call(CTOR % r"pyvrp::Shipment const&, pyvrp::Activity::ActivityType, unsigned long", r, h, t, k)
        s = flds(r)
        d = am if nm == "pickup" else -am
        v.ensure(f"shipment {nm} segment", z3.And(s[0] == 0, s[1] == d, s[2] == mx(d, 0), s[3] == 0))
    t = v.obj("pyvrp::VehicleType", "t")
    r = v.localobj(LS)
    v.call(CTOR % "pyvrp::VehicleType const&, unsigned long", r, t, k)
    s = flds(r)
    v.ensure("vehicle segment", z3.And(s[0] == t.elem("initialLoad", k), s[1] == 0, s[2] == 0, s[3] == 0))
    r = v.localobj(LS)
    xs = [v.int(f"x{j}") for j in range(4)]
    v.call(CTOR % ", ".join([MEAS] * 4), r, *xs)
    v.ensure("raw segment", z3.And(*[x == y for x, y in zip(flds(r), xs)]))


def activity_code(v, name):
    """Numeric value of Activity::ActivityType::<name>, from the extracted code."""
    return v.enum("ActivityType", name)
