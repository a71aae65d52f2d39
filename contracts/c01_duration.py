"""
C01: DurationSegment. A segment (D, T, E, L) denotes, for a start time t,

    dur(t) = D + max(E - t, 0)      duration until the end, incl. waiting
    tw(t)  = T + max(t - L, 0)      time warp
    end(t) = t + dur(t) - tw(t)     end time

and the real merge must be the composition of these denotations, for every t.
"""
import z3
from dv import contract, V
from symex import *

DS = "pyvrp::DurationSegment"
MEAS = r"pyvrp::Measure<[^>]*>"
MERGE3 = rf"^pyvrp::DurationSegment::merge\({MEAS}, pyvrp::DurationSegment const&, pyvrp::DurationSegment const&\)$"
MERGE2 = r"^pyvrp::DurationSegment::merge\(pyvrp::DurationSegment const&, pyvrp::DurationSegment const&\)$"
B = 2**40          # magnitude of finite times
INF = 2**61        # from here on a latest time counts as unconstrained
MAXV = 2**63 - 1
F = ["duration_", "timeWarp_", "startEarly_", "startLate_", "releaseTime_", "cumDuration_", "cumTimeWarp_", "prevEndLate_"]


def mx(a, b):
    return z3.If(a >= b, a, b)


def mn(a, b):
    return z3.If(a <= b, a, b)


def flds(o, st=None):
    return [o.get(f, st) for f in F]


def inv(o, st=None, b=B):
    """Representation invariant of segments built from valid data."""
    D, T, E, L, R, cD, cT, P = flds(o, st)
    return [D >= 0, D <= b, T >= 0, T <= b, E >= 0, E <= b, z3.Or(L <= b, L >= INF), L <= MAXV, E <= L,
            R >= 0, R <= b, cD >= 0, cD <= b, cT >= 0, cT <= b, z3.Or(z3.And(P >= 0, P <= b), P >= INF), P <= MAXV]


def dur(s, t):
    return s[0] + mx(s[2] - t, 0)


def tw(s, t):
    return s[1] + mx(t - s[3], 0)


def end(s, t):
    return t + dur(s, t) - tw(s, t)


@contract("C01", "merge(edge, a, b) is the composition of the two schedules, for every start time")
def merge3(v):
    a, b = v.obj(DS, "a"), v.obj(DS, "b")
    e = v.int("edge", 0, B)
    v.require(*inv(a), *inv(b))
    v.cover()
    s1, s2 = flds(a), flds(b)
    r = v.call(MERGE3, e, a, b, ret=DS)
    s = flds(r)
    t = v.int("t", -2 * B, 2 * B)
    at = end(s1, t) + e
    v.ensure("merge: duration for every start time", dur(s, t) == dur(s1, t) + e + dur(s2, at))
    v.ensure("merge: time warp for every start time", tw(s, t) == tw(s1, t) + tw(s2, at))
    v.ensure("merge: invariant 0 <= earliest <= latest start is kept", z3.And(0 <= s[2], s[2] <= s[3]))
    v.ensure("merge: release time is the latest of both", s[4] == mx(s1[4], s2[4]))
    v.ensure("merge: closed-trip totals add up", z3.And(s[5] == s1[5] + s2[5], s[6] == s1[6] + s2[6]))
    v.ensure("merge: previous trip's latest end is that of the first", s[7] == s1[7])
    v.ensure("merge: duration and time warp are the minima over start times", z3.And(s[0] >= 0, s[1] >= 0))
    v.ensure("merge: an unconstrained latest start stays unconstrained or finite", z3.And(s[3] <= MAXV, s[3] >= -4 * B))


@contract("C01", "merge does not overflow on valid segments")
def merge_ovf(v):
    v.new(overflow=True)
    a, b = v.obj(DS, "a"), v.obj(DS, "b")
    e = v.int("edge", 0, B)
    v.require(*inv(a), *inv(b))
    v.ovpc = list(v.st.pc)
    r = v.call(MERGE3, e, a, b, ret=DS)
    # values that are computed only under a guard are checked through the results
    for f in F:
        g = r[f]
        v.ensure(f"merge: {f} fits 64 bits", z3.And(g >= -2**63, g < 2**63))


@contract("C01", "merge(a, b) is merge with a zero edge")
def merge2(v):
    a, b = v.obj(DS, "a"), v.obj(DS, "b")
    v.require(*inv(a), *inv(b))
    v.cover()
    s1, s2 = flds(a), flds(b)
    s = flds(v.call(MERGE2, a, b, ret=DS))
    t = v.int("t", -2 * B, 2 * B)
    at = end(s1, t)
    v.ensure("merge2: duration", dur(s, t) == dur(s1, t) + dur(s2, at))
    v.ensure("merge2: time warp", tw(s, t) == tw(s1, t) + tw(s2, at))
    v.ensure("merge2: bookkeeping", z3.And(s[4] == mx(s1[4], s2[4]), s[5] == s1[5] + s2[5], s[6] == s1[6] + s2[6], s[7] == s1[7]))


@contract("C01", "merging is associative", timeout=200)
def assoc(v):
    a, b, c = v.obj(DS, "a"), v.obj(DS, "b"), v.obj(DS, "c")
    e, f = v.int("e1", 0, B), v.int("e2", 0, B)
    v.require(*inv(a, b=B // 4), *inv(b, b=B // 4), *inv(c, b=B // 4))
    v.cover()
    ab = v.call(MERGE3, e, a, b, ret=DS)
    l = flds(v.call(MERGE3, f, ab, c, ret=DS))
    bc = v.call(MERGE3, f, b, c, ret=DS)
    r = flds(v.call(MERGE3, e, a, bc, ret=DS))
    for n, x, y in zip(F, l, r):
        if n == "startLate_":
            v.ensure(f"associative: {n}", z3.Or(x == y, z3.And(x >= INF - 8 * B, y >= INF - 8 * B)), timeout=60)
        else:
            v.ensure(f"associative: {n}", x == y, timeout=60)


def ob(name, ret=None):
    return rf"^pyvrp::DurationSegment::{name}\(\) const$"


TW = rf"^pyvrp::DurationSegment::timeWarp\({MEAS}\) const$"


@contract("C01", "observers: duration, time warp, start and end times, slack")
def observers(v):
    a = v.obj(DS, "a")
    v.require(*inv(a))
    v.cover()
    D, T, E, L, R, cD, cT, P = flds(a)
    S = [D, T, E, L]
    se = v.call(ob("startEarly"), a)
    sl = v.call(ob("startLate"), a)
    v.ensure("startEarly is the earliest allowed start", se == mx(E, R))
    v.ensure("startLate is the latest allowed start", sl == mx(L, R))
    d = v.call(ob("duration"), a)
    # The vehicle is available from p <= P (it may leave the previous trip anywhere up to its
    # latest end) and starts this trip at t >= max(R, p); waiting counts as duration.
    p, t = v.int("p", -2 * B, MAXV), v.int("t", -2 * B, 2 * B)
    v.ensure("duration is a lower bound for every schedule", d <= cD + (t - p) + dur(S, t), also=[p <= P, t >= R, t >= p])
    w = mx(E, R)
    wp = mn(w, P)
    v.ensure("duration is attained by some schedule", d == cD + (w - wp) + dur(S, w))
    m = v.int("maxDur", 0, MAXV)
    q = v.call(TW, a, m)
    base = cT + T + mx(R - L, 0)
    net = d - base      # the maximum duration applies to the duration net of all time warp
    v.ensure("timeWarp: own, release and maximum duration excess", q == base + mx(net - m, 0))
    q0 = v.call(TW, a, MAXV)
    v.ensure("timeWarp without a duration limit is the least possible", z3.And(q0 == base, q0 <= cT + tw(S, t)), also=[t >= R])
    ee = v.call(ob("endEarly"), a)
    el = v.call(ob("endLate"), a)
    tripdur, triptw = d - cD, q0 - cT
    v.ensure("endEarly", ee == se + tripdur - triptw)
    v.ensure("endLate", z3.Or(el == sl + tripdur - triptw, z3.And(el == MAXV, sl + tripdur - triptw >= MAXV)))
    sk = v.call(ob("slack"), a)
    v.ensure("slack is the largest delay of the start that costs nothing", sk == mn(sl - se, mx(P - R, 0)))
    v.ensure("releaseTime, prevEndLate", z3.And(v.call(ob("releaseTime"), a) == R, v.call(ob("prevEndLate"), a) == P))


@contract("C01", "finaliseFront and finaliseBack keep totals and constrain the neighbouring trip")
def finalise(v):
    a = v.obj(DS, "a")
    v.require(*inv(a))
    v.cover()
    D, T, E, L, R, cD, cT, P = flds(a)
    S = [D, T, E, L]
    f = v.call(ob("finaliseFront"), a, ret=DS)
    s = flds(f)
    t = v.int("t", -2 * B, 2 * B)
    rel = [0, 0, mx(E, R), mx(L, R)]
    # starting at t means waiting until the release time first
    v.ensure("finaliseFront: duration from any start", dur(s, t) == mx(mx(E, R) - t, 0) + dur(S, t + mx(mx(E, R) - t, 0) - mx(t - mx(L, R), 0)))
    v.ensure("finaliseFront: time warp from any start", tw(s, t) == mx(t - mx(L, R), 0) + tw(S, t + mx(mx(E, R) - t, 0) - mx(t - mx(L, R), 0)))
    v.ensure("finaliseFront: no release or previous trip left", z3.And(s[4] == 0, s[5] == 0, s[6] == 0, s[7] == MAXV))
    b = v.call(ob("finaliseBack"), a, ret=DS)
    s = flds(b)
    # the whole trip, with the vehicle leaving the previous trip no later than P
    d = v.call(ob("duration"), a)
    q = v.call(TW, a, MAXV)
    ee = v.call(ob("endEarly"), a)
    v.ensure("finaliseBack: totals of the closed trip are kept", z3.And(s[5] == d, s[6] == q))
    v.ensure("finaliseBack: new trip starts empty", z3.And(s[0] == 0, s[1] == 0))
    v.ensure("finaliseBack: next trip cannot leave before the earliest end", z3.And(s[4] == s[2], s[3] == MAXV))
    # release = earliest time at which the closed trip can end, over schedules that
    # attain minimal duration and time warp
    v.ensure("finaliseBack: earliest end", s[2] == earliest_end(D, T, E, L, R, P))
    v.ensure("finaliseBack: invariant is kept when the trip cannot end before time zero", z3.And(0 <= s[2], s[2] <= s[3], 0 <= s[7]),
             also=[earliest_end(D, T, E, L, R, P) >= 0])
    v.ensure("finaliseBack: latest end", close(s[7], latest_end(D, T, E, L, R, P)))


def close(x, y):
    return z3.Or(x == y, z3.And(x >= INF - 8 * B, y >= INF - 8 * B))


def trip(D, T, E, L, R, P):
    """Trip preceded by the previous trip's availability [.., P]."""
    se, sl = mx(E, R), mx(L, R)
    wait = mx(se - P, 0)
    twr = mx(R - L, 0)
    return se, sl, wait, twr


def earliest_end(D, T, E, L, R, P):
    # Earliest start of the trip on or before P with waiting, then the trip itself.
    se, sl, wait, twr = trip(D, T, E, L, R, P)
    d = D + wait
    return (se - wait) + d - (T + twr)


def latest_end(D, T, E, L, R, P):
    se, sl, wait, twr = trip(D, T, E, L, R, P)
    d = D + wait
    start = mx(mn(sl, P), se - wait)
    return start + d - (T + twr)


CTOR = r"^pyvrp::DurationSegment::DurationSegment\(%s\)$"


@contract("C01", "segments carry the data of the object they are made from")
def ctors(v):
    C = "pyvrp::Client"
    c = v.obj(C, "c")
    r = v.localobj(DS)
    v.call(CTOR % "pyvrp::Client const&", r, c)
    s = flds(r)
    v.ensure("client segment", z3.And(s[0] == c["serviceDuration"], s[1] == 0, s[2] == c["twEarly"], s[3] == c["twLate"],
                                        s[4] == c["releaseTime"], s[5] == 0, s[6] == 0, s[7] == MAXV))
    d = v.obj("pyvrp::Depot", "d")
    sd = v.int("service")
    r = v.localobj(DS)
    v.call(CTOR % rf"pyvrp::Depot const&, {MEAS}", r, d, sd)
    s = flds(r)
    v.ensure("depot segment", z3.And(s[0] == sd, s[1] == 0, s[2] == d["twEarly"], s[3] == d["twLate"], s[4] == 0, s[5] == 0, s[6] == 0, s[7] == MAXV))
    p = v.obj("pyvrp::Shipment::Step", "p")
    r = v.localobj(DS)
    v.call(CTOR % r"pyvrp::Shipment::Step const&", r, p)
    s = flds(r)
    v.ensure("shipment step segment", z3.And(s[0] == p["serviceDuration"], s[1] == 0, s[2] == p["twEarly"], s[3] == p["twLate"], s[4] == 0, s[5] == 0, s[6] == 0, s[7] == MAXV))
    t = v.obj("pyvrp::VehicleType", "t")
    late = v.int("late")
    r = v.localobj(DS)
    v.call(CTOR % rf"pyvrp::VehicleType const&, {MEAS}", r, t, late)
    s = flds(r)
    v.ensure("vehicle segment", z3.And(s[0] == 0, s[1] == 0, s[2] == t["twEarly"], s[3] == late, s[4] == 0, s[5] == 0, s[6] == 0, s[7] == MAXV))
    r = v.localobj(DS)
    xs = [v.int(f"x{i}") for i in range(8)]
    v.call(CTOR % ", ".join([MEAS] * 8), r, *xs)
    v.ensure("raw segment", z3.And(*[x == y for x, y in zip(flds(r), xs)]))
