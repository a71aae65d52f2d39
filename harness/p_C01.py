"""Duration segments against direct simulation of the visit sequence they stand for."""
from core import Violation
from pyvrp._pyvrp import DurationSegment as DS
from gen import MAX

RULE = "random visit sequences (windows, service, travel, release, trips), merged in random groupings; non-trivial when at least two visits"
BIG = 2**59


def seg(v):
    return DS(duration=v[2], time_warp=0, start_early=v[0], start_late=v[1], release_time=v[3])


def drive(visits, edges, t, rel=None):
    """(duration, time warp) of visiting in order from time t."""
    now, dur, tw = t, 0, 0
    for k, (e, l, s, _) in enumerate(visits):
        if k:
            now += edges[k - 1]
            dur += edges[k - 1]
        if now < e:
            dur += e - now
            now = e
        elif now > l:
            tw += now - l
            now = l
        now += s
        dur += s
    return dur, tw


def summary(visits, edges):
    """D, T, E, L of a sequence by search over start times."""
    fin = [x for v in visits for x in v[:2] if x < BIG] + [0]
    H = max(fin) + sum(edges) + sum(v[2] for v in visits) + 1
    D = drive(visits, edges, H)[0]
    T = drive(visits, edges, -H)[1]
    lo, hi = -H, H
    while lo < hi:
        m = (lo + hi) // 2
        if drive(visits, edges, m)[0] == D:
            hi = m
        else:
            lo = m + 1
    E = lo
    if drive(visits, edges, H)[1] == T:
        return D, T, E, None
    lo, hi = -H, H
    while lo < hi:
        m = (lo + hi + 1) // 2
        if drive(visits, edges, m)[1] == T:
            lo = m
        else:
            hi = m - 1
    return D, T, E, lo


def merge_random(r, segs, edges):
    segs, edges = list(segs), list(edges)
    while len(segs) > 1:
        k = r.randrange(len(segs) - 1)
        segs[k:k + 2] = [DS.merge(edges[k], segs[k], segs[k + 1])]
        del edges[k]
    return segs[0]


def observe(s):
    return (s.duration(), s.time_warp(), s.start_early(), s.start_late(), s.end_early(), s.end_late(), s.slack(), s.release_time(), s.prev_end_late())


def visits(r, S, n):
    out = []
    for _ in range(n):
        e = r.choice([0, r.randint(0, 4 * S)])
        l = r.choice([MAX, e, e + r.randint(0, 2 * S), e + r.randint(0, S)])
        out.append((e, l, r.choice([0, r.randint(0, S)]), r.choice([0, 0, r.randint(0, min(l, 5 * S))])))
    return out


def same(a, b):
    """Equal, where unconstrained latest times compare equal to each other."""
    return all(x == y or (x > BIG and y > BIG) for x, y in zip(a, b))


def trips(ctx, r, S):
    """Several trips: close them at the front (from the back) or at the back (from the front)."""
    nt = r.randint(1, 3)
    ts = [(visits(r, S, r.randint(1, 3))) for _ in range(nt)]
    es = [[r.randint(0, S) for _ in range(len(t) - 1)] for t in ts]
    ctx.note("trips", ts, es)
    # whole-route truth: drive through all trips, waiting for each trip's release time
    def whole(t0):
        now, dur, tw = t0, 0, 0
        for k, (vs, ed) in enumerate(zip(ts, es)):
            R = max(v[3] for v in vs)
            if now < R:
                dur += R - now
                now = R
            d, w = drive(vs, ed, now)
            dur += d
            tw += w
            now += d - w
        return dur, tw
    fin = [x for vs in ts for v in vs for x in (v[0], v[1], v[3]) if x < BIG] + [0]
    H = max(fin) + sum(map(sum, es)) + sum(v[2] for vs in ts for v in vs) + 1
    R0 = max(v[3] for v in ts[0])
    # from the back
    s = None
    for vs, ed in reversed(list(zip(ts, es))):
        cur = merge_random(r, [seg(v) for v in vs], ed)
        if s is not None:
            cur = DS.merge(0, cur, s.finalise_front())
        s = cur
    d = min(whole(t)[0] for t in (R0, H, s.start_early()))
    w = whole(R0)[1]
    ctx.eq(s.time_warp(), w, "time warp of trips closed at the front")
    ctx.eq(s.duration(), whole(H)[0], "duration of trips closed at the front")
    ctx.check(whole(s.start_early())[0] == s.duration(), "start_early does not attain the minimal duration")
    # from the front
    s2 = None
    for vs, ed in zip(ts, es):
        cur = merge_random(r, [seg(v) for v in vs], ed)
        s2 = cur if s2 is None else DS.merge(0, s2.finalise_back(), cur)
    ctx.eq(s2.time_warp(), w, "time warp of trips closed at the back")
    ctx.eq(s2.duration(), whole(H)[0], "duration of trips closed at the back")
    for md in (0, r.randint(0, 4 * S), max(s.duration() - w - 1, 0)):
        ctx.eq((s.time_warp(md), s2.time_warp(md)), (w + max(s.duration() - w - md, 0),) * 2, "time warp with maximum duration", md)
    f = s2.finalise_back()
    ctx.eq((f.duration(), f.time_warp()), (s2.duration(), s2.time_warp()), "totals after closing the last trip")
    # both directions at once, as the search does: before (closed at back) + after (closed at front)
    k = r.randint(0, nt - 1)
    b = None
    for vs, ed in list(zip(ts, es))[:k]:
        cur = merge_random(r, [seg(v) for v in vs], ed)
        b = (cur if b is None else DS.merge(0, b, cur)).finalise_back()
    a = None
    for vs, ed in reversed(list(zip(ts, es))[k:]):
        cur = merge_random(r, [seg(v) for v in vs], ed)
        a = cur if a is None else DS.merge(0, cur, a.finalise_front())
    t = a if b is None else DS.merge(0, b, a)
    ctx.eq((t.duration(), t.time_warp()), (whole(H)[0], w), "duration and time warp of trips closed on both sides")


def raw(ctx, r, S):
    def rnd():
        e = r.randint(0, 4 * S)
        l = r.choice([MAX, e + r.randint(0, 3 * S)])
        return dict(duration=r.randint(0, S), time_warp=r.randint(0, S), start_early=e, start_late=l, release_time=r.choice([0, r.randint(0, 5 * S)]),
                    cum_duration=r.choice([0, r.randint(0, S)]), cum_time_warp=r.choice([0, r.randint(0, S)]), prev_end_late=r.choice([MAX, r.randint(0, 5 * S)]))
    a = rnd()
    s = DS(**a)
    ctx.note("raw", a)
    se, sl = max(a["start_early"], a["release_time"]), max(a["start_late"], a["release_time"])
    d = a["cum_duration"] + a["duration"] + max(se - a["prev_end_late"], 0)
    tw = a["cum_time_warp"] + a["time_warp"]
    t0 = tw + max(a["release_time"] - a["start_late"], 0)
    ctx.eq(s.start_early(), se, "start_early")
    ctx.eq(s.start_late(), sl, "start_late")
    ctx.eq(s.duration(), d, "duration")
    ctx.eq(s.time_warp(), t0, "time_warp")
    for m in (0, d - t0, max(d - t0 - 1, 0), r.randint(0, 3 * S)):
        if m >= 0:
            ctx.eq(s.time_warp(m), t0 + max(d - t0 - m, 0), "time_warp", m)
    net = (d - a["cum_duration"]) - (t0 - a["cum_time_warp"])
    ctx.eq(s.end_early(), se + net, "end_early")
    ctx.eq(s.end_late(), min(sl + net, MAX), "end_late")
    ctx.eq(s.slack(), min(sl - se, max(a["prev_end_late"] - a["release_time"], 0)), "slack")
    ctx.eq((s.release_time(), s.prev_end_late()), (a["release_time"], a["prev_end_late"]), "release_time, prev_end_late")
    b = rnd()
    q = DS(**b)
    ctx.note("raw2", b)
    e = r.randint(0, S)
    m = DS.merge(e, s, q)
    ctx.eq((m.release_time(), m.prev_end_late()), (max(a["release_time"], b["release_time"]), a["prev_end_late"]), "merge release/prev")


def case(r, ctx, i):
    S = r.choice([2, 5, 20, 1000, 10**8])
    n = r.randint(1, 6)
    vs = visits(r, S, n)
    if i % 3 == 0:
        vs = [(e, l, s, 0) for e, l, s, _ in vs]
    ed = [r.choice([0, r.randint(0, S)]) for _ in range(n - 1)]
    ctx.note("visits (early, late, service, release)", vs, "edges", ed)
    m = merge_random(r, [seg(v) for v in vs], ed)
    D, T, E, L = summary(vs, ed)
    R = max(v[3] for v in vs)
    ctx.eq(m.duration(), D, "duration")
    ctx.eq(m.time_warp(), T + (max(R - L, 0) if L is not None else 0), "time_warp")
    ctx.eq(m.start_early(), max(E, R), "start_early")
    if L is None:
        ctx.check(m.start_late() > BIG, "start_late", m.start_late(), "expected unconstrained")
    else:
        ctx.eq(m.start_late(), max(L, R), "start_late")
        ctx.eq(m.slack(), max(L, R) - max(E, R), "slack")
    ctx.eq(m.release_time(), R, "release_time")
    m2 = merge_random(r, [seg(v) for v in vs], ed)
    ctx.check(same(observe(m), observe(m2)), "merging is not associative:", observe(m), observe(m2))
    ctx.seen((tuple(vs), tuple(ed)))
    trips(ctx, r, r.choice([3, 20, 1000]))
    raw(ctx, r, r.choice([2, 20, 1000]))
