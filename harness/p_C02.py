"""Load segments against the load curve of the visit sequence they stand for."""
from core import Violation
from pyvrp._pyvrp import LoadSegment as LS

RULE = "random sequences of visits with deliveries, pickups, shipments and closed trips, merged in random groupings; non-trivial when at least two visits"


def obs(s, cap):
    return (s.initial(), s.delta(), s.increase(), s.load(), s.excess_load(cap))


def merge_random(r, segs):
    segs = list(segs)
    while len(segs) > 1:
        k = r.randrange(len(segs) - 1)
        segs[k:k + 2] = [LS.merge(segs[k], segs[k + 1])]
    return segs[0]


def case(r, ctx, i):
    S = r.choice([1, 3, 10, 1000, 10**12])
    cap = r.randint(0, 4 * S)
    total, carried = None, 0
    whole = []
    for trip in range(r.randint(1, 3)):
        n = r.randint(1, 6)
        vs = []
        for _ in range(n):
            if r.random() < 0.6:
                dl, pk = r.choice([0, r.randint(0, S)]), r.choice([0, r.randint(0, S)])
                vs.append((dl, pk - dl))
            else:
                vs.append((0, r.randint(-S, S)))
        ctx.note("trip", vs)
        s = merge_random(r, [LS(a, d, max(d, 0)) for a, d in vs])
        s2 = merge_random(r, [LS(a, d, max(d, 0)) for a, d in vs])
        ctx.eq(obs(s, cap), obs(s2, cap), "merging is not associative")
        init = sum(a for a, _ in vs)
        cur = peak = init
        for _, d in vs:
            cur += d
            peak = max(peak, cur)
        ctx.eq(obs(s, cap), (init, cur - init, peak - init, peak, max(peak - cap, 0)), "(initial, delta, increase, load, excess)")
        x = r.choice([0, r.randint(0, S)])
        sx = LS(s.initial(), s.delta(), s.increase(), x)
        ctx.eq(sx.excess_load(cap), x + max(peak - cap, 0), "excess with carried excess")
        carried += max(peak - cap, 0)
        total = s if total is None else LS.merge(total, s)
        ctx.eq(total.excess_load(cap), carried, "excess over trips")
        f = total.finalise(cap)
        ctx.eq(obs(f, cap), (0, 0, 0, 0, carried), "finalise")
        ctx.eq(f.finalise(cap).excess_load(cap), carried, "finalise twice")
        total = f
        # closing trips after the fact gives the same
        whole.append(s.finalise(cap))
        ctx.eq(merge_random(r, whole).excess_load(cap), carried, "merged closed trips")
        ctx.seen((tuple(vs), cap))
