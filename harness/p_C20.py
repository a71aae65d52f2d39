"""Piecewise linear functions."""
import pickle
from pyvrp import PiecewiseLinearFunction as F

RULE = "random breakpoints and segments, valid and invalid; random points (with jumps, duplicates, non-integral slopes); evaluated at, around and between all breakpoints"


def ev(bps, segs, x):
    k = 0
    while k < len(bps) and x >= bps[k]:
        k += 1
    return segs[k][0] + segs[k][1] * x


def probe(r, bps):
    xs = [r.randint(-200, 200) for _ in range(3)]
    for b in bps:
        xs += [b - 1, b, b + 1]
    return xs


def check(ctx, r, f, bps, segs, what):
    ctx.eq((list(f.breakpoints), [tuple(s) for s in f.segments]), (bps, segs), f"{what}: stored data")
    for x in probe(r, bps):
        ctx.eq(f(x), ev(bps, segs, x), f"{what}: value at {x} with breakpoints {bps} and segments {segs}")
    mono = all(s[1] >= 0 for s in segs) and all(segs[k + 1][0] + segs[k + 1][1] * b >= segs[k][0] + segs[k][1] * b for k, b in enumerate(bps))
    ctx.eq(f.is_monotonically_increasing(), mono, f"{what}: monotonicity with {bps} {segs}")


def case(r, ctx, i):
    S = r.choice([3, 10, 100, 10**6])
    n = r.choice([0, 1, 1, 2, 3, 5, 8])
    bps = sorted(r.sample(range(-S * 3, S * 3 + 8), n))
    segs = [(r.randint(-S, S), r.randint(-5, 5) if r.random() < 0.6 else r.randint(0, 5)) for _ in range(n + 1)]
    f = F(bps, segs)
    ctx.note("f", bps, segs)
    check(ctx, r, f, bps, segs, "function")
    ctx.seen((tuple(bps), tuple(segs)))
    # equality and pickling
    g = F(list(bps), list(segs))
    ctx.check(f == g and g == f, "equal functions compare unequal")
    p = pickle.loads(pickle.dumps(f))
    ctx.check(p == f, "unpickled function differs")
    check(ctx, r, p, bps, segs, "unpickled")
    k = r.randrange(n + 1)
    s2 = list(segs)
    s2[k] = (s2[k][0] + r.choice([0, 1]), s2[k][1] + 1)
    ctx.check(not f == F(bps, s2), "functions with different segments compare equal")
    if n:
        b2 = list(bps)
        b2[-1] += 1
        ctx.check(not f == F(b2, segs), "functions with different breakpoints compare equal")
    # invalid shapes
    for b, s in ((bps, segs[:-1]), (bps, segs + [(0, 0)]), (bps + [S * 9], segs), ([], [])):
        try:
            F(b, s)
            ok = True
        except ValueError:
            ok = False
        ctx.eq(ok, len(s) > 0 and len(b) + 1 == len(s), f"acceptance of breakpoints {b} and segments {s}")
    if n >= 2:
        b = list(bps)
        k = r.randrange(n - 1)
        b[k + 1] = b[k] - r.choice([0, 0, 1, 5])
        try:
            F(b, segs)
            ctx.check(False, f"breakpoints {b} accepted")
        except ValueError:
            pass
    points(r, ctx)


def points(r, ctx):
    n = r.choice([0, 1, 2, 2, 3, 4, 6])
    x, pts = r.randint(-20, 20), []
    for _ in range(n):
        y = pts[-1][1] + r.randint(-4, 4) * (x - pts[-1][0]) + r.choice([0, 0, 0, 0, 1]) if pts else r.randint(-20, 20)
        pts.append((x, y + r.choice([0, 0, 0, 7]) if pts and pts[-1][0] == x else y))
        x += r.choice([0, 1, 1, 2, 3, 5, 5, -1]) if r.random() < 0.5 else r.choice([1, 2, 4])
    bad = n < 2 or pts[0][0] == pts[1][0] or pts[-2][0] == pts[-1][0]
    bps, segs = [], []
    for k, (a, b) in enumerate(zip(pts, pts[1:])):
        if a[0] == b[0]:
            continue
        if b[0] < a[0] or (b[1] - a[1]) % (b[0] - a[0]):
            bad = True
            break
        if k:
            bps.append(a[0])
        sl = (b[1] - a[1]) // (b[0] - a[0])
        segs.append((a[1] - sl * a[0], sl))
    try:
        f = F(pts)
    except ValueError as e:
        ctx.check(bad, f"points {pts} rejected: {e}")
        return
    ctx.check(not bad, f"points {pts} accepted")
    check(ctx, r, f, bps, segs, f"points {pts}")
    for a, b in zip(pts, pts[1:]):
        if a[0] != b[0]:
            ctx.eq(f(a[0]), a[1], f"value at the point {a} of {pts}")
