"""Dynamic bit sets against Python sets."""
import copy
import pickle
from pyvrp import DynamicBitset

RULE = "random histories of operations on two bit sets of random equal size (0..300, and sizes around block boundaries); every query compared with Python sets after every step"


def full(ctx, b, s, n, what):
    ctx.eq(len(b), n, f"{what}: size")
    ctx.eq([i for i in range(n) if b[i]], sorted(s), f"{what}: members")
    ctx.eq(b.count(), len(s), f"{what}: count")
    ctx.eq((b.all(), b.any(), b.none()), (len(s) == n, bool(s), not s), f"{what}: all/any/none")


def case(r, ctx, i):
    req = r.choice([0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, r.randint(0, 300), r.randint(0, 300)])
    a, b = DynamicBitset(req), DynamicBitset(req)
    n = len(a)
    ctx.check(n >= req and n - req < 64 and n % 64 == 0, f"size of DynamicBitset({req}) is {n}")
    A, B = set(), set()
    U = set(range(n))
    full(ctx, a, A, n, "new")
    for step in range(r.randint(1, 15)):
        k = r.randrange(11)
        if k < 4 and n:
            for _ in range(r.choice([1, 1, r.randint(1, n)])):
                j = r.randrange(n) if r.random() < 0.8 else r.choice([0, n - 1, min(63, n - 1), min(64, n - 1)])
                v = r.random() < 0.6
                a[j] = v
                (A.add if v else A.discard)(j)
        elif k == 4:
            x = a.set()
            A = set(U)
            if x is not None:
                ctx.check(x == a, "set() returns something else")
        elif k == 5:
            a.reset()
            A = set()
        elif k == 6:
            keep = (set(A), set(B))
            a2 = a | b
            full(ctx, a, keep[0], n, "operand of |")
            full(ctx, b, keep[1], n, "operand of |")
            a, A = a2, A | B
        elif k == 7:
            keep = (set(A), set(B))
            a2 = a & b
            full(ctx, a, keep[0], n, "operand of &")
            full(ctx, b, keep[1], n, "operand of &")
            a, A = a2, A & B
        elif k == 8:
            a2 = a ^ b
            full(ctx, a, A, n, "operand of ^")
            full(ctx, b, B, n, "operand of ^")
            a, A = a2, A ^ B
        elif k == 9:
            a2 = ~a
            full(ctx, a, A, n, "operand of ~")
            a, A = a2, U - A
        else:
            a, b, A, B = b, a, B, A
        ctx.note("step", k)
        full(ctx, a, A, n, f"after step {step} (op {k})")
        full(ctx, b, B, n, f"other set after step {step} (op {k})")
        ctx.eq(a == b, A == B, "equality")
        ctx.eq(b == a, A == B, "equality (reversed)")
        ctx.seen((req, tuple(sorted(A))[:20], len(A), k))
    for bad in (n, n + 1, n + 64):
        try:
            a[bad]
            ctx.check(False, f"index {bad} of {n} accepted")
        except IndexError:
            pass
    if n:
        p = pickle.loads(pickle.dumps(a))
        full(ctx, p, A, n, "unpickled")
        ctx.check(p == a, "unpickled bit set differs")
        j = r.randrange(n)
        p[j] = not p[j]
        ctx.check(not p == a and not a == p, "bit sets that differ in one bit compare equal")
        full(ctx, a, A, n, "after changing a copy")
        big = DynamicBitset(n + 64)
        for x in A:
            big[x] = True
        ctx.check(not big == a, "bit sets of different size compare equal")
