"""Ring buffer against a list of slots visited cyclically."""
from pyvrp.RingBuffer import RingBuffer

RULE = "random capacities and histories of append, skip, clear and peek; non-trivial when the buffer wrapped around"


def case(r, ctx, i):
    n = r.choice([1, 1, 2, 3, r.randint(1, 20)])
    b = RingBuffer(n)
    steps = []  # what happened since the last clear: value or SKIP
    SKIP = object()
    ops = []
    for k in range(r.randint(1, 5 * n + 5)):
        x = r.random()
        if x < 0.6:
            v = r.choice([k + 1, 0, "", False, [k], f"v{k}"])
            b.append(v)
            steps.append(v)
            ops.append(f"append({v!r})")
        elif x < 0.93:
            b.skip()
            steps.append(SKIP)
            ops.append("skip()")
        else:
            b.clear()
            steps = []
            ops.append("clear()")
        def slot(j):
            """Latest value appended at a step congruent to j."""
            for t in range(len(steps) - 1, -1, -1):
                if t % n == j % n and steps[t] is not SKIP:
                    return steps[t]
            return None
        want = slot(len(steps))
        got = b.peek()
        ctx.check(type(got) is type(want) and got == want, f"peek() gives {got!r}, expected {want!r} after {ops} on RingBuffer({n})")
        ctx.eq(b.maxlen, n, f"maxlen after {ops}")
        ctx.eq(len(b), sum(slot(j) is not None for j in range(n)), f"len after {ops} on RingBuffer({n})")
    ctx.note(n, ops)
    if len(steps) > n:
        ctx.seen((n, tuple(ops)))
