"""Stopping criteria against their documented meaning over whole histories of calls."""
import sys
import time
from pyvrp.stop import FirstFeasible, MaxIterations, MaxRuntime, MultipleCriteria, NoImprovement

RULE = "random limits and random sequences of best costs (with repeats, improvements, worsenings, the infeasible value) and clock readings; non-trivial when the criterion changed its answer"
MAX = 2**63 - 1


def costs(r, n):
    out, c = [], r.choice([MAX, r.randint(0, 50)])
    for _ in range(n):
        x = r.random()
        c = c if x < 0.5 else MAX if x < 0.55 else max(-5, c - r.randint(0, 3)) if x < 0.8 and c != MAX else r.randint(-3, 30)
        out.append(c)
    return out


class Clock:
    """Stands in for the clocks of the time module."""
    def __init__(self):
        self.now = 0.0
        self.used = 0
    def __call__(self):
        self.used += 1
        return self.now
    def __enter__(self):
        self.saved = []
        mods = [time] + [m for n, m in list(sys.modules.items()) if n.startswith("pyvrp.stop")]
        for m in mods:
            for a in ("perf_counter", "monotonic", "time"):
                if callable(getattr(m, a, None)):
                    self.saved.append((m, a, getattr(m, a)))
                    setattr(m, a, self)
        return self
    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def iters(r, ctx, cs):
    m = r.choice([0, 1, 2, r.randint(0, len(cs) + 2)])
    s = MaxIterations(m)
    for k, c in enumerate(cs, 1):
        ctx.eq(bool(s(c)), k > m, f"MaxIterations({m}) at call {k}")
    return len(cs) > m


def noimp(r, ctx, cs):
    m = r.choice([0, 1, 2, 3, r.randint(0, len(cs))])
    s = NoImprovement(m)
    best, cnt = None, 0
    for k, c in enumerate(cs, 1):
        if best is None or c < best:
            best, cnt = c, 0
        else:
            cnt += 1
        ctx.eq(bool(s(c)), cnt >= m, f"NoImprovement({m}) at call {k} of {cs[:k]}")
    return cnt >= m > 0


def feas(r, ctx, cs):
    s = FirstFeasible()
    for c in cs + [MAX, MAX - 1]:
        ctx.eq(bool(s(c)), c != MAX, f"FirstFeasible()({c})")
    return True


def runtime(r, ctx, cs):
    m = r.choice([0, 0.5, 1, 2, r.uniform(0, 5)])
    with Clock() as clk:
        clk.now = r.uniform(0, 100)
        s = MaxRuntime(m)
        clk.now += r.choice([0, 1, 100])
        clk.used = 0
        start = None
        ans = []
        for c in cs:
            if start is None:
                start = clk.now
            ans.append((clk.now - start, bool(s(c))))
            clk.now += r.choice([0, 0, 0.25, 0.5, r.random()])
        if clk.used == 0:
            return False  # uses some other clock
    for e, a in ans:
        ctx.eq(a, e > m, f"MaxRuntime({m}) after {e} s")
    return any(a for _, a in ans)


class Stub:
    def __init__(self, answers):
        self.answers, self.calls = answers, []
    def __call__(self, c):
        self.calls.append(c)
        return self.answers[min(len(self.calls), len(self.answers)) - 1]


def multi(r, ctx, cs):
    n = r.randint(1, 4)
    stubs = [Stub([r.random() < 0.15 for _ in cs]) for _ in range(n)]
    s = MultipleCriteria(stubs)
    for k, c in enumerate(cs):
        want = any(st.answers[len(st.calls)] if len(st.calls) < len(st.answers) else False for st in stubs)
        got = bool(s(c))
        ctx.eq(got, want, f"MultipleCriteria at call {k + 1}")
        if want:
            break
        for st in stubs:
            ctx.eq(st.calls, cs[:k + 1], "calls seen by a member before the stop")
    # with real members
    a, b = r.randint(0, 6), r.randint(0, 6)
    s, x, y = MultipleCriteria([MaxIterations(a), NoImprovement(b)]), MaxIterations(a), NoImprovement(b)
    for c in cs:
        p, q = bool(x(c)), bool(y(c))
        ctx.eq(bool(s(c)), p or q, f"MultipleCriteria of {a} iterations and {b} without improvement")
        if p or q:
            break
    return True


def invalid(r, ctx, cs):
    for cls in (MaxIterations, NoImprovement, MaxRuntime):
        for v in (-1, -r.randint(1, 100), 0, 1) + ((-1e-9, -0.5) if cls is MaxRuntime else ()):
            try:
                cls(v)
                ctx.check(v >= 0, f"{cls.__name__}({v}) accepted")
            except ValueError:
                ctx.check(v < 0, f"{cls.__name__}({v}) rejected")
    try:
        MultipleCriteria([])
        ctx.check(False, "MultipleCriteria([]) accepted")
    except ValueError:
        pass
    return True


KINDS = [iters, noimp, noimp, feas, runtime, multi, multi, invalid]


def case(r, ctx, i):
    cs = costs(r, r.randint(1, 25))
    f = KINDS[i % len(KINDS)]
    ctx.note(f.__name__, cs)
    if f(r, ctx, cs):
        ctx.seen((f.__name__, tuple(cs)))
