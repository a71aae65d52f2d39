"""
C20: PiecewiseLinearFunction<int64, int64> (the class exposed to Python).

For strictly increasing breakpoints b and segments (c_k, m_k), one more than
breakpoints, f(x) = c_k + m_k x for the k with b_{k-1} <= x < b_k.
"""
import z3
from dv import contract, loopvars
from symex import *

PLF = "pyvrp::PiecewiseLinearFunction<long, long>"
P = r"^pyvrp::PiecewiseLinearFunction<long, long>::"
i, j = z3.Ints("i j")


def bp(f, k, st=None):
    return f.elem("breakpoints_", k, st=st)


def seg(f, k, sub, st=None):
    return f.elem("segments_", k, sub, st=st)


def rep(f, st=None):
    """Representation invariant."""
    n = f.len("breakpoints_", st)
    return [f.len("segments_", st) == n + 1, n >= 0,
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), bp(f, i, st) < bp(f, j, st)))]


def bounds_tmpl(lims):
    """Candidates v <= e, v >= e for everything the loop carries."""
    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            for ln, e in lims.items():
                out.append((f"{nm} <= {ln}", lambda w, g=g, e=e: g(w) <= e))
                out.append((f"{nm} >= {ln}", lambda w, g=g, e=e: g(w) >= e))
        return out
    return tmpl


@contract("C20", "evaluation uses the segment whose interval contains the point")
def evaluate(v):
    f = v.obj(PLF, "f")
    v.require(*rep(f))
    x = v.int("x", -2**62, 2**62)
    n = f.len("breakpoints_")
    v.cover(extra=n == 2)

    def tmpl(eview, phis, modified):
        """Binary search over the breakpoints."""
        lv = loopvars(eview, phis, modified)
        out = []
        for a, ga in lv.items():
            out.append((f"0 <= {a} <= n", lambda w, ga=ga: z3.And(0 <= ga(w), ga(w) <= n)))
            out.append((f"before {a} <= x", lambda w, ga=ga: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ga(w)), bp(f, i) <= x))))
            out.append((f"from {a} on > x", lambda w, ga=ga: z3.ForAll([i], z3.Implies(z3.And(ga(w) <= i, i < n), bp(f, i) > x))))
            for b, gb in lv.items():
                if a != b:
                    out.append((f"{a}+{b} <= n", lambda w, ga=ga, gb=gb: ga(w) + gb(w) <= n))
                    out.append((f"from {a}+{b} on > x", lambda w, ga=ga, gb=gb: z3.ForAll([i], z3.Implies(z3.And(ga(w) + gb(w) <= i, i < n), bp(f, i) > x))))
        return out
    v.ex.loop_templates.append(tmpl)
    y = v.call(P + r"operator\(\)\(long\) const$", f, x)
    k = v.int("k")
    v.require(0 <= k, k <= n, z3.Or(k == 0, bp(f, k - 1) <= x), z3.Or(k == n, x < bp(f, k)))
    v.cover("some segment contains the point")
    v.ensure("f(x) is that of the segment containing x", y == seg(f, k, "first") + seg(f, k, "second") * x, timeout=40)


@contract("C20", "construction from breakpoints and segments")
def from_segments(v):
    ex = v.ex
    bs = v.localobj(PLF, "args")      # two argument vectors
    st = v.st
    n, m = v.int("nb", 0, 2**40), v.int("ns", 0, 2**40)
    a1, f1 = bs.fieldaddr("breakpoints_")
    a2, f2 = bs.fieldaddr("segments_")
    ex.setlen(st, a1, n)
    ex.setlen(st, a2, m)
    b0 = lambda k, st0=st.copy(): bs.elem("breakpoints_", k, st=st0)
    s0 = lambda k, sub, st0=st.copy(): bs.elem("segments_", k, sub, st=st0)
    f = v.localobj(PLF, "f")
    upto = lambda e: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e, i + 1 < n), b0(i) < b0(i + 1)))

    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            out.append((f"0 <= {nm} <= n", lambda w, g=g: z3.And(0 <= g(w), g(w) <= n)))
            out.append((f"increasing up to {nm}", lambda w, g=g: upto(g(w))))
        return out
    ex.loop_templates.append(tmpl)
    v.call(P + r"PiecewiseLinearFunction\(std::vector<long, .*>, std::vector<std::pair<long, long>, .*>\)$", f, Ptr.to(a1), Ptr.to(a2))
    good = AND(m >= 1, m == n + 1, upto(n))
    v.ensure("accepted only if well formed", good)
    thr = v.throws()
    v.ensure("rejected only if malformed", NOT(AND(thr, good)), pc=[])
    v.cover("accepts something", extra=n == 2)
    v.ensure("sizes are kept", AND(f.len("breakpoints_") == n, f.len("segments_") == m))
    v.ensure("breakpoints are kept", bp(f, i) == b0(i), also=[0 <= i, i < n])
    v.ensure("segments are kept", AND(seg(f, i, "first") == s0(i, "first"), seg(f, i, "second") == s0(i, "second")), also=[0 <= i, i < m])


@contract("C20", "monotonicity is reported exactly when it holds")
def monotone(v):
    f = v.obj(PLF, "f")
    v.require(*rep(f))
    n = f.len("breakpoints_")
    slopes = lambda e: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e, i <= n), seg(f, i, "second") >= 0))
    at = lambda k, s: seg(f, s, "first") + seg(f, s, "second") * bp(f, k)
    jumps = lambda e: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e, i < n), at(i, i) <= at(i, i + 1)))

    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            out.append((f"0 <= {nm} <= n + 1", lambda w, g=g: z3.And(0 <= g(w), g(w) <= n + 1)))
            out.append((f"{nm} <= n", lambda w, g=g: g(w) <= n))
            out.append((f"slopes before {nm}", lambda w, g=g: slopes(g(w))))
            out.append((f"jumps before {nm}", lambda w, g=g: jumps(g(w))))
        return out
    v.ex.loop_templates.append(tmpl)
    r = v.call(P + r"isMonotonicallyIncreasing\(\) const$", f)
    v.cover("some function is increasing", extra=AND(n == 1, r))
    v.ensure("reported increasing: no segment and no jump goes down", IMPL(r, AND(slopes(n + 1), jumps(n))), timeout=40)
    v.ensure("reported not increasing: some segment or jump goes down", IMPL(NOT(r), NOT(AND(slopes(n + 1), jumps(n)))), timeout=40)


@contract("C20", "equality compares breakpoints and segments")
def equality(v):
    f, g = v.obj(PLF, "f"), v.obj(PLF, "g")
    r = v.call(P + r"operator==\(", f, g)
    n, m = f.len("breakpoints_"), f.len("segments_")
    same_ = AND(n == g.len("breakpoints_"), m == g.len("segments_"),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), bp(f, i) == bp(g, i))),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(seg(f, i, "first") == seg(g, i, "first"), seg(f, i, "second") == seg(g, i, "second")))))
    v.ensure("equal functions have the same breakpoints and segments", IMPL(r, same_))
    v.ensure("functions with the same breakpoints and segments are equal", IMPL(same_, r))
    b = v.call(P + r"breakpoints\(\) const$", f)
    s = v.call(P + r"segments\(\) const$", f)
    v.ensure("breakpoints() and segments() report what is stored",
             AND(v.ex.addreq(b.alts[0][1], f.fieldaddr("breakpoints_")[0]), v.ex.addreq(s.alts[0][1], f.fieldaddr("segments_")[0])))


@contract("C20", "construction from points")
def from_points(v):
    ex = v.ex
    ex.uf_nonlinear = True
    vec = Region("heap", "points", 1, ctype="std::vector<std::pair<long, long>>")
    a = Addr(vec, (v.int("points"),))
    st = v.st
    n = v.int("n", 0, 2**40)
    ex.setlen(st, a, n)
    st0 = st.copy()
    T = "std::pair<long, long>"
    X = lambda k: v.viewof(st0, ex.vecelem(a, T, k), T, "first")
    Y = lambda k: v.viewof(st0, ex.vecelem(a, T, k), T, "second")
    # ghost: number of proper (non-jump) steps before point k
    S = z3.Function("steps", z3.IntSort(), z3.IntSort())
    v.require(S(0) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n), S(i + 1) == S(i) + z3.If(X(i) == X(i + 1), 0, 1)), patterns=[S(i + 1)]))
    f = v.localobj(PLF, "f")
    ok = lambda k: z3.Or(X(k) == X(k + 1), z3.And(X(k) < X(k + 1), ex.nl("srem", Y(k + 1) - Y(k), X(k + 1) - X(k)) == 0))
    oks = lambda e: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e, i + 1 < n), ok(i)))
    proper = lambda k: X(k) != X(k + 1)

    def line(k, st):
        c, m = seg(f, S(k), "first", st), seg(f, S(k), "second", st)
        return z3.And(m == ex.nl("sdiv", Y(k + 1) - Y(k), X(k + 1) - X(k)), c == Y(k) - ex.nl("mul", m, X(k)))

    def lines(e, st):
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e, i + 1 < n, proper(i)), line(i, st)))

    def breaks(e, st):
        return z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < e, i + 1 < n, proper(i)), bp(f, S(i) - 1, st) == X(i)))

    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            out.append((f"0 <= {nm} < n", lambda w, g=g: z3.And(0 <= g(w), g(w) < n)))
            out.append((f"points before {nm} well formed", lambda w, g=g: oks(g(w))))
            out.append((f"segments so far ({nm})", lambda w, g=g: f.len("segments_", w.st) == S(g(w))))
            out.append((f"breakpoints so far ({nm})", lambda w, g=g: f.len("breakpoints_", w.st) == z3.If(g(w) == 0, 0, S(g(w)) - 1)))
            out.append((f"lines before {nm}", lambda w, g=g: lines(g(w), w.st)))
            out.append((f"breaks before {nm}", lambda w, g=g: breaks(g(w), w.st)))
            out.append((f"steps before {nm} are fewer", lambda w, g=g: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g(w), proper(i)), S(i) < S(g(w))))))
            out.append((f"steps up to {nm} non-negative", lambda w, g=g: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= g(w)), S(i) >= 0))))
            out.append((f"after {nm} > 0 at least one step", lambda w, g=g: z3.Implies(g(w) > 0, S(g(w)) >= 1)))
            out.append((f"positive steps up to {nm}", lambda w, g=g: z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= g(w)), S(i) >= 1))))
        return out
    ex.loop_templates.append(tmpl)
    v.call(P + r"PiecewiseLinearFunction\(std::vector<std::pair<long, long>, .*>\)$", f, Ptr.to(a))
    good = AND(n >= 2, proper(0), proper(n - 2), oks(n))
    v.ensure("accepted only if well formed", good, timeout=40)
    thr = v.throws()
    v.ensure("rejected only if malformed", NOT(AND(thr, good)), pc=[], timeout=40)
    v.cover("accepts something", extra=n == 3)
    v.ensure("one more segment than breakpoints", AND(f.len("segments_") == S(n - 1), f.len("breakpoints_") == S(n - 1) - 1))
    v.ensure("every proper step becomes its own line", line(i, v.st), also=[0 <= i, i + 1 < n, proper(i)], timeout=40)
    v.ensure("every line begins at its breakpoint", bp(f, S(i) - 1) == X(i), also=[1 <= i, i + 1 < n, proper(i)], timeout=40)
    # lemma (exact integers): with an integral slope, the line passes through both points
    x0, y0, x1, y1 = z3.Ints("x0 y0 x1 y1")
    m, r = tdiv(y1 - y0, x1 - x0), smod(y1 - y0, x1 - x0)
    d = z3.Int("d")
    v.ensure("lemma: C++ division is exact when the remainder is zero", tdiv(d, x1 - x0) * (x1 - x0) == d, pc=[x0 < x1, smod(d, x1 - x0) == 0])
    m = z3.Int("m")
    v.ensure("lemma: an integral line passes through both of its points", z3.And((y0 - m * x0) + m * x0 == y0, (y0 - m * x0) + m * x1 == y1),
             pc=[x0 < x1, m * (x1 - x0) == y1 - y0])


def tdiv(a, b):
    """C++ integer division (truncating), as the generator renders sdiv."""
    absa, absb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
    q = absa / absb
    return z3.If((a >= 0) == (b >= 0), q, -q)


def smod(a, b):
    absa, absb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
    r = absa % absb
    return z3.If(a >= 0, r, -r)
