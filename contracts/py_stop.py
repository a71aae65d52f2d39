"""C16: stopping criteria, as history invariants. Each class is proved from its constructor (base) and
from an arbitrary state that satisfies the invariant of a history of k calls (step)."""
import z3
from pyvc import *

INTMAX = 2**63 - 1


@contract("C16", "MaxIterations: constructor, and any call after any number of calls")
def maxiter(v):
    m = v.int("max_iterations")
    r, s = v.catching(v.new, "pyvrp.stop.MaxIterations", "MaxIterations", m)
    v.ensure("rejected exactly when negative", (r == "ValueError") == (m < 0) if r != "ok" else m >= 0)
    v.cover("constructor returns or raises")
    if r != "ok":
        return
    only(s, "_curr_iter", "_max_iters")
    k = v.int("calls so far", 0)
    v.ensure("a new criterion has seen no call", z3.And(asbool(s["_curr_iter"] == 0), s["_max_iters"] == m), base=True)
    s.attrs["_curr_iter"] = k
    ans = v.callm(s, "__call__", v.int("best_cost"))
    v.ensure("stops exactly from the call after the given number of calls on", v.truth(ans) == (k + 1 > m))
    v.ensure("one more call has been seen, the limit stays", z3.And(s["_curr_iter"] == k + 1, s["_max_iters"] == m))
    v.cover("call")


@contract("C16", "NoImprovement: constructor, and any call after any history")
def noimp(v):
    m = v.int("max_iterations")
    r, s = v.catching(v.new, "pyvrp.stop.NoImprovement", "NoImprovement", m)
    v.ensure("rejected exactly when negative", m < 0 if r == "ValueError" else m >= 0)
    if r != "ok":
        return
    only(s, "_target", "_counter", "_max_iterations")
    v.ensure("a new criterion has seen no call", asbool(s["_target"] is None and s["_counter"] == 0), base=True)
    c = v.int("best_cost")
    if v.choose(2) == 0:  # first call
        ans = v.callm(s, "__call__", c)
        v.ensure("first call: the cost is the best so far, no call without improvement yet", z3.And(asbool(s["_target"] == c), asbool(s["_counter"] == 0)))
        v.ensure("first call: stops exactly when the limit is zero", v.truth(ans) == (m <= 0))
        v.cover("first call")
        return
    b, k = v.int("best so far"), v.int("calls since the last improvement", 0)
    s.attrs["_target"], s.attrs["_counter"] = b, k
    ans = v.callm(s, "__call__", c)
    k2 = z3.If(c < b, 0, k + 1)
    v.ensure("the best cost so far is kept", s["_target"] == z3.If(c < b, c, b))
    v.ensure("calls without a strict improvement are counted", s["_counter"] == k2)
    v.ensure("stops exactly when the given number of calls passed without improvement", v.truth(ans) == (k2 >= m))
    v.ensure("the limit stays", s["_max_iterations"] == m)
    v.cover("later call")


@contract("C16", "FirstFeasible")
def feas(v):
    v.stubs["numpy.iinfo"] = lambda t: IInfo()
    v.stubs["numpy.int64"] = "int64"
    s = v.new("pyvrp.stop.FirstFeasible", "FirstFeasible")
    c = v.int("best_cost", None, INTMAX)
    ans = v.callm(s, "__call__", c)
    v.ensure("stops exactly when the best cost is that of a feasible solution", v.truth(ans) == (c != INTMAX))
    v.cover("call")


class IInfo:
    __vstub__ = True
    max, min = INTMAX, -2**63


@contract("C16", "MaxRuntime: constructor, first call and any later call, for any monotone clock")
def runtime(v):
    clock = []
    def tick():
        t = v.fresh("clock", z3.RealSort())
        if clock:
            v.require(t >= clock[-1])
        clock.append(t)
        return t
    for n in ("perf_counter", "monotonic"):
        v.stubs["time." + n] = tick
    m = z3.Real("max_runtime")
    r, s = v.catching(v.new, "pyvrp.stop.MaxRuntime", "MaxRuntime", m)
    v.ensure("rejected exactly when negative", m < 0 if r == "ValueError" else m >= 0)
    if r != "ok":
        return
    only(s, "_start_runtime", "_max_runtime")
    v.ensure("the clock is not running before the first call", s["_start_runtime"] is None, base=True)
    if v.choose(2) == 0:
        clock.clear()
        ans = v.callm(s, "__call__", v.int("best_cost"))
        if not clock:
            raise Unsupported("uses another clock")
        v.ensure("the first call starts the clock", z3.And(s["_start_runtime"] >= clock[0], s["_start_runtime"] <= clock[-1]))
        v.ensure("first call: stops exactly when more than the limit passed since the start", v.truth(ans) == (clock[-1] - s["_start_runtime"] > m))
        v.cover("first call")
        return
    t0 = z3.Real("start")
    s.attrs["_start_runtime"] = t0
    clock.append(t0)
    ans = v.callm(s, "__call__", v.int("best_cost"))
    v.ensure("later calls keep the start", s["_start_runtime"] == t0)
    v.ensure("stops exactly when the elapsed time exceeds the limit", v.truth(ans) == (clock[-1] - t0 > m))
    v.ensure("the limit stays", s["_max_runtime"] == m)
    v.cover("later call")


class Crit:
    """An arbitrary criterion: its answer to this call is arbitrary; calls are recorded."""
    __vstub__ = True
    def __init__(self, v, i):
        self.v, self.i, self.seen = v, i, []
    def __call__(self, cost):
        self.seen.append(cost)
        return z3.Bool(f"answer{self.i}")


@contract("C16", "MultipleCriteria: any number of members (symbolic)")
def multi(v):
    n = v.int("number of criteria", 0)
    ANS = z3.Function("answer", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    class C:
        __vstub__ = True
        def __init__(self, i):
            self.i = i
        def __call__(self, cost):
            return ANS(self.i, cost)
    crits = SList(v, n, lambda i: C(i))
    r, s = v.catching(v.new, "pyvrp.stop.MultipleCriteria", "MultipleCriteria", crits)
    v.ensure("rejected exactly when empty", n == 0 if r == "ValueError" else n > 0)
    if r != "ok":
        return
    c = v.int("best_cost")
    v.loops[("pyvrp.stop.MultipleCriteria.MultipleCriteria.__call__", 0)] = dict(
        inv=lambda L: [("no member stopped so far", z3.ForAll([J], z3.Implies(z3.And(J >= 0, J < L.i), z3.Not(ANS(J, c)))))], havoc=lambda L: [])
    J = z3.Int("j")
    ans = v.callm(s, "__call__", c)
    ex = z3.Exists([J], z3.And(J >= 0, J < n, ANS(J, c)))
    v.ensure("stops exactly when at least one member says so", asbool(v.truth(ans)) == ex)
    v.ensure("the members stay", s["criteria"] is crits)
    v.cover("call")


def multi_n(k):
    @contract("C16", f"MultipleCriteria: which members observe a call ({k} members)")
    def f(v):
        cs = [Crit(v, i) for i in range(k)]
        s = v.new("pyvrp.stop.MultipleCriteria", "MultipleCriteria", cs)
        c = v.int("best_cost")
        ans = v.truth(v.callm(s, "__call__", c))
        a = [z3.Bool(f"answer{i}") for i in range(k)]
        v.ensure("stops exactly when at least one member says so", asbool(ans) == z3.Or(*a))
        v.ensure("a member is never called twice", all(len(x.seen) <= 1 for x in cs))
        v.ensure("every member observes a call that does not stop", z3.Or(asbool(ans), z3.BoolVal(all(len(x.seen) == 1 and (x.seen[0] is c or x.seen[0].eq(c)) for x in cs))))
        v.cover("call")
    return f


for _k in (1, 2, 3):
    multi_n(_k)
