"""C18: iterated local search against a step by step specification, for any search method, penalty
history, stopping criterion, restart limit and history length; statistics and results."""
import z3
from pyvc import *

M = "pyvrp.IteratedLocalSearch"
IS = z3.IntSort()
INTMAX = 2**63 - 1
COST = z3.Function("cost", Ref, IS)
FEAS = z3.Function("feasible", Ref, z3.BoolSort())
PEN = z3.Function("penalised_cost", IS, Ref, IS)


class CE:
    """A cost evaluator (contract C06): cost does not depend on the weights, and is the penalised cost when feasible."""
    __vstub__ = True
    def __init__(self, v, ident):
        self.v, self.ident = v, ident
    def fact(self, s):
        self.v.facts.append(z3.And(COST(s) <= INTMAX, FEAS(s) == (COST(s) < INTMAX), z3.Implies(FEAS(s), PEN(self.ident, s) == COST(s))))
    def cost(self, s):
        self.fact(s)
        return COST(s)
    def penalised_cost(self, s):
        self.fact(s)
        return PEN(self.ident, s)


class Ring:
    """Contract of RingBuffer (C17)."""
    __vstub__ = True
    def __init__(self, v, n):
        self.v, self.n, self.slots, self.pos = v, n, z3.K(IS, NONE), z3.IntVal(0)
    @property
    def maxlen(self):
        return self.n
    def append(self, x):
        self.slots = z3.Store(self.slots, self.pos % self.n, x)
        self.pos = self.pos + 1
    def skip(self):
        self.pos = self.pos + 1
    def peek(self):
        return self.slots[self.pos % self.n]
    def clear(self):
        self.slots, self.pos = z3.K(IS, NONE), z3.IntVal(0)


class Quiet:
    __vstub__ = True
    def __init__(self, *a, **k):
        pass
    def start(self, *a):
        pass
    iteration = restart = end = start


class G:
    pass


@contract("C18", "IteratedLocalSearch.run: best so far, acceptance, restarts, iterations, statistics, for every run", timeout=240)
def run(v):
    g = G()
    g.min, g.searches, g.collected, g.laststop, g.reported = None, z3.IntVal(0), z3.IntVal(0), z3.IntVal(INTMAX), z3.IntVal(0)
    g.events = []
    init = v.ref("initial solution")
    limit, hlen = v.int("num_iters_no_improvement", 0), v.int("history_length", 1)
    exh = v.bool("exhaustive_on_best")
    v.shapes[("Ref", "is_feasible")] = lambda s: (lambda: FEAS(s))
    base = CE(v, z3.IntVal(-1))
    base.fact(init)
    g.min = COST(init)
    rings, stats = [], []
    def ring(n):
        v.ensure("the history has the configured length", n == hlen)
        rings.append(Ring(v, n))
        return rings[-1]
    v.stubs["pyvrp.RingBuffer.RingBuffer"] = ring
    class Stats:
        __vstub__ = True
        def collect(self, current, candidate, best, cost_evaluator):
            g.collected = g.collected + 1
            g.events.append(("collect", current, candidate, best, cost_evaluator))
    def mkstats(collect_stats=True):
        stats.append((Stats(), collect_stats))
        return stats[-1][0]
    v.stubs["pyvrp.Statistics.Statistics"] = mkstats
    v.stubs["pyvrp.ProgressPrinter.ProgressPrinter"] = Quiet
    clock = [z3.Real("t0")]
    def tick():
        clock.append(v.fresh("clock", z3.RealSort()))
        v.require(clock[-1] >= clock[-2])
        return clock[-1]
    v.stubs["time.perf_counter"] = tick
    class PM:
        __vstub__ = True
        def cost_evaluator(self):
            return CE(v, v.fresh("weights", IS))
        def register(self, sol):
            pass
    def search(sol, ce, exhaustive=False):
        out = v.fresh("candidate", Ref)
        v.require(out != NONE)
        ce.fact(out)
        ce.fact(sol)
        if exhaustive is True:
            v.require(PEN(ce.ident, out) <= PEN(ce.ident, sol))  # contract of the search method (C09)
        elif exhaustive is False:
            g.searches = g.searches + 1
        else:
            raise Unsupported("symbolic mode")
        g.min = z3.If(COST(out) < g.min, COST(out), g.min)
        g.events.append(("exhaustive" if exhaustive else "search", sol, out, ce))
        return out
    def stop(c):
        v.ensure("the stopping criterion sees the cost of the best solution so far", c == g.min)
        v.ensure("the cost the stopping criterion sees never gets worse", c <= g.laststop)
        g.laststop = c
        r = v.fresh("stop", z3.BoolSort())
        g.events.append(("stop", r))
        return r
    class CB:
        __vstub__ = True
        def on_start(self, ils):
            g.events.append(("start", ils))
        def on_end(self, res):
            g.events.append(("end", res))
        def on_restart(self, best):
            g.events.append(("restart", best))
        def on_best(self, best):
            g.events.append(("best", best))
        def on_iteration(self, current, candidate, best, cost_evaluator):
            g.reported = g.reported + 1
            g.events.append(("iter", current, candidate, best, cost_evaluator))
    par = v.raw(M, "IteratedLocalSearchParams", num_iters_no_improvement=limit, history_length=hlen, exhaustive_on_best=exh, callbacks=CB())
    algo = v.raw(M, "IteratedLocalSearch", _data="data", _pm=PM(), _search=search, _init=init, _params=par)
    collect = v.bool("collect_stats")

    def inv(L):
        best, curr = L["best"], L["curr"]
        base.fact(best)
        base.fact(curr)
        return [("the best solution is as cheap as any seen so far", COST(best) == g.min),
                ("the best and current solution exist", z3.And(best != NONE, curr != NONE)),
                ("iterations are counted", z3.And(asbool(L["iters"] == g.searches), g.searches >= 0)),
                ("the number of iterations without improvement is not negative", asbool(L["iters_no_improvement"] >= 0)),
                ("every iteration is reported and collected", z3.And(g.collected == g.searches, g.reported == g.searches)),
                ("the history is at a slot", rings[0].pos >= 0),
                ("the stopping criterion saw no better cost", g.laststop >= g.min)]

    def havoc(L):
        for n in ("min", "searches", "collected", "laststop", "reported"):
            setattr(g, n, v.fresh(n, IS))
        r = rings[0]
        r.slots, r.pos = v.fresh("slots", z3.ArraySort(IS, Ref)), v.fresh("pos", IS)
        g.events = []
        clock.append(v.fresh("clock", z3.RealSort()))
        v.require(clock[-1] >= clock[-2])
        return []

    def body(L):
        r = rings[0]
        g.pre = dict(best=L["best"], curr=L["curr"], noimp=L["iters_no_improvement"], iters=L["iters"], slots=r.slots, pos=r.pos)
        g.events = [e for e in g.events if e[0] != "stop"]

    def step(L):
        """One iteration, against the specification."""
        ev = list(g.events)
        ev = [e for e in ev if e[0] != "stop"]
        p = g.pre
        best, curr, noimp, slots, pos = p["best"], p["curr"], p["noimp"], p["slots"], p["pos"]
        base.fact(best)
        def nxt(kind):
            es = [e for e in ev if e[0] == kind]
            v.ensure(f"happens once in an iteration: {kind}", len(es) == 1)
            if len(es) != 1:
                raise Infeasible()
            ev.remove(es[0])
            return es[0]
        restart = any(e[0] == "restart" for e in ev)
        v.ensure("restarts exactly when the given number of iterations passed without improvement", (noimp == limit) == restart)
        if restart:
            e = nxt("restart")
            v.ensure("a restart continues from the best solution", e[1] == best)
            curr, noimp, slots, pos = best, z3.IntVal(0), z3.K(IS, NONE), z3.IntVal(0)
        e = nxt("search")
        v.ensure("the search starts from the current solution", e[1] == curr)
        cand, ce = e[2], e[3]
        noimp = noimp + 1
        newbest = any(e[0] == "best" for e in ev)
        v.ensure("a new best solution is recognised exactly when the candidate is cheaper than the best", (COST(cand) < COST(best)) == newbest)
        if newbest:
            best, noimp = cand, z3.IntVal(0)
            did = any(e[0] == "exhaustive" for e in ev)
            v.ensure("the exhaustive search is used on a new best solution exactly when asked for", exh == did)
            if did:
                e = nxt("exhaustive")
                v.ensure("the exhaustive search starts from the new best solution", e[1] == cand)
                cand = e[2]
                best = z3.If(FEAS(cand), cand, best)
            e = nxt("best")
            v.ensure("the new best solution is reported", e[1] == best)
        pc = lambda s: PEN(ce.ident, s)
        for s in (cand, curr, init):
            ce.fact(s)
        late = slots[pos % hlen]
        lc = z3.If(late != NONE, pc(late), pc(init))
        acc = z3.Or(pc(cand) < lc, pc(cand) < pc(curr))
        curr = z3.If(acc, cand, curr)
        slots = z3.If(z3.Or(pc(curr) < lc, late == NONE), z3.Store(slots, pos % hlen, curr), slots)
        pos = pos + 1
        for kind in ("collect", "iter"):
            e = nxt(kind)
            v.ensure(f"{kind}: the current solution is the candidate exactly when it is cheaper than the late or the current one", e[1] == curr)
            v.ensure(f"{kind}: gets the candidate", e[2] == cand)
            v.ensure(f"{kind}: gets the best solution", e[3] == best)
            v.ensure(f"{kind}: gets the cost evaluator in use", e[4] is ce)
        v.ensure("nothing else happens in an iteration", not ev)
        v.ensure("the current solution carries over", L["curr"] == curr)
        v.ensure("the best solution carries over", L["best"] == best)
        v.ensure("the number of iterations without improvement carries over", L["iters_no_improvement"] == noimp)
        v.ensure("the history remembers the current solution when it is better", z3.And(rings[0].slots == slots, rings[0].pos % hlen == pos % hlen))
        v.cover("an iteration")

    v.loops[(f"{M}.IteratedLocalSearch.run", 0)] = dict(inv=inv, havoc=havoc, body=body, step=step, vars=dict(cost_eval=lambda: CE(v, v.fresh("weights", IS)),
                                                      late=lambda: Undefined("late")))
    res = v.callm(algo, "run", stop, collect_stats=collect)
    if not isinstance(res, Obj):
        raise Unsupported("result")
    b = res["best"]
    base.fact(b)
    v.ensure("the returned solution is as cheap as any seen, including the initial one", COST(b) <= g.min)
    v.ensure("the number of iterations is the number of searches", res["num_iterations"] == g.searches)
    v.ensure("the statistics are those collected", len(stats) == 1 and res["stats"] is stats[0][0])
    v.ensure("statistics are collected exactly when asked for", asbool(stats[0][1] == collect))
    v.ensure("the run stops when the criterion says so", any(e[0] == "stop" for e in g.events))
    v.ensure("the end is reported with the result", g.events[-1][0] == "end" and g.events[-1][1] is res)
    v.cover("the run ends")


@contract("C18", "IteratedLocalSearchParams: accepted exactly for a non-negative restart limit and a positive history length")
def params(v):
    a, b = v.int("num_iters_no_improvement"), v.int("history_length")
    r, p = v.catching(v.new, M, "IteratedLocalSearchParams", a, b, True, "callbacks")
    good = z3.And(a >= 0, b > 0)
    v.ensure("rejected exactly when outside the domain", good if r == "ok" else z3.Not(good))
    v.cover("constructed or rejected")
    if r == "ok":
        v.ensure("stored unchanged", z3.And(p["num_iters_no_improvement"] == a, p["history_length"] == b, z3.BoolVal(p["exhaustive_on_best"] is True and p["callbacks"] == "callbacks")))


@contract("C18", "Statistics.collect: one entry per call with the costs and feasibility of the solutions given, nothing when not collecting")
def collect(v):
    on = v.bool("collecting")
    n = v.int("entries so far", 0)
    D = object()
    data = SList(v, n, lambda i: D)
    RT = z3.Const("runtimes", z3.ArraySort(IS, z3.RealSort()))
    rts = SList(v, n, RT)
    clock = [z3.Real("clock")]
    def tick():
        clock.append(v.fresh("clock", z3.RealSort()))
        v.require(clock[-1] >= clock[-2])
        return clock[-1]
    v.stubs["time.perf_counter"] = tick
    v.shapes[("Ref", "is_feasible")] = lambda s: (lambda: FEAS(s))
    st = v.raw("pyvrp.Statistics", "Statistics", runtimes=rts, num_iterations=n, data=data, _clock=clock[0], _collect_stats=on)
    cu, ca, be = v.ref("current"), v.ref("candidate"), v.ref("best")
    ce = CE(v, v.int("weights"))
    v.callm(st, "collect", cu, ca, be, ce)
    v.ensure("one more entry exactly when collecting", z3.And(*[asbool(x == z3.If(on, n + 1, n)) for x in (st["data"].n, st["runtimes"].n, st["num_iterations"])]))
    if v.branch(on):
        d = st["data"].at(n)
        if not isinstance(d, Obj):
            d = st["data"].at(z3.simplify(n))
        P = lambda s: PEN(ce.ident, s)
        v.ensure("the entry has the costs and feasibility of the three solutions", z3.And(d["current_cost"] == P(cu), d["current_feas"] == FEAS(cu), d["candidate_cost"] == P(ca),
                 d["candidate_feas"] == FEAS(ca), d["best_cost"] == P(be), d["best_feas"] == FEAS(be)))
        v.ensure("the runtime of an iteration is not negative", st["runtimes"].at(n) >= 0)
        j = v.int("any earlier entry", 0)
        v.require(j < n)
        v.ensure("earlier entries stay", z3.And(z3.BoolVal(earlier(st["data"], j, D)), st["runtimes"].at(j) == RT[j]))
        v.cover("collected")
    else:
        v.cover("not collecting")


def earlier(lst, j, D):
    # an index below the old length: the old element function is used
    try:
        return lst.get.__closure__ is not None and any(c.cell_contents is not None and callable(c.cell_contents) and c.cell_contents(j) is D for c in lst.get.__closure__)
    except Exception:
        raise Unsupported("list of entries")


@contract("C18", "Result: rejected exactly for negative iterations or runtime; cost and feasibility are those of the best solution")
def result(v):
    b = v.ref("best")
    n, t = v.int("num_iterations"), z3.Real("runtime")
    v.shapes[("Ref", "is_feasible")] = lambda s: (lambda: FEAS(s))
    nd = v.int("dims", 0)
    v.shapes[("Ref", "excess_load")] = lambda s: (lambda: SList(v, nd, z3.Const("excess", z3.ArraySort(IS, IS))))
    made = []
    def mk(loads, tw, dist):
        made.append((loads, tw, dist))
        return CE(v, v.int("zero weights"))
    v.stubs["pyvrp._pyvrp.CostEvaluator"] = mk
    v.stubs["math.inf"] = "infinity"
    r, res = v.catching(v.new, "pyvrp.Result", "Result", b, "stats", n, t)
    good = z3.And(n >= 0, t >= 0)
    v.ensure("rejected exactly when negative", good if r == "ok" else z3.Not(good))
    if r != "ok":
        return
    v.ensure("feasible exactly when the best solution is", asbool(v.callm(res, "is_feasible")) == FEAS(b))
    c = v.callm(res, "cost")
    if c == "infinity" if isinstance(c, str) else False:
        v.ensure("infinite cost only for an infeasible solution", z3.Not(FEAS(b)))
        v.cover("infeasible")
    else:
        v.ensure("the cost is that of the best solution", z3.And(FEAS(b), c == COST(b)))
        v.ensure("the evaluator covers all load dimensions", len(made) == 1 and isinstance(made[0][0], SList) and z3.simplify(made[0][0].n == z3.If(nd > 0, nd, 0)).eq(z3.BoolVal(True)))
        v.cover("feasible")
