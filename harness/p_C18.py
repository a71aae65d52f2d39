"""Iterated local search: best-so-far, statistics, restarts and late acceptance, for arbitrary search methods."""
import math
import warnings
import gen
from gen import *
from pyvrp import CostEvaluator, IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager, PenaltyParams, RandomNumberGenerator, Result
from pyvrp.IteratedLocalSearch import IteratedLocalSearchCallbacks
from pyvrp.Statistics import Statistics
from pyvrp.stop import MaxIterations, MultipleCriteria, NoImprovement
from pyvrp.search import LocalSearch, PerturbationManager, compute_neighbours
import pyvrp.search as S

warnings.simplefilter("ignore")
RULE = ("runs of the algorithm on random problems with scripted search methods (arbitrary candidates; the exhaustive mode never worsens, which is the contract of the search) and with the real one; "
        "non-trivial when a new best solution was found after the start")


class Scripted:
    def __init__(self, r, pool, log):
        self.r, self.pool, self.log = r, pool, log
    def __call__(self, sol, ce, exhaustive=False):
        r = self.r
        if exhaustive:
            opts = [s for s in self.pool if ce.penalised_cost(s) <= ce.penalised_cost(sol)] + [sol]
            out = r.choice(opts)
        else:
            x = r.random()
            out = r.choice(self.pool)
            if x < 0.3:  # often close to the present best
                out = min(r.sample(self.pool, min(3, len(self.pool))), key=ce.penalised_cost)
        self.log.append(("exhaustive" if exhaustive else "search", sol, out, ce))
        return out


class Spy:
    """Wraps a real search method."""
    def __init__(self, ls, log):
        self.ls, self.log = ls, log
    def __call__(self, sol, ce, exhaustive=False):
        out = self.ls(sol, ce, exhaustive=exhaustive)
        self.log.append(("exhaustive" if exhaustive else "search", sol, out, ce))
        return out


class Stop:
    def __init__(self, inner, log):
        self.inner, self.log = inner, log
    def __call__(self, c):
        x = self.inner(c)
        self.log.append(("stop", c, bool(x)))
        return x


class CB(IteratedLocalSearchCallbacks):
    def __init__(self, log):
        self.log = log
    def on_start(self, ils):
        self.log.append(("start",))
    def on_end(self, result):
        self.log.append(("end", result))
    def on_iteration(self, current, candidate, best, cost_evaluator):
        self.log.append(("iter", current, candidate, best, cost_evaluator))
    def on_restart(self, best):
        self.log.append(("restart", best))
    def on_best(self, best):
        self.log.append(("best", best))


def run(r, ctx, i):
    real = i % 8 == 7
    data = gen.strip(r, gen.problem(r, nc=r.randint(1, 6)), 0.7)
    ctx.note(describe(data))
    k = r.randint(2, 12)
    pool = [gen.solution(r, data, complete=r.random() < 0.8) for _ in range(k)]
    pp = PenaltyParams(solutions_between_updates=r.choice([1, 2, 5, 50]), min_penalty=0.1, max_penalty=r.choice([10, 1000]))
    pm = PenaltyManager(pp.midpoint_penalties(data), pp)
    log = []
    if real:
        rng = RandomNumberGenerator(r.randint(1, 1000))
        ls = LocalSearch(data, rng, compute_neighbours(data), PerturbationManager())
        for op in S.OPERATORS:
            if op.supports(data):
                ls.add_operator(op(data))
        search = Spy(ls, log)
        init = ls(r.choice(pool), pm.max_cost_evaluator(), exhaustive=True)
    else:
        search = Scripted(r, pool, log)
        init = r.choice(pool)
    limit, hlen = r.choice([0, 1, 2, 3, 5, 100]), r.choice([1, 2, 3, 5, 50])
    exh = r.random() < 0.5
    par = IteratedLocalSearchParams(limit, hlen, exh, CB(log))
    stop = Stop(r.choice([MaxIterations(r.randint(0, 30)), MultipleCriteria([MaxIterations(40), NoImprovement(r.randint(1, 10))])]), log)
    collect = r.random() < 0.8
    algo = IteratedLocalSearch(data, pm, search, init, par)
    ctx.check(algo.initial_solution is init and algo.penalty_manager is pm and algo.params is par, "algorithm attributes")
    res = algo.run(stop, collect_stats=collect, display=False)
    ctx.note("restart after", limit, "history", hlen, "exhaustive", exh, "pool costs", [ce_cost(s) for s in pool])
    check_run(ctx, data, log, init, res, limit, hlen, exh, collect)
    return res, log


def ce_cost(s):
    z = CostEvaluator([0] * len(s.excess_load()), 0, 0)
    return z.cost(s)


def check_run(ctx, data, log, init, res, limit, hlen, exh, collect):
    cost = ce_cost
    best = curr = init
    hist, pos = [None] * hlen, 0
    no_imp, iters = 0, 0
    want_stats = []
    ev = list(log)
    p = 0
    def nxt(kind):
        nonlocal p
        ctx.check(p < len(ev), f"expected '{kind}' but the run ended after {p} events")
        e = ev[p]
        ctx.check(e[0] == kind, f"expected '{kind}' but saw '{e[0]}' in iteration {iters}")
        p += 1
        return e
    nxt("start")
    improved = False
    while True:
        e = nxt("stop")
        ctx.eq(e[1], cost(best), f"cost of the best solution seen by the stopping criterion after {iters} iterations")
        if e[2]:
            break
        iters += 1
        if no_imp == limit:
            e = nxt("restart")
            ctx.check(e[1] == best, "restart does not report the best solution")
            hist, pos = [None] * hlen, 0
            curr, no_imp = best, 0
        e = nxt("search")
        ctx.check(e[1] == curr, f"the search in iteration {iters} did not start from the current solution")
        cand, ce = e[2], e[3]
        no_imp += 1
        if cost(cand) < cost(best):
            best, no_imp, improved = cand, 0, True
            if exh:
                e = nxt("exhaustive")
                ctx.check(e[1] == cand, "the exhaustive search did not start from the new best solution")
                cand = e[2]
                if cand.is_feasible():
                    best = cand
            e = nxt("best")
            ctx.check(e[1] == best, f"the best solution reported in iteration {iters} costs {cost(e[1])}, expected {cost(best)}")
        pc = ce.penalised_cost
        late = hist[pos % hlen]
        lc = pc(late) if late is not None else pc(init)
        if pc(cand) < lc or pc(cand) < pc(curr):
            curr = cand
        if pc(curr) < lc or late is None:
            hist[pos % hlen] = curr
        pos += 1
        e = nxt("iter")
        ctx.check(e[1] == curr, f"current solution after iteration {iters} costs {pc(e[1])}, expected {pc(curr)} (candidate {pc(cand)}, late {lc})")
        ctx.check(e[2] == cand, f"candidate reported in iteration {iters}")
        ctx.check(e[3] == best, f"best solution after iteration {iters} costs {cost(e[3])}, expected {cost(best)}")
        want_stats.append((pc(curr), curr.is_feasible(), pc(cand), cand.is_feasible(), pc(best), best.is_feasible()))
    e = nxt("end")
    ctx.check(p == len(ev), "the run went on after it ended")
    ctx.check(e[1] is res or e[1] == res, "on_end got another result")
    ctx.check(res.best == best, f"the returned best solution costs {cost(res.best)}, expected {cost(best)}")
    for e in ev:
        if e[0] in ("search", "exhaustive"):
            ctx.check(cost(res.best) <= cost(e[2]), f"the returned solution costs {cost(res.best)}, but a candidate cost {cost(e[2])}")
    ctx.check(cost(res.best) <= cost(init), "the returned solution is worse than the initial one")
    ctx.eq(res.num_iterations, iters, "number of iterations")
    ctx.check(res.runtime >= 0, "negative runtime")
    st = res.stats
    ctx.eq(st.is_collecting(), collect, "is_collecting")
    ctx.eq(st.num_iterations, iters if collect else 0, "iterations in the statistics")
    ctx.eq(len(st.runtimes), iters if collect else 0, "runtimes in the statistics")
    ctx.check(all(t >= 0 for t in st.runtimes), "negative iteration runtime")
    got = [(d.current_cost, d.current_feas, d.candidate_cost, d.candidate_feas, d.best_cost, d.best_feas) for d in st]
    ctx.eq(got, want_stats if collect else [], "collected statistics")
    result(ctx, res)
    if improved:
        ctx.seen((iters, limit, hlen, cost(best), len(ev)))


def result(ctx, res):
    b = res.best
    ctx.eq(res.is_feasible(), b.is_feasible(), "Result.is_feasible")
    ctx.eq(res.cost(), ce_cost(b) if b.is_feasible() else math.inf, "Result.cost")
    rows = {}
    for line in res.summary().splitlines():
        if ":" in line:
            a, v = line.split(":", 1)
            rows[a.strip()] = v.strip()
    want = {"# routes": b.num_routes(), "# trips": b.num_trips(), "# clients": b.num_clients(), "# shipments": b.num_shipments(), "distance": b.distance(), "duration": b.duration(),
            "# iterations": res.num_iterations, "objective": ce_cost(b) if b.is_feasible() else "INFEASIBLE", "run-time": f"{res.runtime:.2f} seconds"}
    for k, v in want.items():
        if k in rows:
            ctx.eq(rows[k], str(v), f"summary line '{k}'")
    ctx.check(str(b) in str(res), "str(result) lacks the routes")


def statistics_(r, ctx):
    """Statistics survive writing and reading."""
    import os, tempfile
    data = gen.problem(r)
    sols = [gen.solution(r, data) for _ in range(4)]
    ce = CostEvaluator([r.randint(0, 9)] * data.num_load_dimensions, r.randint(0, 9), r.randint(0, 9))
    st = Statistics()
    for _ in range(r.randint(0, 6)):
        st.collect(r.choice(sols), r.choice(sols), r.choice(sols), ce)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.csv")
        sep = r.choice([",", ";", "\t"])
        st.to_csv(f, delimiter=sep)
        o = Statistics.from_csv(f, delimiter=sep)
    ctx.check(o == st, "statistics read from a file differ from those written")
    ctx.eq([(d.current_cost, d.current_feas, d.candidate_cost, d.candidate_feas, d.best_cost, d.best_feas) for d in o], [(d.current_cost, d.current_feas, d.candidate_cost, d.candidate_feas, d.best_cost, d.best_feas) for d in st], "statistics read back")
    for n, t in ((0, 0.0), (5, 1.5), (-1, 0.0), (0, -1e-9), (3, -2)):
        try:
            Result(sols[0], st, n, t)
            ctx.check(n >= 0 and t >= 0, f"Result with {n} iterations and runtime {t} accepted")
        except ValueError:
            ctx.check(n < 0 or t < 0, f"Result with {n} iterations and runtime {t} rejected")
    for k, h in ((0, 1), (1, 1), (-1, 1), (0, 0), (5, -1)):
        try:
            IteratedLocalSearchParams(k, h)
            ctx.check(k >= 0 and h > 0, f"parameters {k}, {h} accepted")
        except ValueError:
            ctx.check(k < 0 or h <= 0, f"parameters {k}, {h} rejected")


def case(r, ctx, i):
    if i % 16 == 3:
        statistics_(r, ctx)
    else:
        run(r, ctx, i)
