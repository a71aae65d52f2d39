"""Fleet minimisation with scripted and real solver outcomes."""
import math
import sys
import types
import gen
from gen import *
from fractions import Fraction
from pyvrp import CostEvaluator, Result, minimise_fleet, solve as real_solve
from pyvrp.Statistics import Statistics
from pyvrp.stop import MaxIterations
from p_C11 import snap, diff

RULE = ("random single-vehicle-type problems without optional clients, with scripted solver outcomes (feasible with any number of routes, infeasible, stopped) and with the real solver; "
        "non-trivial when at least one smaller fleet was tried")


def bound(data):
    v = data.vehicle_type(0)
    b = 1
    for k in range(data.num_load_dimensions):
        dem = max(sum(c.delivery[k] for c in data.clients()), sum(c.pickup[k] for c in data.clients()))
        b = max(b, math.ceil(Fraction(dem, max(v.capacity[k] * v.max_trips, 1))))
    return b


def problem(r):
    while True:
        data = gen.problem(r, nv=1, ng=0, optional=0, ns=r.choice([0, 0, 1]), nc=r.randint(0, 7), S=r.choice([10, 50]))
        p = dict(vehicle_types=[data.vehicle_type(0).replace(num_available=r.choice([1, 2, 3, 5, 9]))])
        v = p["vehicle_types"][0]
        if r.random() < 0.6:
            v = v.replace(capacity=[r.randint(5, 60) for _ in v.capacity], initial_load=[0] * len(v.capacity), shift_duration=MAX, max_distance=MAX)
        return gen.strip(r, data.replace(vehicle_types=[v]), r.choice([0, 0.8, 1]))


class Stop:
    def __init__(self, n):
        self.n, self.calls, self.costs = n, 0, []
    def __call__(self, c):
        self.calls += 1
        self.costs.append(c)
        return self.calls > self.n


class Script:
    """Stands in for solve: returns feasible or infeasible solutions at will."""
    def __init__(self, r, log):
        self.r, self.log = r, log
    def __call__(self, data, stop, seed=0, collect_stats=True, display=False, params=None, initial_solution=None):
        r = self.r
        sol = None
        want = r.random() < 0.8
        for _ in range(30 if want else 1):
            s = gen.solution(r, data, complete=True)
            if sol is None or (s.is_feasible() and (not sol.is_feasible() or r.random() < 0.3)):
                sol = s
        ce = CostEvaluator([0] * data.num_load_dimensions, 0, 0)
        for _ in range(r.randint(0, 2)):
            stop(ce.cost(sol))
        self.log.append((data, sol))
        return Result(sol, Statistics(), 1, 0.0)


def patched(fn):
    """Calls fn with solve replaced wherever minimise_fleet may look it up."""
    mods = [m for n, m in list(sys.modules.items()) if n in ("pyvrp.minimise_fleet", "pyvrp.solve", "pyvrp") and isinstance(m, types.ModuleType)]
    saved = [(m, m.__dict__["solve"]) for m in mods if callable(m.__dict__.get("solve"))]
    for m, _ in saved:
        m.solve = fn
    return saved


def case(r, ctx, i):
    if i % 10 == 9:
        return rejected(r, ctx)
    real = i % 10 == 8
    data = problem(r)
    ctx.note(describe(data))
    orig = data.vehicle_type(0)
    before = snap(data)
    stop = Stop(r.choice([1, 2, 3, 10, 30])) if not real else MaxIterations(r.randint(5, 20))
    log = []
    def spy(*a, **k):
        res = real_solve(*a, **k)
        log.append((a[0] if a else k["data"], res.best))
        return res
    saved = patched(spy if real else Script(r, log))
    try:
        out = minimise_fleet(data, stop, r.randint(0, 9))
    finally:
        for m, f in saved:
            m.solve = f
    ctx.note("tried", [(d.num_vehicles, s.is_feasible(), s.num_routes()) for d, s in log], "returned", out.num_available)
    d = diff(before, snap(data))
    ctx.check(d is None, f"the problem passed in was changed at {d}")
    ctx.check(out == orig.replace(num_available=out.num_available), "the fleet returned differs from the given one in more than its size")
    n = out.num_available
    ctx.check(1 <= n <= orig.num_available, f"{n} vehicles returned, {orig.num_available} were available")
    ctx.check(n >= min(bound(data), orig.num_available), f"{n} vehicles returned, below the capacity bound {bound(data)}")
    ctx.check(n == orig.num_available or any(s.is_feasible() and s.is_complete() and s.num_routes() <= n <= max(dd.num_vehicles, 1) for dd, s in log), f"{n} vehicles returned, but no feasible solution with that many was found")
    for dd, s in log:
        ctx.check(dd.num_vehicle_types == 1 and dd.vehicle_type(0) == orig.replace(num_available=dd.num_vehicles) and dd.num_vehicles < orig.num_available, "a fleet that is not a smaller version of the original was tried")
        ctx.check(dd == data.replace(vehicle_types=dd.vehicle_types()), "a different problem was solved")
    if log:
        ctx.seen((str([(d.num_vehicles, s.num_routes(), s.is_feasible()) for d, s in log]), n))


def rejected(r, ctx):
    data = gen.problem(r, optional=r.choice([0, 0.3]), ng=r.choice([0, 1]))
    bad = data.num_vehicle_types != 1 or any(not c.required for c in data.clients())
    saved = patched(Script(r, []))
    try:
        minimise_fleet(data, Stop(2))
        ctx.check(not bad, "a problem with several vehicle types or optional clients was accepted")
    except ValueError as e:
        ctx.check(bad, f"a valid problem was rejected: {e}")
    finally:
        for m, f in saved:
            m.solve = f
