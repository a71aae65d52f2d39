"""Penalty management: bounded, moves in the documented direction, evaluators carry the weights."""
import math
import warnings
from fractions import Fraction
import gen
from gen import *
from pyvrp import PenaltyManager, PenaltyParams

warnings.simplefilter("ignore")
RULE = "random parameters (boundary values and NaN) and random histories of registered violations; non-trivial when at least one update happened"
NAN = float("nan")


class Sol:
    def __init__(self, v):
        self.v = v
    def excess_load(self):
        return list(self.v[:-2])
    def time_warp(self):
        return self.v[-2]
    def excess_distance(self):
        return self.v[-1]


def params(r):
    kw = dict(solutions_between_updates=r.choice([1, 2, 3, 4, 5, 8, 10, 16]), penalty_increase=r.choice([1.0, 1.5, 2.0, 1.1, 10.0, r.uniform(1, 3)]),
              penalty_decrease=r.choice([0.0, 1.0, 0.5, 0.9, r.random()]), target_feasible=r.choice([0.0, 1.0, 0.5, 0.65, 0.25, r.random()]),
              feas_tolerance=r.choice([0.0, 0.05, 0.25, 0.5, 1.0, r.random() / 2]), min_penalty=r.choice([0.0, 0.1, 1.0, r.uniform(0, 50)]))
    kw["max_penalty"] = r.choice([kw["min_penalty"], kw["min_penalty"] + r.uniform(0, 100), 100_000.0])
    return kw


def valid(kw):
    return kw["solutions_between_updates"] >= 1 and kw["penalty_increase"] >= 1 and 0 <= kw["penalty_decrease"] <= 1 and 0 <= kw["target_feasible"] <= 1 \
        and 0 <= kw["feas_tolerance"] <= 1 and kw["min_penalty"] >= 0 and kw["max_penalty"] >= kw["min_penalty"]


def params_case(r, ctx):
    kw = params(r)
    for k in r.sample(list(kw), r.choice([0, 1, 1, 2])):
        kw[k] = r.choice([-1, -1e-9, 0, 1, 1 + 1e-9, 2, 0.5, -0.0]) if k == "solutions_between_updates" else r.choice([-1, -1e-9, 0, 1, 1 - 1e-9, 1 + 1e-9, 2, 0.5, NAN, 1e6])
    try:
        p = PenaltyParams(**kw)
    except ValueError as e:
        ctx.check(not valid(kw), f"valid parameters {kw} rejected: {e}")
        return
    ctx.check(valid(kw), f"invalid parameters {kw} accepted")
    for k, v in kw.items():
        ctx.eq(getattr(p, k), v, f"PenaltyParams.{k}")
    data = gen.problem(r)
    loads, tw, dist = p.midpoint_penalties(data)
    ctx.eq(len(loads), data.num_load_dimensions, "number of initial load penalties")
    for x in [*loads, tw, dist]:
        ctx.check(p.min_penalty <= x <= p.max_penalty, f"initial penalty {x} outside [{p.min_penalty}, {p.max_penalty}]")
        mid = (p.min_penalty + p.max_penalty) / 2
        ctx.check(math.isclose(x, mid, rel_tol=1e-9, abs_tol=1e-9), f"initial penalty {x} is not the midpoint {mid}")
    ctx.seen(("params", str(sorted(kw.items()))))


def evaluator(ctx, pm, pens):
    loads, tw, dist = pens
    for what, ce, (l, t, d) in (("current", pm.cost_evaluator(), pens), ("maximum", pm.max_cost_evaluator(), ([pm._params.max_penalty if hasattr(pm, "_params") else None] * len(loads),) + (None, None))):
        if what == "maximum":
            continue
        for i, w in enumerate(l):
            for x in (1, 1000, 10**6 + 3):
                ctx.eq(ce.load_penalty(x + 7, 7, i), int(w * x), f"load penalty {i} for excess {x} at weight {w}")
        for x in (1, 1000, 10**6 + 3):
            ctx.eq(ce.tw_penalty(x), int(t * x), f"time warp penalty for {x} at weight {t}")
            ctx.eq(ce.dist_penalty(x + 7, 7), int(d * x), f"distance penalty for {x} at weight {d}")


def history(r, ctx):
    kw = params(r)
    p = PenaltyParams(**kw)
    nd = r.randint(0, 3)
    lo, hi = kw["min_penalty"], kw["max_penalty"]
    init = ([r.choice([0, lo, hi, r.uniform(0, 200), hi * 3]) for _ in range(nd)], r.choice([0, r.uniform(0, 200), lo, hi]), r.choice([0, hi, r.uniform(0, 2000)]))
    ctx.note(kw, init)
    pm = PenaltyManager((list(init[0]), init[1], init[2]), p)
    cur = [min(max(x, lo), hi) for x in [*init[0], init[1], init[2]]]
    flat = lambda q: [float(x) for x in [*q[0], q[1], q[2]]]
    def same(got, want, what):
        ctx.eq(len(got), len(want), what + ": number of penalties")
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.check(math.isclose(g, w, rel_tol=1e-12, abs_tol=0), f"{what}: penalty {i} is {g}, expected {w} (parameters {kw})")
            ctx.check(lo <= g <= hi, f"{what}: penalty {i} = {g} outside [{lo}, {hi}]")
    same(flat(pm.penalties()), cur, "initially")
    k = kw["solutions_between_updates"]
    hist = [[] for _ in cur]
    pf = r.random()
    seen = 0
    for step in range(r.randint(0, 5 * k + 3)):
        v = [0 if r.random() < pf else r.randint(1, 100) for _ in cur]
        if r.random() < 0.1:
            pf = r.choice([0, 1, r.random()])
        before = flat(pm.penalties())
        pm.register(Sol(v))
        for h, x in zip(hist, v):
            h.append(x)
        if len(hist[0]) < k:
            same(flat(pm.penalties()), before, f"after registration {step} (no update due)")
            continue
        seen += 1
        after = flat(pm.penalties())
        new = []
        for i, h in enumerate(hist):
            feas = Fraction(sum(x == 0 for x in h), k)
            diff = Fraction(kw["target_feasible"]) - feas
            tol = Fraction(kw["feas_tolerance"])
            up = min(max(kw["penalty_increase"] * cur[i], lo), hi)
            down = min(max(kw["penalty_decrease"] * cur[i], lo), hi)
            want = [cur[i]] if abs(diff) < tol else [up if diff > 0 else down]
            if abs(abs(diff) - tol) < Fraction(1, 10**9):
                exact = Fraction(kw["target_feasible"]).denominator <= 64 and tol.denominator <= 64 and k & (k - 1) == 0
                if not exact:  # rounding decides
                    want = [cur[i], up, down] if abs(diff) < Fraction(1, 10**9) else [cur[i], up if diff > 0 else down]
            ctx.check(any(math.isclose(after[i], w, rel_tol=1e-12, abs_tol=0) for w in want),
                      f"penalty {i} went from {cur[i]} to {after[i]}, expected {want[0]}: {float(feas)} feasible, target {kw['target_feasible']}, tolerance {kw['feas_tolerance']}")
            new.append(after[i])
        cur = new
        same(after, cur, "after an update")
        hist = [[] for _ in cur]
        evaluator(ctx, pm, pm.penalties())
    if seen:
        ctx.seen((str(kw), seen))
    evaluator(ctx, pm, pm.penalties())
    mx = pm.max_cost_evaluator()
    for x in (1, 1000):
        ctx.eq([mx.load_penalty(x, 0, i) for i in range(nd)] + [mx.tw_penalty(x), mx.dist_penalty(x, 0)], [int(hi * x)] * (nd + 2), "penalties of the maximum evaluator")


def case(r, ctx, i):
    params_case(r, ctx) if i % 4 == 0 else history(r, ctx)
