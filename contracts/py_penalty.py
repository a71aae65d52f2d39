"""C15: penalty management. Floats are IEEE doubles (z3 FP) except where Real is stated."""
import z3
from pyvc import *

M = "pyvrp.PenaltyManager"
IS = z3.IntSort()


def finite(v, x):
    v.require(z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsNaN(x)))
    return x


def clip1(x, lo, hi):
    """numpy.clip of a scalar that is not NaN: minimum(maximum(x, lo), hi)."""
    if any(is_fp(y) for y in (x, lo, hi)):
        x, lo, hi = fp(x), fp(lo), fp(hi)
        m = z3.If(z3.fpLT(x, lo), lo, x)
        return z3.If(z3.fpGT(m, hi), hi, m)
    m = ite(x < lo, lambda: lo, lambda: x)
    return ite(m > hi, lambda: hi, lambda: m)


def numpy_stubs(v):
    def clip(x, lo, hi):
        if isinstance(x, SList):
            return SList(v, x.n, lambda i: clip1(x.at(i), lo, hi))
        if isinstance(x, (list, tuple)):
            return [clip1(y, lo, hi) for y in x]
        return clip1(x, lo, hi)
    def full_like(a, val):
        return SList(v, a.n, lambda i: val)
    v.stubs["numpy.clip"] = clip
    v.stubs["numpy.full_like"] = full_like
    v.stubs["numpy.minimum"] = lambda a, b: z3.If(z3.fpLT(a, b), a, b)
    v.stubs["numpy.maximum"] = lambda a, b: z3.If(z3.fpGT(a, b), a, b)


def params(v):
    """Valid parameters (the postcondition of PenaltyParams)."""
    f = {k: finite(v, z3.FP(k, F64)) for k in ("penalty_increase", "penalty_decrease", "target_feasible", "feas_tolerance", "min_penalty", "max_penalty")}
    f["solutions_between_updates"] = v.int("solutions_between_updates", 1)
    le = z3.fpLEQ
    v.require(le(fp(1), f["penalty_increase"]), le(fp(0), f["penalty_decrease"]), le(f["penalty_decrease"], fp(1)), le(fp(0), f["target_feasible"]),
              le(f["target_feasible"], fp(1)), le(fp(0), f["feas_tolerance"]), le(f["feas_tolerance"], fp(1)), le(fp(0), f["min_penalty"]),
              le(f["min_penalty"], f["max_penalty"]))
    return v.raw(M, "PenaltyParams", **f), f


@contract("C15", "PenaltyParams: accepted exactly when all parameters are in their documented domains (NaN and infinities included)")
def pparams(v):
    k = v.int("solutions_between_updates")
    f = {n: z3.FP(n, F64) for n in ("penalty_increase", "penalty_decrease", "target_feasible", "feas_tolerance", "min_penalty", "max_penalty")}
    r, p = v.catching(v.new, M, "PenaltyParams", solutions_between_updates=k, **f)
    le = z3.fpLEQ
    good = z3.And(k >= 1, le(fp(1), f["penalty_increase"]), le(fp(0), f["penalty_decrease"]), le(f["penalty_decrease"], fp(1)), le(fp(0), f["target_feasible"]),
                  le(f["target_feasible"], fp(1)), le(fp(0), f["feas_tolerance"]), le(f["feas_tolerance"], fp(1)), le(fp(0), f["min_penalty"]), le(f["min_penalty"], f["max_penalty"]))
    v.ensure("rejected exactly when a parameter is outside its domain", good if r == "ok" else z3.Not(good))
    if r == "ok":
        v.ensure("stored unchanged", z3.And(p["solutions_between_updates"] == k, *[p[n] == f[n] for n in f]))
        v.cover("accepted")
    else:
        v.ensure("the error is a ValueError", r == "ValueError")
        v.cover("rejected")


class Data:
    __vstub__ = True
    def __init__(self, n):
        self.num_load_dimensions = n


@contract("C15", "PenaltyParams.midpoint_penalties: one midpoint per load dimension, one for duration, one for distance (reals)")
def midpoint(v):
    lo, hi = z3.Real("min_penalty"), z3.Real("max_penalty")
    v.require(lo >= 0, hi >= lo)
    p = v.raw(M, "PenaltyParams", min_penalty=lo, max_penalty=hi)
    n = v.int("num_load_dimensions", 0)
    r = v.callm(p, "midpoint_penalties", Data(n))
    if not isinstance(r, tuple) or len(r) != 3 or not isinstance(r[0], SList):
        raise Unsupported("shape of the result")
    j = v.int("any dimension", 0)
    v.require(j < n)
    mid = (lo + hi) / 2
    v.ensure("as many load penalties as load dimensions", r[0].n == n)
    v.ensure("all are the midpoint", z3.And(r[0].at(j) == mid, r[1] == mid, r[2] == mid))
    v.ensure("all are within the bounds", z3.And(mid >= lo, mid <= hi))
    v.cover("computed")


def manager(v, f, p):
    """A manager after any history: penalties within the bounds, fewer registrations than an update needs."""
    n = v.int("num_penalties", 2)
    P = z3.Const("penalties", z3.ArraySort(IS, F64))
    pen = SList(v, n, P, F64)
    m = v.raw(M, "PenaltyManager", _params=p, _penalties=pen)
    return m, n, P


class Lists:
    """The lists of recent violations: list `idx` (any) is VL."""
    __vstub__ = True
    def __init__(self, idx, lst):
        self.idx, self.lst = idx, lst
    def __vgetitem__(self, i):
        if i is self.idx or (is_z(i) and i.eq(self.idx)):
            return self.lst
        raise Unsupported("another list")


@contract("C15", "PenaltyManager._register: one registration in any state (counts, updates on schedule, moves the right way, stays within bounds)")
def register1(v):
    numpy_stubs(v)
    p, f = params(v)
    m, n, P = manager(v, f, p)
    idx = v.int("idx", 0)
    v.require(idx < n)
    lo, hi = f["min_penalty"], f["max_penalty"]
    pen0 = P[idx]
    v.require(z3.fpLEQ(lo, pen0), z3.fpLEQ(pen0, hi))
    k = v.int("registrations since the update", 0)
    v.require(k < f["solutions_between_updates"])
    VL = z3.Const("violations", z3.ArraySort(IS, IS))
    vl = SList(v, k, VL, IS)
    x = v.int("violation", 0)
    m.attrs["_viol_lists"] = Lists(idx, vl)
    m.attrs["_prev_avg_violations"] = SList(v, n, z3.Const("prev_avg", z3.ArraySort(IS, F64)), F64)
    FM = z3.Function("fmean", IS, IS, F64)
    means = []
    def fmean(g):
        g = v.iter(g)
        if not isinstance(g, SList):
            raise Unsupported("fmean")
        t = v.sumterm(g.n, lambda i: num(g.at(i)))
        r = FM(t, g.n)
        means.append(r)
        return r
    v.stubs["statistics.fmean"] = fmean
    warned = []
    v.stubs["warnings.warn"] = lambda *a, **kw: warned.append(a)
    v.callm(m, "_register", idx, x)
    k1 = k + 1
    VL1 = z3.Store(VL, k, x)
    due = k1 == f["solutions_between_updates"]
    pen1 = m["_penalties"]
    if not isinstance(pen1, SList) or not isinstance(m["_viol_lists"], Lists):
        raise Unsupported("representation of the penalties")
    j = v.int("any penalty", 0)
    v.require(j < n)
    v.ensure("the other penalties stay", z3.Implies(j != idx, pen1.at(j) == P[j]))
    v.ensure("the number of penalties stays", pen1.n == n)
    i2 = v.int("any registration", 0)
    v.ensure("no update due: the registration is remembered", z3.Implies(z3.Not(due), z3.And(vl.n == k1, z3.Implies(i2 < k1, vl.at(i2) == VL1[i2]))))
    v.ensure("no update due: the penalty stays", z3.Implies(z3.Not(due), pen1.at(idx) == pen0))
    v.ensure("update due: the registrations are forgotten", z3.Implies(due, vl.n == 0))
    feas = FM(v.sumterm(k1, lambda i: z3.If(VL1[i] == 0, z3.IntVal(1), z3.IntVal(0))), k1)
    d = z3.fpSub(RNE, f["target_feasible"], feas)
    up = clip1(v.fpmul(f["penalty_increase"], pen0), lo, hi)
    down = clip1(v.fpmul(f["penalty_decrease"], pen0), lo, hi)
    want = z3.If(z3.fpLT(z3.fpAbs(d), f["feas_tolerance"]), pen0, z3.If(z3.fpGT(d, fp(0)), up, down))
    v.ensure("update due: the penalty moves as documented, given the fraction of feasible registrations since the last update", z3.Implies(due, pen1.at(idx) == want))
    v.ensure("the penalty stays within the bounds", z3.And(z3.fpLEQ(lo, pen1.at(idx)), z3.fpLEQ(pen1.at(idx), hi)), also=[z3.Not(z3.fpIsNaN(feas)), z3.fpLEQ(fp(0), feas), z3.fpLEQ(feas, fp(1))], timeout=40)
    v.cover("registered")


class Sol:
    __vstub__ = True
    def __init__(self, loads, tw, dist):
        self._l, self._t, self._d = loads, tw, dist
    def excess_load(self):
        return self._l
    def time_warp(self):
        return self._t
    def excess_distance(self):
        return self._d


@contract("C15", "PenaltyManager.register: registers every violation of the solution once, for its own penalty")
def register(v):
    p, f = params(v)
    m, n, P = manager(v, f, p)
    nd = v.int("num_load_dimensions", 0)
    v.require(n == nd + 2)
    LD = z3.Const("excess_load", z3.ArraySort(IS, IS))
    tw, ed = v.int("time_warp", 0), v.int("excess_distance", 0)
    G = dict(cnt=z3.K(IS, z3.IntVal(0)), val=z3.Const("registered0", z3.ArraySort(IS, IS)))
    def reg(self_, idx, violation):
        if self_ is not m:
            raise Unsupported("another manager")
        if not is_z(idx):
            idx = z3.IntVal(idx)
        G["cnt"] = z3.Store(G["cnt"], idx, G["cnt"][idx] + 1)
        G["val"] = z3.Store(G["val"], idx, violation)
    v.stubs[M + ".PenaltyManager._register"] = reg
    J = z3.Int("J")
    def viol(j):
        return z3.If(j < nd, LD[j], z3.If(j == nd, tw, ed))
    def inv(L):
        return [("each violation up to here was registered once, no other", z3.ForAll([J], z3.And(G["cnt"][J] == z3.If(z3.And(J >= 0, J < L.i), 1, 0),
                 z3.Implies(z3.And(J >= 0, J < L.i), G["val"][J] == viol(J)))))]
    def havoc(L):
        G["cnt"] = v.fresh("cnt", z3.ArraySort(IS, IS))
        G["val"] = v.fresh("val", z3.ArraySort(IS, IS))
        return []
    v.loops[(M + ".PenaltyManager.register", 0)] = dict(inv=inv, havoc=havoc)
    v.callm(m, "register", Sol(SList(v, nd, LD), tw, ed))
    j = v.int("any penalty")
    v.ensure("every penalty gets exactly one registration", G["cnt"][j] == z3.If(z3.And(j >= 0, j < n), 1, 0))
    v.ensure("load, time warp and distance violations go to their own penalties", z3.Implies(z3.And(j >= 0, j < n), G["val"][j] == viol(j)))
    v.cover("registered")


@contract("C15", "PenaltyManager(initial, params): given penalties are limited to the bounds, nothing registered yet")
def init(v):
    numpy_stubs(v)
    p, f = params(v)
    nd = v.int("num_load_dimensions", 0)
    I = z3.Const("initial", z3.ArraySort(IS, F64))
    t, d = v.float("initial_tw"), v.float("initial_dist")
    loads = SList(v, nd, I, F64)
    m = v.new(M, "PenaltyManager", (loads, t, d), p)
    pen = m["_penalties"]
    j = v.int("any penalty", 0)
    v.require(j < nd + 2)
    x = z3.If(j < nd, I[j], z3.If(j == nd, t, d))
    v.require(z3.Not(z3.fpIsNaN(x)))
    lo, hi = f["min_penalty"], f["max_penalty"]
    v.ensure("one penalty per load dimension, one for duration, one for distance", pen.n == nd + 2)
    v.ensure("each is the given one limited to the bounds", pen.at(j) == clip1(x, lo, hi))
    v.ensure("each is within the bounds", z3.And(z3.fpLEQ(lo, pen.at(j)), z3.fpLEQ(pen.at(j), hi)))
    vl = m["_viol_lists"]
    v.ensure("nothing is registered yet", z3.And(vl.n == nd + 2, z3.BoolVal(vl.at(j) == [])))
    v.cover("constructed")


@contract("C15", "PenaltyManager.cost_evaluator / max_cost_evaluator / penalties: carry exactly the current (or maximum) weights")
def evaluators(v):
    numpy_stubs(v)
    p, f = params(v)
    m, n, P = manager(v, f, p)
    made = []
    v.stubs["pyvrp._pyvrp.CostEvaluator"] = lambda loads, tw, dist: made.append((loads, tw, dist)) or ("ce", len(made))
    j = v.int("any load dimension", 0)
    v.require(j < n - 2)
    k = v.choose(3)
    if k == 2:
        r = v.callm(m, "penalties")
        v.ensure("penalties() returns the current weights", z3.And(r[0].n == n - 2, r[0].at(j) == P[j], r[1] == P[n - 2], r[2] == P[n - 1]))
        v.cover("penalties()")
        return
    r = v.callm(m, "cost_evaluator" if k == 0 else "max_cost_evaluator")
    if len(made) != 1:
        raise Unsupported("number of evaluators made")
    loads, tw, dist = made[0]
    v.ensure("the evaluator made is returned", r == ("ce", 1))
    if k == 0:
        v.ensure("the evaluator has the current weights", z3.And(loads.n == n - 2, loads.at(j) == P[j], tw == P[n - 2], dist == P[n - 1]))
        v.cover("cost_evaluator()")
    else:
        hi = f["max_penalty"]
        v.ensure("the evaluator has the maximum weights", z3.And(loads.n == n - 2, loads.at(j) == hi, tw == hi, dist == hi))
        v.cover("max_cost_evaluator()")
