"""
C06: CostEvaluator. Penalty terms, their constructor's domain, and the penalised
cost of routes and solutions (both representations) as the documented sum.
"""
import z3
from dv import contract, loopvars, Sum, sums_tmpl
from symex import *

CE = "pyvrp::CostEvaluator"
P = r"^pyvrp::CostEvaluator::"
BIG = 2**50
i, j = z3.Ints("i j")


def evaluator(v, name="ce", nonneg=True):
    """A cost evaluator that its constructor accepts (non-negative weights)."""
    ce = v.obj(CE, name)
    if nonneg:
        k = z3.Int("dim")
        v.require(ce["twPenalty_"] >= 0, ce["distPenalty_"] >= 0,
                  z3.ForAll([k], ce.elem("loadPenalties_", k) >= 0))
    return ce


def pen(ex, amount, weight):
    """Documented penalty: amount times weight, as an integer."""
    return ex.fptosi(ex.fmul(z3.ToReal(amount) if not isinstance(amount, int) else z3.RealVal(amount), weight))


@contract("C06", "negative penalty weights are rejected, others are stored")
def ctor(v):
    ex = v.ex
    vec = v.localobj(CE, "arg")
    a, f = vec.fieldaddr("loadPenalties_")
    n = v.int("n", 0, 2**30)
    ex.setlen(v.st, a, n)
    w0 = lambda k, st0=v.st.copy(): vec.elem("loadPenalties_", k, st=st0)
    tw, dist = z3.Real("tw"), z3.Real("dist")
    upto = lambda e: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e), w0(i) >= 0))

    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            out.append((f"0 <= {nm} <= n", lambda w, g=g: z3.And(0 <= g(w), g(w) <= n)))
            out.append((f"non-negative before {nm}", lambda w, g=g: upto(g(w))))
        return out
    ex.loop_templates.append(tmpl)
    ce = v.localobj(CE, "ce")
    v.call(P + r"CostEvaluator\(std::vector<double, .*>, double, double\)$", ce, Ptr.to(a), tw, dist)
    good = z3.And(tw >= 0, dist >= 0, upto(n))
    v.ensure("accepted only with non-negative weights", good)
    v.ensure("rejected only with a negative weight", NOT(AND(v.throws(), good)), pc=[])
    v.cover("accepts something", extra=n == 2)
    v.ensure("weights are kept", AND(ce["twPenalty_"] == tw, ce["distPenalty_"] == dist, ce.len("loadPenalties_") == n))
    v.ensure("load weights are kept", ce.elem("loadPenalties_", i) == w0(i), also=[0 <= i, i < n])


def check_penalty(v, name, r, excess, weight):
    v.ensure(f"{name}: excess times weight", r == pen(v.ex, excess, weight))
    v.ensure(f"{name}: never negative", r >= 0)


@contract("C06", "penalty of a load over a capacity")
def load_penalty(v):
    ce = evaluator(v)
    load, cap, dim = v.int("load", -BIG, BIG), v.int("cap", -BIG, BIG), v.int("dim", 0, 2**30)
    w = ce.elem("loadPenalties_", dim)
    r = v.call(P + r"loadPenalty\(.*\) const$", ce, load, cap, dim)
    v.cover()
    check_penalty(v, "loadPenalty", r, ITE(load > cap, load - cap, 0), w)
    v.ensure("loadPenalty: zero at or below the capacity", r == 0, also=[load <= cap])


@contract("C06", "penalty of time warp")
def tw_penalty(v):
    ce = evaluator(v)
    x = v.int("tw", 0, BIG)
    r = v.call(P + r"twPenalty\(.*\) const$", ce, x)
    v.cover()
    check_penalty(v, "twPenalty", r, x, ce["twPenalty_"])
    v.ensure("twPenalty: zero without time warp", r == 0, also=[x == 0])


@contract("C06", "penalty of a distance over a maximum")
def dist_penalty(v):
    ce = evaluator(v)
    x, m = v.int("x", -BIG, BIG), v.int("max", -BIG, 2**62)
    r = v.call(P + r"distPenalty\(.*\) const$", ce, x, m)
    v.cover()
    check_penalty(v, "distPenalty", r, ITE(x > m, x - m, 0), ce["distPenalty_"])
    v.ensure("distPenalty: zero at or below the maximum", r == 0, also=[x <= m])
    y = v.int("y", 0, BIG)
    r = v.call(P + r"excessDistPenalty\(.*\) const$", ce, y)
    check_penalty(v, "excessDistPenalty", r, y, ce["distPenalty_"])


@contract("C06", "penalties do not decrease with the violation")
def monotone(v):
    """Products of doubles as exact reals: rounding to nearest is monotone."""
    v.ex.fpmul_exact = True
    ce = evaluator(v)
    a, b, cap, dim = v.int("a", -BIG, BIG), v.int("b", -BIG, BIG), v.int("cap", -BIG, BIG), v.int("dim", 0, 2**30)
    for name, f, args in (("loadPenalty", P + r"loadPenalty\(.*\) const$", (cap, dim)), ("distPenalty", P + r"distPenalty\(.*\) const$", (cap,))):
        ra = v.call(f, ce, a, *args)
        rb = v.call(f, ce, b, *args)
        v.ensure(f"{name}: non-decreasing", ra <= rb, also=[a <= b])
    for name, f in (("twPenalty", P + r"twPenalty\(.*\) const$"), ("excessDistPenalty", P + r"excessDistPenalty\(.*\) const$")):
        ra = v.call(f, ce, a)
        rb = v.call(f, ce, b)
        v.ensure(f"{name}: non-decreasing", ra <= rb, also=[0 <= a, a <= b])


def load_sum(v, ce, vec):
    """Ghost: sum over the dimensions of excess load times weight."""
    return Sum(v, "load penalties", lambda d: pen(v.ex, vec(d), ce.elem("loadPenalties_", d)))


@contract("C06", "penalty of a vector of excess loads is the sum over dimensions")
def load_penalties(v):
    ex = v.ex
    ce = evaluator(v)
    n = ce.len("loadPenalties_")
    vec = Region("heap", "vector", 1, ctype="std::vector<pyvrp::Load>")
    me = v.int("excess")
    va = Addr(vec, (me,), 0)
    er = ex.elem(vec, 0, "long")
    x0 = lambda k, st0=v.st.copy(): ex.readcell(st0, (er, 0), (me, k))
    v.require(ex.veclen(v.st, va) == n)
    S = load_sum(v, ce, x0)
    ex.loop_templates.append(sums_tmpl([S], {"n": n}))
    r = v.call(P + r"excessLoadPenalties\(.*\) const$", ce, Ptr.to(va))
    v.cover(extra=n == 2)
    v.ensure("excessLoadPenalties: sum over all dimensions", r == S.inst(n))


def route_terms(v, ce, r, parts, st=None):
    """Documented cost of a route from the route's own reported figures."""
    ex = v.ex
    n = ce.len("loadPenalties_")
    g = lambda f: v.call(f, r, st=v.st.copy())
    total = 0
    for k in ("distanceCost", "durationCost", "fixedVehicleCost"):
        total = total + g(parts[k])
    x = g(parts["excessLoad"])
    va = x.alts[0][1]
    er = ex.elem(va.region, va.off, "long")
    st0 = v.st.copy()
    S = load_sum(v, ce, lambda k: ex.readcell(st0, (er, 0), va.idx + (k,)))
    tw, ed = g(parts["timeWarp"]), g(parts["excessDistance"])
    v.require(ex.veclen(st0, va) == n, tw >= 0, ed >= 0)
    return total + pen(ex, tw, ce["twPenalty_"]) + pen(ex, ed, ce["distPenalty_"]), S, n


for cls, short in (("pyvrp::Route", "route"), ("pyvrp::search::Route", "search route")):
    def route_cost(v, cls=cls, short=short):
        ex = v.ex
        ce = evaluator(v)
        r = v.obj(cls, "r")
        if cls == "pyvrp::search::Route":
            # distanceCost() and durationCost() are products; leave these uninterpreted
            ex.uf_nonlinear = True
        parts = {k: rf"^{cls}::{k}\(\) const$" for k in ("distanceCost", "durationCost", "fixedVehicleCost", "excessLoad", "timeWarp", "excessDistance", "empty")}
        empty = v.call(parts["empty"], r, st=v.st.copy())
        want, S, n = route_terms(v, ce, r, parts)
        ex.loop_templates.append(sums_tmpl([S], {"n": n}))
        c = v.call(rf"^pyvrp::Measure<.*> pyvrp::CostEvaluator::penalisedCost<{cls}>\({cls} const&\) const$", ce, r)
        v.cover(extra=AND(n == 2, NOT(empty)))
        v.ensure(f"penalised cost of a {short}: documented sum of its terms", c == ITE(empty, 0, want + S.inst(n)))
    route_cost.__name__ = "cost_of_" + short.replace(" ", "_")
    contract("C06", f"penalised cost of a {short}")(route_cost)


def route_cost_contract(v, cls):
    """Contract of penalisedCost(route), proved above: a function of the route (and the evaluator, both unchanged)."""
    fns = {}
    def h(ex, st, args, fn, inst):
        ex.assumed[f"contract: penalisedCost<{cls}> (proved for every route)"] = 1
        a = ex.normaddr(args[1].alts[0][1])
        if len(args[1].alts) != 1:
            raise Unsupported("route of several possible origins")
        key = (a.region, a.off)
        if key not in fns:
            fns[key] = z3.Function(f"route_cost!{len(fns)}", *[z3.IntSort()] * (len(a.idx) + 1))
        return fns[key](*[z3.IntVal(x) if isinstance(x, int) else x for x in a.idx])
    v.ex.handlers.insert(0, (lambda d: f"CostEvaluator::penalisedCost<{cls}>(" in d, h))
    return fns


def cost_at(v, cls, addr):
    """The value that contract gives for the route at an address."""
    fn = v.find(rf"^pyvrp::Measure<.*> pyvrp::CostEvaluator::penalisedCost<{cls}>\({cls} const&\) const$")
    return v.ex.handlers[0][1](v.ex, v.st, [None, Ptr.to(addr)], fn, None)


SOLCOST = r"^pyvrp::Measure<.*> pyvrp::CostEvaluator::%s<pyvrp::Solution>\(pyvrp::Solution const&\) const$"


@contract("C06", "penalised cost of a solution: uncollected prizes plus the cost of its routes")
def solution_cost(v):
    ex = v.ex
    ce, s = evaluator(v), v.obj("pyvrp::Solution", "s")
    route_cost_contract(v, "pyvrp::Route")
    a, f = s.fieldaddr("routes_")
    n = s.len("routes_")
    S = Sum(v, "route costs", lambda k: cost_at(v, "pyvrp::Route", ex.vecelem(a, "pyvrp::Route", k)))
    ex.loop_templates.append(sums_tmpl([S], {"n": n}))
    prizes = v.call(r"^pyvrp::Solution::uncollectedPrizes\(\) const$", s, st=v.st.copy())
    c = v.call(SOLCOST % "penalisedCost", ce, s)
    v.cover(extra=n == 2)
    v.ensure("penalised cost of a solution", c == prizes + S.inst(n))


@contract("C06", "cost of a solution: penalised cost if feasible, else the largest value")
def unpenalised(v):
    ce, s = evaluator(v), v.obj("pyvrp::Solution", "s")
    pc = v.int("penalised")
    feas = z3.Bool("feasible")
    v.ex.handlers.insert(0, (lambda d: "CostEvaluator::penalisedCost<pyvrp::Solution>(" in d, lambda ex, st, args, fn, inst: pc))
    v.ex.handlers.insert(0, (lambda d: d.startswith("pyvrp::Solution::isFeasible() const"), lambda ex, st, args, fn, inst: feas))
    c = v.call(SOLCOST % "cost", ce, s)
    v.cover()
    v.ensure("cost of a solution", c == z3.If(feas, pc, 2**63 - 1))


@contract("C06", "penalised cost of a search solution: prizes of what is not planned plus the cost of its routes")
def search_cost(v):
    ex = v.ex
    ce, s = evaluator(v), v.obj("pyvrp::search::Solution", "s")
    route_cost_contract(v, "pyvrp::search::Route")
    st0 = v.st.copy()
    a, f = s.fieldaddr("routes")
    nr = s.len("routes")
    S = Sum(v, "route costs", lambda k: cost_at(v, "pyvrp::search::Route", ex.vecelem(a, "pyvrp::search::Route", k)))
    dp = v.ex.load_addr(v.st, s.fieldaddr("data_")[0], ex.prim_ll("pointer"))
    d = dp.alts[0][1]
    from dv import View
    data = View(v, d, "pyvrp::ProblemData")
    nc, ns = data.len("clients_"), data.len("shipments_")
    sol_nc, sol_ns = s.len("clients"), s.len("shipments")
    v.require(sol_nc == nc, sol_ns == ns)

    def planned(addr):
        p = v.call(r"^pyvrp::search::Route::Node::route\(\) const$", Ptr.to(addr), st=st0.copy())
        return NOT(ex.icmp("eq", p, Ptr.to(NULL), ex.prim_ll("pointer")))
    ca, _ = s.fieldaddr("clients")
    sa, _ = s.fieldaddr("shipments")
    cel = lambda k: ex.vecelem(ca, "pyvrp::search::Route::Node", k)
    sel = lambda k: ex.vecelem(sa, "std::pair<pyvrp::search::Route::Node, pyvrp::search::Route::Node>", k)
    C = Sum(v, "client prizes", lambda k: ITE(planned(cel(k)), 0, data.elem("clients_", k, "prize", st=st0)))
    H = Sum(v, "shipment prizes", lambda k: ITE(planned(sel(k)), 0, data.elem("shipments_", k, "prize", st=st0)))
    ex.loop_templates.append(sums_tmpl([S, C, H], {"nr": nr, "nc": nc, "ns": ns}))
    c = v.call(r"^pyvrp::Measure<.*> pyvrp::CostEvaluator::penalisedCost<pyvrp::search::Solution>\(.*\) const$", ce, s)
    v.cover(extra=AND(nr == 1, nc == 2, ns == 1))
    v.ensure("penalised cost of a search solution", c == S.inst(nr) + C.inst(nc) + H.inst(ns))
