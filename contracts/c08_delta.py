"""
C08: CostEvaluator::deltaCost, for every instantiation that occurs in the code.

A proposal is seen through its own accessors (route, fixed vehicle cost, distance,
duration, excess load per dimension), which are arbitrary here. Obligations: the
delta added to `out` is the sum of the proposed terms minus the current penalised
cost of the routes involved, whenever the evaluation is complete; the evaluation
stops early only if the exact result could not have been an improvement.
"""
import re
import z3
from dv import contract, loopvars, Sum, SkipCandidate
from symex import *
import dv
import c06_cost as C6

i = z3.Int("i")
ROUTE = "pyvrp::search::Route"


class Prop:
    """What a proposal reports: unconstrained, except that excesses and durations are non-negative."""
    def __init__(self, v, tag, addr, route):
        self.tag, self.addr, self.route = tag, addr, route
        self.fixed, self.dcost, self.dexc, self.tcost, self.tw = (v.int(f"{tag}.{n}", lo, C6.BIG) for n, lo in
                                                                  (("fixed", -C6.BIG), ("distance_cost", -C6.BIG), ("excess_distance", 0), ("duration_cost", -C6.BIG), ("time_warp", 0)))
        self.load = z3.Function(f"{tag}.excess_load", z3.IntSort(), z3.IntSort())
        k = z3.Int("k")
        v.require(z3.ForAll([k], z3.And(self.load(k) >= 0, self.load(k) <= C6.BIG)))


def make(dem, idx):
    two = not dem.endswith("(pyvrp::Measure<(pyvrp::MeasureType)3, long>&, pyvrp::Measure const&) const")
    exact = "deltaCost<true" in dem

    def run(v):
        ex = v.ex
        ce = C6.evaluator(v)
        fn = [f for f in v.m.bydem[dem] if not f.decl][idx]
        props = []
        oldcost = z3.Function("old_cost", z3.IntSort(), z3.IntSort())
        for t in ("u", "v") if two else ("u",):
            r = v.obj(ROUTE, f"{t}_route")
            loc = ex.local(f"proposal_{t}")
            props.append(Prop(v, t, Addr(loc, (), 0), r))
        if two:
            pass    # the two routes may be the same object or not

        def which(p):
            for q in props:
                if len(p.alts) == 1 and p.alts[0][1].region is q.addr.region:
                    return q
            raise Unsupported("unknown proposal")

        def accessor(get):
            def h(ex, st, args, fn, inst):
                ex.assumed["contract: accessors of Route::Proposal"] = 1
                return get(which(args[0]), args)
            return h

        def is_acc(name):
            return lambda d: re.search(r"pyvrp::search::Route::Proposal<.*>::" + name + r"\(", d)
        ex.handlers.insert(0, (is_acc("route"), accessor(lambda q, a: q.route.ptr)))
        ex.handlers.insert(0, (is_acc("fixedVehicleCost"), accessor(lambda q, a: q.fixed)))
        ex.handlers.insert(0, (is_acc("distance"), accessor(lambda q, a: Agg([q.dcost, q.dexc]))))
        ex.handlers.insert(0, (is_acc("duration"), accessor(lambda q, a: Agg([q.tcost, q.tw]))))
        ex.handlers.insert(0, (is_acc("excessLoad"), accessor(lambda q, a: q.load(plain(a[1])))))

        def routecost(ex, st, args, fn, inst):
            ex.assumed["contract: penalisedCost of a search route (C06)"] = 1
            return oldcost(args[1].alts[0][1].idx[0])
        ex.handlers.insert(0, (lambda d: "CostEvaluator::penalisedCost<pyvrp::search::Route>(" in d, routecost))

        # documented terms
        st0 = v.st.copy()
        sums, total = [], 0
        for q in props:
            cap = v.call(r"^pyvrp::search::Route::capacity\(\) const$", q.route, st=st0.copy())
            n = ex.veclen(st0, cap.alts[0][1])
            v.require(n <= ce.len("loadPenalties_"))
            S = Sum(v, f"{q.tag} load penalties", lambda d, q=q: C6.pen(ex, q.load(d), ce.elem("loadPenalties_", d, st=st0)))
            hd = v.call(r"^pyvrp::search::Route::hasDistanceCost\(\) const$", q.route, st=st0.copy())
            ht = v.call(r"^pyvrp::search::Route::hasDurationCost\(\) const$", q.route, st=st0.copy())
            sums.append((S, n))
            # Where a route has no distance (duration) cost, its proposals have none either: see the lemma below.
            total = total - oldcost(q.route.addr.idx[0]) + q.fixed
            total = total + ITE(hd, q.dcost + C6.pen(ex, q.dexc, ce["distPenalty_"]), 0)
            total = total + ITE(ht, q.tcost + C6.pen(ex, q.tw, ce["twPenalty_"]), 0)
        out = ex.local("out", ll=ex.prim_ll("long"))
        oa = Addr(out, (), 0)
        out0 = v.int("out0", -2**60, 2**60)
        ex.store_addr(v.st, oa, out0, ex.prim_ll("long"), True)

        def tmpl(eview, phis, modified):
            cs = []
            key = (out, 0)
            lv = loopvars(eview, phis, modified)
            for nm, g in lv.items():
                for S, n in sums:
                    cs.append((f"0 <= {nm} <= n of {S.name}", lambda w, g=g, n=n: z3.And(0 <= g(w), g(w) <= n)))
                    if key in modified:
                        e0 = ex.readcell(eview.st, key, ())
                        cs.append((f"out = entry + {S.name} before {nm}", lambda w, g=g, S=S, e0=e0: ex.readcell(w.st, key, ()) == e0 + S.inst(g(w))))
            return cs
        ex.loop_templates.append(tmpl)
        r = v.call(fn, ce, Ptr.to(oa), *[Ptr.to(q.addr) for q in props])
        res = ex.readcell(v.st, (out, 0), ())
        want = out0 + total
        for S, n in sums:
            want = want + S.inst(n)
        v.cover()
        if exact:
            v.ensure("exact evaluation is always complete", r if not isinstance(r, bool) else z3.BoolVal(r))
        v.ensure("complete evaluation: out changes by the exact difference", IMPL(r, res == want))
        if not exact:
            v.cover("evaluation can stop early", extra=NOT(r))
            # sums of non-negative terms do not decrease (induction on the number of dimensions, below)
            mono = []
            for S, n in sums:
                k = z3.Int("k")
                mono.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), S.f(k) <= S.f(n))))
            nonneg = [q.tcost >= 0 for q in props]
            v.ensure("early exit only if no improvement", OR(r, want >= 0), also=mono + nonneg + [S.f(n) >= 0 for S, n in sums])
            v.ensure("early exit reports no improvement", OR(r, res >= 0))
    return run


try:
    m = dv.load()[0]
    todo = [(d, k) for d, fs in sorted(m.bydem.items()) if d.startswith("bool pyvrp::CostEvaluator::deltaCost<")
            for k in range(len([f for f in fs if not f.decl]))]
except Exception:
    todo = []
for d, k in todo:
    segs = re.sub(r"pyvrp::search::(Route::)?|\(anonymous namespace\)::", "", re.search(r"deltaCost<(.*?), [\w:]*Proposal>\(", d).group(1))
    contract("C08", f"deltaCost<{segs}>{' /' + str(k) if k else ''}")(make(d, k))


@contract("C08", "prefix sums of non-negative terms do not decrease")
def lemma_sum(v):
    """Induction step: S(k) <= S(m) and term >= 0 give S(k) <= S(m + 1)."""
    t = z3.Function("term", z3.IntSort(), z3.IntSort())
    S = Sum(v, "terms", lambda k: t(k))
    a, b = v.int("a", 0), v.int("b", 0)
    S.inst(b)
    S.inst(b + 1)
    v.require(t(b) >= 0)
    v.ensure("base", S.f(a) <= S.f(a))
    v.ensure("step", S.f(a) <= S.f(b + 1), also=[a <= b, S.f(a) <= S.f(b)])
