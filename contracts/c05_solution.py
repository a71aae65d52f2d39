"""
C05: what a solution reports is the sum of what its routes report, and it is feasible
exactly when it is complete and has no excess load, excess distance or time warp.
"""
import z3
from dv import contract, loopvars, havocs, Sum, View
from symex import *
import models

S, R, PD = "pyvrp::Solution", "pyvrp::Route", "pyvrp::ProblemData"
# attribute of the solution -> accessor of a route that it sums
SUMS = dict(numClients_="numClients", numShipments_="numShipments", prizes_="prizes", distance_="distance", distanceCost_="distanceCost",
            duration_="duration", overtime_="overtime", durationCost_="durationCost", excessDistance_="excessDistance", timeWarp_="timeWarp",
            fixedVehicleCost_="fixedVehicleCost")
OWN = dict(numClients_="numClients", numShipments_="numShipments", prizes_="prizes", distance_="distance", distanceCost_="distanceCost",
           duration_="duration", overtime_="overtime", durationCost_="durationCost", excessDistance_="excessDistance", timeWarp_="timeWarp",
           fixedVehicleCost_="fixedVehicleCost")
k, d = z3.Ints("k d")


def route_value(v, st, a, i, acc):
    """What route i of the vector at a reports, by its own accessor."""
    e = v.ex.vecelem(a, R, i)
    return v.call(rf"^pyvrp::Route::{acc}\(\) const$", Ptr.to(e), st=st.copy())


def prize(v, data, vec, st):
    t = dict(clients_="pyvrp::Client", shipments_="pyvrp::Shipment")[vec]
    a, _ = data.fieldaddr(vec)
    return lambda i: v.ex.load_addr(st, View(v, v.ex.vecelem(a, t, i), t, st).fieldaddr("prize")[0], v.ex.prim_ll("long"))


def excess(v, st, a, i, j):
    e = View(v, v.ex.vecelem(a, R, i), R, st)
    return e.elem("excessLoad_", j, st=st)


class Totals:
    """Ghost sums over the routes in the vector at address a (in state st)."""
    def __init__(self, v, st, a, data):
        self.v, self.ex, self.st, self.a, self.data = v, v.ex, st, a, data
        ex = v.ex
        self.n = ex.veclen(st, a)
        self.nd = v.call(r"^pyvrp::ProblemData::numLoadDimensions\(\) const$", data, st=st.copy())
        self.sums = {f: Sum(v, f, lambda i, acc=acc: route_value(v, st, a, i, acc), rng=(0, 2**63) if acc.startswith("num") else None) for f, acc in SUMS.items()}
        self.prizes = {vec: Sum(v, vec, prize(v, data, vec, st)) for vec in ("clients_", "shipments_")}
        # excess load: one sum per dimension
        self.E = z3.Function("excess!sum", z3.IntSort(), z3.IntSort(), z3.IntSort())
        ex.facts.append(z3.ForAll([d], self.E(0, d) == 0))
        self.seen = set()
    def term(self, i, j):
        return excess(self.v, self.st, self.a, i, j)
    def load(self, i, j):
        """Sum of excess load in dimension j over the first i routes; unfolds the definition at i and i - 1."""
        for q in ([i, i - 1] + [z3.IntVal(x) for x in range((self.v.unroll or 0) + 1)]):
            q = z3.simplify(q) if z3.is_expr(q) else z3.IntVal(q)
            if q.get_id() not in self.seen:
                self.seen.add(q.get_id())
                self.v.ex.keep = getattr(self.v.ex, "keep", []) + [q]
                self.v.ex.facts.append(z3.Implies(q >= 0, z3.ForAll([d], self.E(q + 1, d) == self.E(q, d) + self.term(q, d))))
        return self.E(i, j)
    def template(self, o, entry=0):
        """Loop invariants: fields of the solution at o are sums over the routes visited; local totals are sums of prizes."""
        v, ex = self.v, self.ex
        a, _ = o.fieldaddr("excessLoad_")
        lt = lambda w, j: o.elem("excessLoad_", j, st=w.st)
        fields = {f: o.fieldaddr(f)[0] for f in SUMS}
        cell = {f: (x.region, x.off) for f, x in fields.items()}
        def tmpl(eview, phis, modified):
            out = []
            lv = loopvars(eview, phis, modified)
            ph = {x: g for x, g in lv.items() if x.startswith("phi")}
            rest = {x: g for x, g in lv.items()}
            keys = {(q[0], q[1]) for q in modified}
            mods = {(q[0], q[1]) for q in modified if len(q) == 2}
            index = dict(ph)
            for x, g in lv.items():
                if x not in index:
                    index[x] = g
            touched = [f for f in SUMS if cell[f] in mods]
            loads = any(q[0].kind == "elem" and root_region(q[0]) is a.region for q in modified)
            for x, gx in index.items():
                mine = [f for f in touched if f"{cell[f][0].name}+{cell[f][1]}" == x]
                if mine:
                    continue
                out.append((f"0 <= {x} <= routes", lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= self.n), dict(ground=True)))
                out.append((f"0 <= {x} <= dimensions", lambda w, gx=gx: z3.And(0 <= gx(w), gx(w) <= self.nd), dict(ground=True)))
                for f in touched:
                    e0 = 0 if entry == 0 else None
                    out.append((f"{f} = sum before {x}", lambda w, gx=gx, f=f: ex.load_addr(w.st, fields[f], ex.prim_ll("long")) == self.sums[f].inst(gx(w)), dict(ground=True)))
                for vec, s in self.prizes.items():
                    out.append((f"0 <= {x} <= {vec}", lambda w, gx=gx, vec=vec: z3.And(0 <= gx(w), gx(w) <= self.data.len(vec, st=self.st)), dict(ground=True)))
                    for y, gy in rest.items():
                        if y != x:
                            try:
                                e0 = gy(eview)
                            except SkipCandidate:
                                continue
                            out.append((f"{y} = entry + {vec} prizes before {x}", lambda w, gx=gx, gy=gy, s=s, e0=e0: gy(w) == e0 + s.inst(gx(w)), dict(ground=True)))
                if loads:
                    out.append((f"excess loads = sums before {x}", lambda w, gx=gx: z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < self.nd), lt(w, d) == self.load(gx(w), d)))))
                    for h in havocs(eview.env)[-3:]:
                        out.append((f"excess loads of {h} added before {x}", lambda w, gx=gx, h=h: z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < self.nd), lt(w, d) == self.load(h, d) + z3.If(d < gx(w), self.term(h, d), 0)))))
            return out
        return tmpl


def solution(v):
    """A solution object as the constructor hands it to evaluate: routes, and zero totals."""
    o = v.localobj(S, "solution")
    for f in SUMS:
        v.ex.store_addr(v.st, o.fieldaddr(f)[0], 0, v.ex.prim_ll("long"), True)
    v.ex.store_addr(v.st, o.fieldaddr("uncollectedPrizes_")[0], 0, v.ex.prim_ll("long"), True)
    v.ex.setlen(v.st, o.fieldaddr("routes_")[0], v.int("routes", 0, 2**40))
    v.ex.setlen(v.st, o.fieldaddr("excessLoad_")[0], 0)
    return o


@contract("C05", "every total is the sum over the routes; uncollected prizes are all prizes less those collected")
def evaluate(v):
    ex = v.ex
    o, data = solution(v), v.obj(PD, "data")
    a, _ = o.fieldaddr("routes_")
    st0 = v.st.copy()
    t = Totals(v, st0, a, data)
    v.require(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.n), ex.veclen(st0, View(v, ex.vecelem(a, R, k), R, st0).fieldaddr("excessLoad_")[0]) == t.nd)))
    ex.loop_templates.append(t.template(o))
    v.call(r"^pyvrp::Solution::evaluate\(pyvrp::ProblemData const&\)$", o, data)
    v.cover(extra=AND(t.n == 2, t.nd == 1))
    st1 = v.st
    for f, acc in OWN.items():
        got = v.call(rf"^pyvrp::Solution::{acc}\(\) const$", o, st=st1.copy())
        v.ensure(f"{acc} is the sum over the routes", got == t.sums[f].inst(t.n))
    nc, ns = data.len("clients_"), data.len("shipments_")
    got = v.call(r"^pyvrp::Solution::uncollectedPrizes\(\) const$", o, st=st1.copy())
    v.ensure("uncollected prizes", got == t.prizes["clients_"].inst(nc) + t.prizes["shipments_"].inst(ns) - t.sums["prizes_"].inst(t.n))
    v.ensure("one excess load per dimension", ex.veclen(st1, o.fieldaddr("excessLoad_")[0]) == t.nd)
    v.ensure("excess loads are sums over the routes", o.elem("excessLoad_", d, st=st1) == t.load(t.n, d), also=[0 <= d, d < t.nd])
    v.ensure("never rejected", NOT(v.throws()), pc=[])
    v.ensure("the routes are kept", ex.veclen(st1, a) == t.n)


@contract("C05", "feasible: complete, and no excess load, excess distance or time warp")
def feasible(v):
    ex = v.ex
    s = v.obj(S, "s")
    st0 = v.st.copy()
    n = s.len("excessLoad_")
    call = lambda f: v.call(rf"^pyvrp::Solution::{f}\(\) const$", s)
    over = z3.Exists([d], z3.And(0 <= d, d < n, s.elem("excessLoad_", d) > 0))
    g = lambda f: s.get(f)
    complete = AND(g("numMissingClients_") == 0, g("numMissingGroups_") == 0, g("numMissingShipments_") == 0)
    r = dict(hasExcessLoad=over, hasTimeWarp=g("timeWarp_") > 0, hasExcessDistance=g("excessDistance_") > 0, isComplete=complete)
    r["isFeasible"] = AND(NOT(over), g("timeWarp_") <= 0, g("excessDistance_") <= 0, complete)
    for f, want in r.items():
        b = call(f)
        v.cover(f"{f} can hold", extra=b)
        v.cover(f"{f} can fail", extra=NOT(b))
        v.ensure(f"{f} only if so", IMPL(b, want))
        v.ensure(f"{f} if so", IMPL(want, b))
    nr, nc, ns = s.len("routes_"), g("numClients_"), g("numShipments_")
    v.ensure("number of routes", call("numRoutes") == nr)
    v.ensure("empty: no routes and nothing visited", call("empty") == AND(nr == 0, nc == 0, ns == 0))
    for acc, f in (("numMissingClients", "numMissingClients_"), ("numMissingGroups", "numMissingGroups_"), ("numMissingShipments", "numMissingShipments_")):
        v.ensure(f"{acc} is what was counted", call(acc) == g(f))


@contract("C05", "number of trips: the sum over the routes")
def trips(v):
    ex = v.ex
    s = v.obj(S, "s")
    st0 = v.st.copy()
    a, _ = s.fieldaddr("routes_")
    n = s.len("routes_")
    T = Sum(v, "trips", lambda i: route_value(v, st0, a, i, "numTrips"), rng=(0, 2**31))
    from dv import sums_tmpl
    ex.loop_templates.append(sums_tmpl([T], {"n": n}))
    r = v.call(r"^pyvrp::Solution::numTrips\(\) const$", s)
    v.cover(extra=n == 2)
    v.ensure("number of trips", r == T.inst(n))
