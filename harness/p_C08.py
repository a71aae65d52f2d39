"""Local search operators and insertions: exact cost changes against full re-evaluation of the changed routes."""
import gen
from gen import *
from oracle import Sim, penalised
from p_C04 import route_ok, solution_ok
from pyvrp import CostEvaluator, Route as PRoute, Solution as PSolution
from pyvrp.search import _search as S

RULE = ("random problems, complete random solutions and penalty weights; every operator on all pairs of visits (subsampled); a move reported as improving is applied and the realised change of the "
        "penalised cost compared; a move reported as not improving is compared with full evaluation of the moves the operator stands for; non-trivial when the solution has at least one visit")

RELOC = {"Relocate1": 1, "Relocate2": 2, "Relocate3": 3}
SWAP = {f"Swap{n}{m}": (n, m) for n, m in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (3, 3))}
UNARY = ["RelocateDelivery", "RelocatePickup", "RemoveAdjacentDepot", "RemoveOptionalClient", "RemoveOptionalShipment", "ReplaceGroup"]
BINARY = ["RelocateAlternative", "RelocateShipment", "InsertOptionalClient", "InsertOptionalShipment", "ReplaceOptionalClient", "ReplaceOptionalShipment", "SwapTails",
          "RelocateWithDepot"] + list(RELOC) + list(SWAP)


class World:
    """Routes as plain lists, one per vehicle, with memoised costs."""
    def __init__(self, data, lp, tp, dp):
        self.data, self.w = data, (lp, tp, dp)
        self.memo = {}
        self.vts = [t for t, v in enumerate(data.vehicle_types()) for _ in range(v.num_available)]
        self.cp = [c.prize for c in data.clients()]
        self.sp = [s.prize for s in data.shipments()]
    def rc(self, vt, acts):
        k = (vt, *map(id, acts))
        if k not in self.memo:
            if not any(a.type != D for a in acts):
                self.memo[k] = 0
            else:
                self.memo[k] = penalised(Sim(self.data, vt, acts), *self.w)
        return self.memo[k]
    def prize(self, a):
        if a.type == C:
            return self.cp[a.idx]
        return self.sp[a.idx] if a.type == P else 0
    def cost(self, routes):
        return sum(self.rc(t, a) for t, a in zip(self.vts, routes)) - sum(self.prize(a) for acts in routes for a in acts if a.type != D)
    def delta(self, before, after):
        d = 0
        for t, a, b in zip(self.vts, before, after):
            if a != b:
                d += self.rc(t, b) - self.rc(t, a) - sum(self.prize(x) for x in b if x.type != D) + sum(self.prize(x) for x in a if x.type != D)
        return d


def same(a, b):
    return a is b or (a.idx == b.idx and a.type == b.type)


def where(routes, a):
    for k, acts in enumerate(routes):
        for i, x in enumerate(acts):
            if same(x, a):
                return k, i
    return None


def trip_of(acts, i):
    return sum(x.type == D for x in acts[:i + 1])


def open_at(acts, i):
    """Number of shipments on board after visiting position i (-1: at the start)."""
    return sum((x.type == P) - (x.type == Q) for x in acts[:i + 1])


def closed(seg):
    """The segment carries complete shipments only."""
    on = set()
    for x in seg:
        if x.type == P:
            on.add(x.idx)
        if x.type == Q:
            if x.idx not in on:
                return False
            on.discard(x.idx)
    return not on


def movable(acts, i, n):
    seg = acts[i:i + n]
    return len(seg) == n and all(x.type != D for x in seg) and closed(seg) and open_at(acts, i - 1) == 0


def repl(routes, **ch):
    out = list(routes)
    for k, v in ch.items():
        out[int(k[1:])] = v
    return out


def with_(routes, *ch):
    out = list(routes)
    for k, v in ch:
        out[k] = v
    return out


def pd_insert(acts, at, p, q, skip_last=None):
    """All ways to put p after position at (index in list, -1 start) and q later within the trip."""
    out = []
    base = acts[:at + 1] + [p]
    rest = acts[at + 1:]
    for j in range(len(rest) + 1):
        out.append(base + rest[:j] + [q] + rest[j:])
        if j < len(rest) and rest[j].type == D:
            break
    return out


def moves(w, op, routes, U, V):
    """The states the move stands for; None if no opinion. V = ('start', route) or an activity."""
    data = w.data
    pu = where(routes, U)
    if V is not None:
        if isinstance(V, tuple):
            rv, iv = V[1], -1
        else:
            rv, iv = where(routes, V)
        av = routes[rv]
    if pu:
        ru, iu = pu
        au = routes[ru]
    vis = lambda acts: [x for x in acts if x.type != D]
    if op in RELOC:
        n = RELOC[op]
        if not pu or not movable(au, iu, n):
            return []
        seg = au[iu:iu + n]
        if ru == rv:
            if trip_of(au, iu) != (trip_of(au, iv) if iv >= 0 else 0) or iu <= iv <= iu + n - 1 or iu == iv + 1:
                return []
            rest = au[:iu] + au[iu + n:]
            k = iv if iv < iu else iv - n
            return [with_(routes, (ru, rest[:k + 1] + seg + rest[k + 1:]))]
        return [with_(routes, (ru, au[:iu] + au[iu + n:]), (rv, av[:iv + 1] + seg + av[iv + 1:]))]
    if op in SWAP:
        n, m = SWAP[op]
        if not pu or iv < 0 or not movable(au, iu, n) or not movable(av, iv, m):
            return []
        if n == m and U.idx >= V.idx:
            return []
        su, sv = au[iu:iu + n], av[iv:iv + m]
        if ru == rv:
            if trip_of(au, iu) != trip_of(au, iv) or (iu <= iv + m - 1 and iv <= iu + n - 1) or iu + n == iv or iv + m == iu:
                return []
            if iu < iv:
                return [with_(routes, (ru, au[:iu] + sv + au[iu + n:iv] + su + au[iv + m:]))]
            return [with_(routes, (ru, au[:iv] + su + au[iv + m:iu] + sv + au[iu + n:]))]
        return [with_(routes, (ru, au[:iu] + sv + au[iu + n:]), (rv, av[:iv] + su + av[iv + m:]))]
    if op == "SwapTails":
        if not pu or ru == rv or (ru > rv and vis(au) and vis(av)):
            return []
        if any(x.type == D for x in au[iu + 1:]) or any(x.type == D for x in av[iv + 1:]) or open_at(au, iu) or open_at(av, iv):
            return []
        return [with_(routes, (ru, au[:iu + 1] + av[iv + 1:]), (rv, av[:iv + 1] + au[iu + 1:]))]
    if op == "InsertOptionalClient":
        if U.type != C or pu:
            return []
        g = data.client(U.idx).group
        if g is not None and (data.group(g).required or any(where(routes, act(C, c)) for c in data.group(g).clients)):
            return []
        return [with_(routes, (rv, av[:iv + 1] + [U] + av[iv + 1:]))]
    if op == "InsertOptionalShipment":
        if U.type != P or pu:
            return []
        return [with_(routes, (rv, x)) for x in pd_insert(av, iv, U, act(Q, U.idx))]
    if op == "ReplaceOptionalClient":
        if U.type != C or pu or iv < 0 or V.type != C:
            return []
        if data.client(V.idx).required or data.client(V.idx).group is not None or data.client(U.idx).group is not None:
            return []
        return [with_(routes, (rv, av[:iv] + [U] + av[iv + 1:]))]
    if op == "ReplaceOptionalShipment":
        if U.type != P or pu or iv < 0 or V.type == C or data.shipment(V.idx).required:
            return []
        return [with_(routes, (rv, [act(x.type, U.idx) if x.type != C and x.type != D and x.idx == V.idx else x for x in av]))]
    if op == "RelocateShipment":
        if U.type != P or not pu or ru == rv:
            return []
        rest = [x for x in au if not (x.type in (P, Q) and x.idx == U.idx)]
        return [with_(routes, (ru, rest), (rv, x)) for x in pd_insert(av, iv, U, act(Q, U.idx))]
    if op == "RelocateAlternative":
        if U.type != C or not pu or (ru == rv and (iu == iv or iu == iv + 1)):
            return []
        g = data.client(U.idx).group
        if g is None:
            return []
        if ru == rv and trip_of(au, iu) != (trip_of(au, iv) if iv >= 0 else 0):
            return []
        out = []
        for c in data.group(g).clients:
            if c != U.idx:
                if ru == rv:
                    rest = au[:iu] + au[iu + 1:]
                    k = iv if iv < iu else iv - 1
                    out.append(with_(routes, (ru, rest[:k + 1] + [act(C, c)] + rest[k + 1:])))
                else:
                    out.append(with_(routes, (ru, au[:iu] + au[iu + 1:]), (rv, av[:iv + 1] + [act(C, c)] + av[iv + 1:])))
        return out
    if op == "RelocateWithDepot":
        if U.type != C or not pu or not vis(av) or (ru == rv and iu == iv + 1):
            return []
        v = data.vehicle_type(w.vts[rv])
        if trip_of(av, len(av) - 1) + 1 >= v.max_trips:
            return []
        if ru == rv and trip_of(au, iu) != (trip_of(au, iv) if iv >= 0 else 0):
            return []
        if open_at(av, iv):
            return []
        out = []
        if ru == rv:
            base = au[:iu] + au[iu + 1:]
            k = iv if iv < iu else iv - 1
        else:
            base, k = av, iv
        nxt_depot = iv + 1 < len(av) and av[iv + 1].type == D
        for d in v.reload_depots:
            new = [base[:k + 1] + [act(D, d), U] + base[k + 1:]]
            if not nxt_depot:
                new.append(base[:k + 1] + [U, act(D, d)] + base[k + 1:])
            for x in new:
                out.append(with_(routes, (rv, x)) if ru == rv else with_(routes, (ru, au[:iu] + au[iu + 1:]), (rv, x)))
        return out
    if op == "RelocateDelivery":
        if U.type != P or not pu:
            return []
        q = where(routes, act(Q, U.idx))[1]
        base = au[:q] + au[q + 1:]
        return [with_(routes, (ru, x)) for x in pd_insert(base[:iu] + base[iu + 1:], iu - 1, U, act(Q, U.idx)) if x != au]
    if op == "RelocatePickup":
        if U.type != P or not pu:
            return []
        base = au[:iu] + au[iu + 1:]
        q = [k for k, x in enumerate(base) if same(x, act(Q, U.idx))][0]
        lo = q
        while lo > 0 and base[lo - 1].type != D:
            lo -= 1
        return [with_(routes, (ru, base[:k] + [U] + base[k:])) for k in range(lo, q + 1) if base[:k] + [U] + base[k:] != au]
    if op == "RemoveOptionalClient":
        if U.type != C or not pu:
            return []
        c = data.client(U.idx)
        if c.required or (c.group is not None and data.group(c.group).required):
            return []
        return [with_(routes, (ru, au[:iu] + au[iu + 1:]))]
    if op == "RemoveOptionalShipment":
        if U.type != P or not pu or data.shipment(U.idx).required:
            return []
        return [with_(routes, (ru, [x for x in au if not (x.type in (P, Q) and x.idx == U.idx)]))]
    if op == "ReplaceGroup":
        if U.type != C or pu or data.client(U.idx).group is None:
            return []
        for c in data.group(data.client(U.idx).group).clients:
            wc = where(routes, act(C, c))
            if wc:
                k, i = wc
                return [with_(routes, (k, routes[k][:i] + [U] + routes[k][i + 1:]))]
        return []
    if op == "RemoveAdjacentDepot":
        if not pu:
            return []
        out = []
        for k in (iu - 1, iu + 1):
            if 0 <= k < len(au) and au[k].type == D:
                out.append(with_(routes, (ru, au[:k] + au[k + 1:])))
        return out
    raise AssertionError(op)


def state(ss):
    return [[act(n.type, n.idx) for n in rt][1:-1] for rt in ss.routes]


def skey(routes):
    return tuple(tuple(gen.astr(a)) for a in routes)


def check_valid(ctx, w, routes, what):
    data = w.data
    parts = [(t, a) for t, a in zip(w.vts, routes) if any(x.type != D for x in a)]
    for t, a in parts:
        bad = route_ok(data, t, a)
        ctx.check(bad is None, f"{what} gives an invalid route ({bad}): {gen.astr(a)}")
    bad = solution_ok(data, parts)
    ctx.check(bad is None, f"{what} gives an invalid solution ({bad})")
    cl = {x.idx for a in routes for x in a if x.type == C}
    sh = {x.idx for a in routes for x in a if x.type == P}
    for i, c in enumerate(data.clients()):
        ctx.check(i in cl or not c.required, f"{what} drops required client {i}")
    for i, s in enumerate(data.shipments()):
        ctx.check(i in sh or not s.required, f"{what} drops required shipment {i}")
    for g in data.groups():
        n = len(cl & set(g.clients))
        ctx.check(n <= 1 and (n == 1 or not g.required), f"{what} leaves {n} members of group {g.clients}")


def weights(r, data):
    f = lambda: r.choice([0, 1, 2, 7, r.randint(0, 100), r.random() * 20])
    return [f() for _ in range(data.num_load_dimensions)], f(), f()


class Tester:
    def __init__(self, ctx, r, data, sol, lp, tp, dp):
        self.ctx, self.r, self.data, self.sol = ctx, r, data, sol
        self.w = World(data, lp, tp, dp)
        self.ce = CostEvaluator(lp, tp, dp)
        self.ss = S.Solution(data)
        self.ss.load(sol)
        self.routes = state(self.ss)
        self.skip = 0
    def node(self, V):
        return self.ss.routes[V[1]][0] if isinstance(V, tuple) else self.ss[V]
    def fresh(self, op):
        o = getattr(S, op)(self.data)
        if hasattr(o, "init"):
            o.init(self.ss)
        return o
    def run(self, op, o, U, V):
        """Returns True when applied (the search solution then has to be reloaded)."""
        ctx, w = self.ctx, self.w
        u = self.ss[U]
        what = f"{op}({gen.astr([U])[0]}{'' if V is None else ', ' + ('start of route %d' % V[1] if isinstance(V, tuple) else gen.astr([V])[0])})"
        args = (u,) if V is None else (u, self.node(V))
        d, ok = o.evaluate(*args, self.ce)
        if not ok and self.skip and self.r.random() < self.skip:
            return False
        cands = moves(w, op, self.routes, U, V)
        if not ok:
            for c in cands:
                x = w.delta(self.routes, c)
                if x < 0:
                    ctx.check(False, f"{what} is reported as not improving ({d}), but gives {x}: {skey(self.routes)} -> {skey(c)}")
            return False
        if op != "RemoveAdjacentDepot":
            ctx.check(d < 0, f"{what} should be applied with a predicted change of {d}")
        else:
            ctx.check(d <= 0, f"{what} should be applied with a predicted change of {d}")
        touched = [x.route for x in args if x.route is not None]
        o.apply(*args)
        touched += [x.route for x in args if x.route is not None]
        for rt in self.ss.routes:
            rt.update()
        for rt in self.ss.routes:
            if rt.num_clients() == 0 and rt.num_shipments() == 0:
                rt.clear()
        after = state(self.ss)
        real = w.delta(self.routes, after)
        ctx.eq(real, d, f"{what}: realised change {skey(self.routes)} -> {skey(after)}")
        check_valid(ctx, w, after, what)
        out = self.ss.unload()
        parts = [(t, tuple(gen.astr(a))) for t, a in zip(w.vts, after) if any(x.type != D for x in a)]
        ctx.eq(sorted((rt.vehicle_type(), tuple(gen.astr(rt[1:-1] if False else list(rt)[1:-1]))) for rt in out.routes()), sorted(parts), f"{what}: exported routes")
        ctx.check(self.ce.penalised_cost(out) - self.ce.penalised_cost(self.sol) == d, f"{what}: exported solution's cost changed differently")
        return True


def plain(r):
    """Few features, tight capacities, detours that are cheaper than direct arcs: moves on the edge of improving."""
    n, S_ = r.randint(3, 6), r.choice([10, 40, 40])
    nd = r.choice([1, 1, 2])
    tw = r.random() < 0.5
    cs = []
    for k in range(1, n):
        e = r.randint(0, S_) if tw else 0
        cs.append(Client(k, delivery=[r.randint(0, 6) for _ in range(nd)], pickup=[r.choice([0, 0, r.randint(0, 6)]) for _ in range(nd)], tw_early=e,
                         tw_late=e + r.randint(0, 2 * S_) if tw else MAX, required=r.random() < 0.8, prize=r.choice([0, S_])))
    ss = [Shipment(r.randrange(n), r.randrange(n), amount=[r.randint(0, 6)] * nd, required=r.random() < 0.6, prize=r.choice([0, S_])) for _ in range(r.choice([0, 0, 1, 2]))]
    vts = [VehicleType(r.randint(2, 3), [r.randint(1, 10) for _ in range(nd)], fixed_cost=r.choice([0, 0, S_]), reload_depots=r.choice([[], [0], [0, 0]]), max_reloads=r.choice([1, 2, 3]),
                       unit_duration_cost=r.choice([0, 1]), shift_duration=r.choice([MAX, 2 * S_]), max_distance=r.choice([MAX, MAX, 2 * S_])) for _ in range(r.choice([1, 1, 2]))]
    return ProblemData([Location(0, 0)] * n, cs, [Depot(0)], vts, [gen.matrix(r, n, S_)], [gen.matrix(r, n, S_)], [], ss)


def case(r, ctx, i):
    focus = []
    if i % 4 == 2:
        data = plain(r)
        focus = ["RelocateWithDepot"] + r.sample(UNARY + BINARY, 9)
    elif i % 4 == 3:       # multi-trip problems
        data = gen.problem(r, nc=r.randint(2, 7), ns=r.choice([0, 0, 1]), nv=r.choice([1, 1, 2]), reload=1.0, dims=r.choice([1, 1, 2]), optional=0.1, S=r.choice([3, 10, 50, 50]))
        focus = ["RelocateWithDepot", "RemoveAdjacentDepot"] + r.sample(UNARY + BINARY, 4)
    elif i % 4 == 1:     # many optional visits
        data = gen.problem(r, nc=r.randint(1, 6), ns=r.choice([1, 2, 3]), nv=r.choice([1, 1, 2]), optional=0.8)
    else:
        data = gen.problem(r, nc=r.randint(0, 7), nv=r.choice([1, 1, 2, 3, 4]))
    if i % 8 > 3 and i % 4 != 2:
        data = gen.strip(r, data)
    if data.num_clients + data.num_shipments == 0:
        return
    ctx.note("data", gen.describe(data))
    lp, tp, dp = weights(r, data)
    if focus and r.random() < 0.6:
        lp = [r.choice([50, 1000]) for _ in lp]
    ctx.note("weights", lp, tp, dp)
    parts = gen.solution_parts(r, data, complete=True)
    sol = PSolution(data, [PRoute(data, a, t) for t, a in parts])
    ctx.note("solution", [(t, gen.astr(a)) for t, a in parts])
    t = Tester(ctx, r, data, sol, lp, tp, dp)
    t.skip = 0.7 if focus else 0.0
    if parts:
        ctx.seen((i, str([(t_, gen.astr(a)) for t_, a in parts])))
    us = [act(C, k) for k in range(data.num_clients)] + [act(P, k) for k in range(data.num_shipments)]
    planned = [x for acts in t.routes for x in acts if x.type != D]
    starts = [("start", k) for k, a in enumerate(t.routes)]
    pairs = [(u, v) for u in us for v in planned + starts if isinstance(v, tuple) or not (same(u, v))]
    for op in focus or UNARY + BINARY:
        cls = getattr(S, op, None)
        if cls is None or not cls.supports(data):
            continue
        o = t.fresh(op)
        args = [(u, None) for u in us] if op in UNARY else r.sample(pairs, min(len(pairs), 200 if focus else 60))
        napp = 0
        for u, v in args:
            ctx.evals += 1
            if t.run(op, o, u, v):
                t.ss.load(sol)
                o = t.fresh(op)
                napp += 1
                if napp > (30 if focus else 8):
                    break
    if not focus:
        insertions(r, ctx, t, us)


def insertions(r, ctx, t, us):
    data, w, ce = t.data, t.w, t.ce
    if not us:
        return
    nb = S.compute_neighbours(data, S.NeighbourhoodParams(num_neighbours=r.choice([1, 3, 20])))
    space = S.SearchSpace(data, nb)
    for u in us:
        # take u (and its group) out of the routes
        base = [[x for x in a if not (x.idx == u.idx and (x.type == u.type or (u.type == P and x.type == Q)))] for a in t.routes]
        if u.type == C and data.client(u.idx).group is not None:
            g = data.group(data.client(u.idx).group).clients
            base = [[x for x in a if not (x.type == C and x.idx in g)] for a in base]
        base = [a if any(x.type != D for x in a) else [] for a in base]
        parts = [(vt, a) for vt, a in zip(w.vts, base) if a]
        sol = PSolution(data, [PRoute(data, a, vt) for vt, a in parts])
        t.ss.load(sol)
        base = state(t.ss)
        req = r.random() < 0.3
        neigh = []
        for v in space.neighbours_of(u):
            p = where(base, v)
            if p:
                k, j = p
                if u.type == C:
                    neigh.append(with_(base, (k, base[k][:j + 1] + [u] + base[k][j + 1:])))
                else:
                    for at in (j - 1, j):
                        neigh += [with_(base, (k, x)) for x in pd_insert(base[k], at, u, act(Q, u.idx))]
        empt = []
        off = 0
        for vt, veh in enumerate(data.vehicle_types()):
            for k in range(off, off + veh.num_available):
                if not base[k]:
                    empt.append(with_(base, (k, [u] if u.type == C else [u, act(Q, u.idx)])))
                    break
            off += veh.num_available
        if u.type == C:
            neigh.append(with_(base, (0, [u] + base[0])))
        nd = [w.delta(base, x) for x in neigh]
        ed = [w.delta(base, x) for x in empt]
        what = f"insert({gen.astr([u])[0]}, required={req}) into {skey(base)}"
        done = t.ss.insert(t.ss[u], space, ce, req) if u.type == C else t.ss.insert(t.ss[u], t.ss[act(Q, u.idx)], space, ce, req)
        if not done:
            ctx.check(not req, f"{what}: not inserted")
            # only the first empty route that improves on the candidates before it is considered
            ctx.check(all(x >= 0 for x in nd) and not (ed and all(x < 0 for x in ed)), f"{what}: not inserted although the change would be {min(nd + ed, default=0)}")
            continue
        for rt in t.ss.routes:
            rt.update()
        after = state(t.ss)
        real = w.delta(base, after)
        ctx.check(req or real < 0, f"{what}: inserted with a change of {real}")
        if nd:
            ctx.check(real <= min(nd), f"{what}: inserted with a change of {real}, but {min(nd)} was available")
        for vt, a in zip(w.vts, after):
            bad = route_ok(data, vt, a)
            ctx.check(bad is None, f"{what} gives an invalid route ({bad})")
        got = sorted(x for a in after for x in gen.astr(a))
        want = sorted([x for a in base for x in gen.astr(a)] + gen.astr([u] if u.type == C else [u, act(Q, u.idx)]))
        ctx.eq(got, want, f"{what}: visits afterwards")
        ctx.evals += 1
    t.ss.load(t.sol)
