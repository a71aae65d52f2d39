"""Search routes: every cached quantity against values computed from scratch, after any history of edits."""
import gen
from gen import *
from oracle import Sim, loc
from pyvrp import Route as PRoute, Solution as PSolution
from pyvrp._pyvrp import DurationSegment as DS, LoadSegment as LS
from pyvrp.search._search import Node, Route
from pyvrp.search._search import Solution as SSolution

RULE = "random problems; random histories of insert/append/remove/swap/clear/update on search routes, and of loads of different solutions; non-trivial when the route has at least one visit"
BIG = 2**59


def dsobs(s):
    f = lambda x: "inf" if x > BIG else x
    return tuple(f(x) for x in (s.duration(), s.time_warp(), s.start_early(), s.start_late(), s.end_early(), s.end_late(), s.release_time(), s.prev_end_late()))


def lsobs(s, caps):
    return (s.initial(), s.delta(), s.increase(), s.load()) + tuple(s.excess_load(c) for c in caps)


class Ref:
    """From-scratch values of the route with these inner activities."""
    def __init__(self, data, vt, inner):
        self.data, self.v, self.vt = data, data.vehicle_type(vt), vt
        v = self.v
        self.acts = [act(D, v.start_depot)] + list(inner) + [act(D, v.end_depot)]
        self.n = len(self.acts)
        self.locs = [loc(data, a) for a in self.acts]
        self.reload = [0 < i < self.n - 1 and a.type == D for i, a in enumerate(self.acts)]
        self.dep = [a.type == D for a in self.acts]
    def trip(self, i):
        return sum(self.dep[1:i + 1])
    def dist(self, i, j, prof=None):
        m = self.data.distance_matrix(self.v.profile if prof is None else prof)
        return sum(int(m[self.locs[k], self.locs[k + 1]]) for k in range(i, j))
    def dur_at(self, i):
        d, v = self.data, self.v
        a = self.acts[i]
        if i == 0:
            dep = d.depot(a.idx)
            return DS.merge(0, DS(0, 0, v.tw_early, v.start_late, 0), DS(dep.service_duration, 0, dep.tw_early, dep.tw_late, 0))
        if i == self.n - 1:
            dep = d.depot(a.idx)
            return DS.merge(0, DS(0, 0, dep.tw_early, dep.tw_late, 0), DS(0, 0, v.tw_early, v.tw_late, 0))
        if a.type == D:
            return DS()  # window and service apply at the start of the next trip
        if a.type == C:
            c = d.client(a.idx)
            return DS(c.service_duration, 0, c.tw_early, c.tw_late, c.release_time)
        s = d.shipment(a.idx)
        s = s.pickup if a.type == P else s.delivery
        return DS(s.service_duration, 0, s.tw_early, s.tw_late, 0)
    def svc(self, i):
        dep = self.data.depot(self.acts[i].idx)
        return DS(dep.service_duration, 0, dep.tw_early, dep.tw_late)
    def edge(self, i, prof=None):
        return int(self.data.duration_matrix(self.v.profile if prof is None else prof)[self.locs[i], self.locs[i + 1]])
    def dur_before(self):
        out = [self.dur_at(0)]
        for i in range(1, self.n):
            s = out[-1]
            if self.reload[i - 1]:
                s = DS.merge(0, s.finalise_back(), self.svc(i - 1))
            out.append(DS.merge(self.edge(i - 1), s, self.dur_at(i)))
        return out
    def dur_after(self):
        out = [self.dur_at(self.n - 1)]
        for i in range(self.n - 2, -1, -1):
            s = out[0]
            if self.reload[i + 1]:
                s = s.finalise_front()
            out.insert(0, DS.merge(self.edge(i), self.svc(i) if self.reload[i] else self.dur_at(i), s))
        return out
    def dur_between(self, i, j, prof):
        s = self.dur_at(i)
        if i != j and self.reload[i]:
            s = self.svc(i)
        for k in range(i, j):
            s = DS.merge(self.edge(k, prof), s, self.dur_at(k + 1))
        return s
    def load_at(self, i, dim):
        d = self.data
        a = self.acts[i]
        if i == 0:
            x = self.v.initial_load[dim]
            return LS(x, 0, 0)
        if a.type == D:
            return LS(0, 0, 0)
        if a.type == C:
            c = d.client(a.idx)
            return LS(c.delivery[dim], c.pickup[dim] - c.delivery[dim], max(c.pickup[dim] - c.delivery[dim], 0))
        x = d.shipment(a.idx).amount[dim]
        return LS(0, x, x) if a.type == P else LS(0, -x, 0)
    def load_before(self, dim):
        out = [self.load_at(0, dim)]
        for i in range(1, self.n):
            s = out[-1]
            if self.reload[i - 1]:
                s = s.finalise(self.v.capacity[dim])
            out.append(LS.merge(s, self.load_at(i, dim)))
        return out
    def load_after(self, dim):
        out = [self.load_at(self.n - 1, dim)]
        for i in range(self.n - 2, -1, -1):
            s = out[0]
            if self.reload[i + 1]:
                s = s.finalise(self.v.capacity[dim])
            out.insert(0, LS.merge(self.load_at(i, dim), s))
        return out
    def load_between(self, i, j, dim):
        s = self.load_at(i, dim)
        for k in range(i, j):
            s = LS.merge(s, self.load_at(k + 1, dim))
        return s


def check_route(ctx, data, route, vt, inner, full=True):
    E = ctx.eq
    ref = Ref(data, vt, inner)
    v, n = ref.v, ref.n
    E(len(route), n, "route size")
    E(route.vehicle_type, vt, "vehicle_type")
    for i in range(n):
        nd = route[i]
        E((nd.type, nd.idx), (ref.acts[i].type, ref.acts[i].idx), f"activity at {i}")
        E(nd.pos, i, f"pos of node {i}")
        E(nd.trip, ref.trip(i), f"trip of node {i}")
        ctx.check(nd.route is route, f"node {i} does not refer to its route")
        E((nd.is_depot(), nd.is_start_depot(), nd.is_end_depot(), nd.is_reload_depot(), nd.is_client(), nd.is_pickup(), nd.is_delivery(), nd.is_shipment()),
          (ref.dep[i], i == 0, i == n - 1, ref.reload[i], ref.acts[i].type == C, ref.acts[i].type == P, ref.acts[i].type == Q, ref.acts[i].type in (P, Q)), f"kind of node {i}")
    cnt = lambda t: sum(a.type == t for a in inner)
    E(route.num_clients(), cnt(C), "num_clients")
    E(route.num_pickups(), cnt(P), "num_pickups")
    if cnt(P) == cnt(Q):
        E(route.num_shipments(), cnt(P), "num_shipments")
    E(route.num_depots(), cnt(D) + 2, "num_depots")
    E(route.num_trips(), cnt(D) + 1, "num_trips")
    E(route.max_trips(), v.max_trips, "max_trips")
    E((route.start_depot(), route.end_depot(), route.profile(), route.fixed_vehicle_cost(), route.unit_distance_cost(), route.unit_duration_cost(), route.unit_overtime_cost(),
       route.shift_duration(), route.max_duration(), route.max_overtime(), route.max_distance(), list(route.capacity())),
      (v.start_depot, v.end_depot, v.profile, v.fixed_cost, v.unit_distance_cost, v.unit_duration_cost, v.unit_overtime_cost, v.shift_duration, v.max_duration, v.max_overtime,
       v.max_distance, list(v.capacity)), "vehicle attributes")
    sim = Sim(data, vt, inner)
    E(route.distance(), sim.distance, "distance")
    E(route.excess_distance(), sim.excess_distance, "excess_distance")
    E(route.distance_cost(), sim.distance_cost, "distance_cost")
    E(route.duration(), sim.duration, "duration")
    E(route.overtime(), sim.overtime, "overtime")
    E(route.duration_cost(), sim.duration_cost, "duration_cost")
    E(route.time_warp(), sim.time_warp, "time_warp")
    E(list(route.excess_load()), sim.excess_load, "excess_load")
    E(list(route.load()), [sum(ref.load_before(d)[i].load() for i in range(1, n) if ref.dep[i]) for d in range(data.num_load_dimensions)], "load")
    E(route.has_excess_load(), any(sim.excess_load), "has_excess_load")
    E(route.has_excess_distance(), sim.excess_distance > 0, "has_excess_distance")
    E(route.has_time_warp(), sim.time_warp > 0, "has_time_warp")
    E(route.is_feasible(), sim.feasible, "is_feasible")
    if v.unit_distance_cost == 0 and v.max_distance == MAX:
        pass
    if not full:
        return
    da, db = ref.dur_after(), ref.dur_before()
    profs = range(data.num_profiles)
    for i in range(n):
        E(route.dist_before(i), ref.dist(0, i), f"dist_before({i})")
        E(route.dist_after(i), ref.dist(i, n - 1), f"dist_after({i})")
        E(dsobs(route.duration_before(i)), dsobs(db[i]), f"duration_before({i})")
        E(dsobs(route.duration_after(i)), dsobs(da[i]), f"duration_after({i})")
        for p in profs:
            E(route.dist_at(i, p), 0, f"dist_at({i})")
            E(dsobs(route.duration_at(i, p)), dsobs(ref.dur_at(i)), f"duration_at({i})")
    for d in range(data.num_load_dimensions):
        la, lb = ref.load_after(d), ref.load_before(d)
        caps = (0, v.capacity[d], v.capacity[d] + 3)
        for i in range(n):
            E(lsobs(route.load_at(i, d), caps), lsobs(ref.load_at(i, d), caps), f"load_at({i}, {d})")
            E(lsobs(route.load_before(i, d), caps), lsobs(lb[i], caps), f"load_before({i}, {d})")
            E(lsobs(route.load_after(i, d), caps), lsobs(la[i], caps), f"load_after({i}, {d})")
    for i in range(n):
        for j in range(i, n):
            if ref.trip(j) - ref.trip(i) > int(ref.dep[j]):
                break
            for p in profs:
                E(route.dist_between(i, j, p), ref.dist(i, j, p), f"dist_between({i}, {j}, profile {p})")
                E(dsobs(route.duration_between(i, j, p)), dsobs(ref.dur_between(i, j, p)), f"duration_between({i}, {j}, {p})")
            for d in range(data.num_load_dimensions):
                caps = (0, v.capacity[d])
                E(lsobs(route.load_between(i, j, d), caps), lsobs(ref.load_between(i, j, d), caps), f"load_between({i}, {j}, {d})")


def check_free(ctx, nodes, used):
    for nd in nodes:
        if id(nd) not in used:
            ctx.check(nd.route is None and nd.pos == 0 and nd.trip == 0, f"removed node {nd} still refers to a route")


def history(r, ctx, data):
    """Random edits on two routes."""
    vts = [r.randrange(data.num_vehicle_types) for _ in range(2)]
    routes = [Route(data, t) for t in vts]
    model = [[], []]
    pool = [Node(C, i) for i in range(data.num_clients)]
    for s in range(data.num_shipments):
        pool += [Node(P, s), Node(Q, s)]
    keep = list(pool)
    for step in range(r.randint(1, 25)):
        k = r.randrange(2)
        route, mod, v = routes[k], model[k], data.vehicle_type(vts[k])
        op = r.random()
        free = [nd for nd in pool if nd.route is None]
        if op < 0.45 and free:
            nd = r.choice(free)
            if r.random() < 0.4:
                ctx.note(f"route{k}.append({nd})")
                route.append(nd)
                mod.append(nd)
            else:
                at = r.randint(1, len(mod) + 1)
                ctx.note(f"route{k}.insert({at}, {nd})")
                route.insert(at, nd)
                mod.insert(at - 1, nd)
        elif op < 0.6:
            nd = Node(D, r.randrange(data.num_depots))
            at = r.randint(1, len(mod) + 1)
            trips = sum(x.type == D for x in mod) + 1
            ctx.note(f"route{k}.insert({at}, {nd})")
            try:
                route.insert(at, nd)
                ok = True
            except ValueError:
                ok = False
            ctx.eq(ok, trips < v.max_trips, "reload depot accepted")
            if ok:
                mod.insert(at - 1, act(nd.type, nd.idx))
        elif op < 0.75 and mod:
            at = r.randint(1, len(mod))
            ctx.note(f"del route{k}[{at}]")
            nd = mod.pop(at - 1)
            del route[at]
            if nd.type != D:
                ctx.check(nd.route is None, "removed node still has a route")
        elif op < 0.92:
            placed = [x for m in model for x in m if x.type != D]
            if not placed:
                continue
            a = r.choice(placed)
            others = [x for x in placed + free if x is not a]
            if not others:
                continue
            b = r.choice(others)
            ctx.note(f"swap({a}, {b})")
            Route.swap(a, b)
            pa = [(m, i) for m in model for i, x in enumerate(m) if x is a]
            pb = [(m, i) for m in model for i, x in enumerate(m) if x is b]
            for m, i in pa:
                m[i] = b
            for m, i in pb:
                m[i] = a
        elif op < 0.96:
            ctx.note(f"route{k}.clear()")
            for rt in routes:
                rt.update()
            route.clear()
            mod.clear()
        for rt in routes:
            if r.random() < 0.3:
                rt.update()
        if r.random() < 0.25:
            fin(ctx, data, routes, vts, model, pool, full=r.random() < 0.3)
    fin(ctx, data, routes, vts, model, pool, True)
    if any(model):
        ctx.seen(str([gen.astr(m) for m in model]))
    for rt in routes:
        rt.clear()
    check_free(ctx, keep, ())


def fin(ctx, data, routes, vts, model, pool, full):
    used = set()
    for rt, t, m in zip(routes, vts, model):
        rt.update()
        check_route(ctx, data, rt, t, [act(x.type, x.idx) for x in m], full)
        used.update(id(x) for x in m)
    check_free(ctx, pool, used)


def key(sol):
    return sorted((rt.vehicle_type(), tuple(gen.astr(rt))) for rt in sol.routes())


def loads(r, ctx, data):
    s = SSolution(data)
    sols = [gen.solution(r, data, complete=r.random() < 0.3) for _ in range(3)]
    sol = sols[0]
    for step in range(6):
        sol = r.choice(sols + [sol, sol])
        if r.random() < 0.4 and sol.num_routes():      # a slightly changed solution
            parts = [(rt.vehicle_type(), [a for a in list(rt)[1:-1]]) for rt in sol.routes()]
            kind = r.random()
            if kind < 0.4:
                r.shuffle(parts)
                if r.random() < 0.7:
                    parts.pop()
            else:                                      # one visit differs
                t, a = r.choice(parts)
                dep = [k for k, x in enumerate(a) if x.is_depot()]
                cl = [k for k, x in enumerate(a) if x.is_client()]
                if dep and kind < 0.75:
                    a[r.choice(dep)] = act(gen.D, r.choice(data.vehicle_type(t).reload_depots))
                elif len(cl) > 1:
                    k, l = r.sample(cl, 2)
                    a[k], a[l] = a[l], a[k]
            sol = PSolution(data, [PRoute(data, a, t) for t, a in parts])
        ctx.note("load", [(rt.vehicle_type(), gen.astr(rt)) for rt in sol.routes()])
        before = key(sol)
        s.load(sol)
        out = s.unload()
        ctx.eq(key(out), before, "routes after load and unload")
        ctx.check(out == sol, "unloaded solution differs from the loaded one")
        ctx.eq(key(sol), before, "load changed its input")
        avail = [t for t, v in enumerate(data.vehicle_types()) for _ in range(v.num_available)]
        ctx.eq([rt.vehicle_type for rt in s.routes], avail, "vehicle types of the search routes")
        placed = set()
        for rt in s.routes:
            inner = [act(nd.type, nd.idx) for nd in rt][1:-1]
            check_route(ctx, data, rt, rt.vehicle_type, inner, full=r.random() < 0.2)
            placed.update((a.type, a.idx) for a in inner)
        for nd in list(s.clients) + [x for pq in s.shipments for x in pq]:
            ctx.eq(nd.route is not None, (nd.type, nd.idx) in placed, f"{nd} is in a route")
            ctx.check(s[act(nd.type, nd.idx)] is nd, f"lookup of {nd}")
        ctx.seen(tuple(before))


def case(r, ctx, i):
    data = gen.problem(r, nv=r.choice([1, 2, 2, 3, 4]))
    ctx.note("data", gen.describe(data))
    n = len(ctx.desc)
    for _ in range(2):
        history(r, ctx, data)
        del ctx.desc[n:]
    loads(r, ctx, data)
