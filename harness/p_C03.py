"""Route statistics against a step by step simulation."""
from core import Violation
import gen
from gen import *
from oracle import Sim, BIG
from pyvrp import Route

RULE = "random problems (reloads, release times, shipments, initial load, overtime, several profiles) and random valid activity lists; non-trivial when at least one visit"


def check_route(ctx, rt, s, schedule=True):
    v = s.v
    E = ctx.eq
    E(rt.distance(), s.distance, "distance")
    E(rt.distance_cost(), s.distance_cost, "distance_cost")
    E(rt.excess_distance(), s.excess_distance, "excess_distance")
    E(rt.duration(), s.duration, "duration")
    E(rt.overtime(), s.overtime, "overtime")
    E(rt.duration_cost(), s.duration_cost, "duration_cost")
    E(rt.time_warp(), s.time_warp, "time_warp")
    E(rt.start_time(), s.start_time, "start_time")
    E(rt.end_time(), s.end_time, "end_time")
    E(rt.release_time(), s.R, "release_time")
    if s.slack is None:
        ctx.check(rt.slack() >= BIG, "slack", rt.slack(), "expected unconstrained")
    else:
        E(rt.slack(), s.slack, "slack")
    E(rt.service_duration(), s.service, "service_duration")
    E(rt.travel_duration(), s.travel, "travel_duration")
    E(rt.wait_duration(), s.wait, "wait_duration")
    E(list(rt.delivery()), s.delivery, "delivery")
    E(list(rt.pickup()), s.pickup, "pickup")
    E(list(rt.excess_load()), s.excess_load, "excess_load")
    E(rt.fixed_vehicle_cost(), v.fixed_cost, "fixed_vehicle_cost")
    E(rt.prizes(), s.prizes, "prizes")
    E(rt.num_clients(), s.num_clients, "num_clients")
    E(rt.num_shipments(), s.num_shipments, "num_shipments")
    E(rt.num_trips(), s.num_trips, "num_trips")
    E(rt.num_depots(), s.num_trips + 1, "num_depots")
    E(rt.vehicle_type(), s.vt, "vehicle_type")
    E(rt.start_depot(), v.start_depot, "start_depot")
    E(rt.end_depot(), v.end_depot, "end_depot")
    E(rt.has_excess_load(), any(x > 0 for x in s.excess_load), "has_excess_load")
    E(rt.has_excess_distance(), s.excess_distance > 0, "has_excess_distance")
    E(rt.has_time_warp(), s.time_warp > 0, "has_time_warp")
    E(rt.is_feasible(), s.feasible, "is_feasible")
    full = [gen.act(D, v.start_depot)] + s.acts + [gen.act(D, v.end_depot)]
    E(len(rt), len(full), "len")
    sched = rt.schedule()
    E(len(sched), len(full), "len(schedule)")
    want = s.schedule()
    for k, (x, a, w) in enumerate(zip(sched, full, want)):
        E((x.type, x.idx), (a.type, a.idx), "schedule activity", k)
        E((x.start_time, x.end_time, x.wait_duration, x.time_warp, x.trip), w, "schedule (start, end, wait, time warp, trip) at", k)
        E(x.duration, w[1] - w[0], "schedule duration at", k)
        E((rt[k].type, rt[k].idx, rt[k].start_time), (a.type, a.idx, w[0]), "route[k]", k)
    E([(a.type, a.idx) for a in rt], [(a.type, a.idx) for a in full], "iteration")


def case(r, ctx, i):
    kw = {}
    if i % 4 == 1:
        kw = dict(reload=1.0, S=r.choice([5, 20]))
    if i % 4 == 2:
        kw = dict(ns=r.randint(1, 4))
    data = gen.problem(r, **kw)
    ctx.note("data", gen.describe(data))
    for _ in range(6):
        vt = r.randrange(data.num_vehicle_types)
        cl = r.sample(range(data.num_clients), r.randint(0, data.num_clients))
        sh = r.sample(range(data.num_shipments), r.randint(0, data.num_shipments))
        acts = gen.route_acts(r, data, vt, cl, sh)
        if len(acts) >= 3 and r.random() < 0.2 and data.vehicle_type(vt).reload_depots and sum(a.type == D for a in acts) + 2 <= data.vehicle_type(vt).max_trips and not sh:
            acts.insert(r.randint(0, len(acts)), gen.act(D, r.choice(data.vehicle_type(vt).reload_depots)))
        ctx.note("route", vt, gen.astr(acts))
        s = Sim(data, vt, acts)
        rt = Route(data, acts, vt)
        check_route(ctx, rt, s)
        ctx.seen((i, vt, tuple(gen.astr(acts))))
        if all(a.type == C for a in acts):
            check_route(ctx, Route(data, [a.idx for a in acts], vt), s)
        ctx.desc.pop()
