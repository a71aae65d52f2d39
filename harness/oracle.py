"""Independent reference semantics: simulation of routes from raw problem data."""
import functools

from gen import D, C, P, Q, MAX

BIG = 2**59


def loc(data, a):
    if a.type == D:
        return data.depot(a.idx).location
    if a.type == C:
        return data.client(a.idx).location
    s = data.shipment(a.idx)
    return (s.pickup if a.type == P else s.delivery).location


_mats = {}


def mats(data, profile):
    """Distance and duration matrices as nested lists (kept for the last problem seen)."""
    if _mats.get("data") is not data:
        _mats.clear()
        _mats["data"] = data
    if profile not in _mats:
        _mats[profile] = (data.distance_matrix(profile).tolist(), data.duration_matrix(profile).tolist())
    return _mats[profile]


class Sim:
    """Everything about a route, from its data, vehicle type and inner activities."""
    def __init__(self, data, vt, acts):
        self.data, self.vt, self.acts = data, vt, list(acts)
        v = self.v = data.vehicle_type(vt)
        self.dist, self.durm = mats(data, v.profile)
        sd, ed = data.depot(v.start_depot), data.depot(v.end_depot)
        # (kind, location, early, late, service)
        stops = [("start", sd.location, sd.tw_early, sd.tw_late, sd.service_duration)]
        trips = [[]]
        self.release = []
        rel = 0
        for a in self.acts:
            if a.type == D:
                d = data.depot(a.idx)
                self.release.append(rel)
                rel = 0
                stops.append(("reload", d.location, d.tw_early, d.tw_late, d.service_duration))
                trips.append([])
                continue
            if a.type == C:
                c = data.client(a.idx)
                rel = max(rel, c.release_time)
                stops.append(("visit", c.location, c.tw_early, c.tw_late, c.service_duration))
            else:
                s = data.shipment(a.idx)
                st = s.pickup if a.type == P else s.delivery
                stops.append(("visit", st.location, st.tw_early, st.tw_late, st.service_duration))
            trips[-1].append(a)
        self.release.append(rel)
        stops.append(("end", ed.location, ed.tw_early, ed.tw_late, 0))
        self.stops, self.trips = stops, trips
        self.distance = sum(self.dist[a[1]][b[1]] for a, b in zip(stops, stops[1:]))
        self.travel = sum(self.durm[a[1]][b[1]] for a, b in zip(stops, stops[1:]))
        self.service = sum(s[4] for s in stops)
        self.excess_distance = max(self.distance - v.max_distance, 0)
        self._time()
        self._load()
        self.prizes = sum(data.client(a.idx).prize if a.type == C else data.shipment(a.idx).prize for a in self.acts if a.type in (C, P))
        self.num_clients = sum(a.type == C for a in self.acts)
        self.num_shipments = sum(a.type == P for a in self.acts)
        self.num_trips = len(trips)
        self.distance_cost = v.unit_distance_cost * self.distance
        self.overtime = max(self.duration - v.shift_duration, 0)
        self.duration_cost = v.unit_duration_cost * self.duration + v.unit_overtime_cost * self.overtime
        self.fixed_cost = v.fixed_cost
        self.empty = self.num_clients == 0 and self.num_shipments == 0
    # ---- time
    def drive(self, t0):
        """(duration, time warp) when the vehicle becomes available at t0."""
        v = self.v
        now, dur, tw = t0, 0, 0
        def visit(e, l):
            nonlocal now, dur, tw
            if now < e:
                dur += e - now
                now = e
            elif now > l:
                tw += now - l
                now = l
        visit(v.tw_early, v.start_late)
        trip = 0
        for k, (kind, lc, e, l, s) in enumerate(self.stops):
            if k:
                x = self.durm[self.stops[k - 1][1]][lc]
                now += x
                dur += x
            if kind == "reload":
                trip += 1
                r = self.release[trip]
                if now < r:
                    dur += r - now
                    now = r
            visit(e, l)
            now += s
            dur += s
        visit(v.tw_early, v.tw_late)
        return dur, tw
    def _time(self):
        v = self.v
        finite = [x for s in self.stops for x in (s[2], s[3]) if x < BIG] + [x for x in (v.tw_early, v.start_late, v.tw_late) if x < BIG] + self.release
        self.H = max(finite + [0]) + self.travel + self.service + 1
        self.R = self.release[0]
        dmin = self.drive(self.H)[0]
        tmin = self.drive(-self.H)[1]     # least time warp ignoring the release time
        self.duration = dmin
        self.base_tw = tmin
        # starting no earlier than the release time of the first trip
        tw = self.drive(self.R)[1]
        self.time_warp = tw + max(dmin - tw - v.max_duration, 0)
        self.wait = dmin - self.travel - self.service
    @functools.cached_property
    def E(self):
        """Earliest start of minimal duration."""
        lo, hi = -self.H, self.H
        while lo < hi:
            m = (lo + hi) // 2
            if self.drive(m)[0] == self.duration:
                hi = m
            else:
                lo = m + 1
        return lo
    @functools.cached_property
    def L(self):
        """Latest start of least time warp (None: unconstrained)."""
        if self.drive(self.H)[1] == self.base_tw:
            return None
        lo, hi = -self.H, self.H
        while lo < hi:
            m = (lo + hi + 1) // 2
            if self.drive(m)[1] == self.base_tw:
                lo = m
            else:
                hi = m - 1
        return lo
    @property
    def start_time(self):
        return max(self.E, self.R)
    @property
    def slack(self):
        return None if self.L is None else max(self.L, self.R) - self.start_time
    @property
    def end_time(self):
        return self.start_time + self.duration - self.time_warp
    def schedule(self):
        """[(start, end, wait, time warp, trip)] per stop, starting at start_time."""
        now = self.start_time
        out, trip = [], 0
        for k, (kind, lc, e, l, s) in enumerate(self.stops):
            if k:
                now += self.durm[self.stops[k - 1][1]][lc]
            if kind == "start":
                e, l = max(e, min(self.release[0], l)), min(l, self.v.start_late)
            if kind == "reload":
                trip += 1
                e = max(e, min(self.release[trip], l))
            w, tw = max(e - now, 0), max(now - l, 0)
            now += w - tw
            out.append((now, now + s, w, tw, trip if kind != "end" else len(self.trips)))
            now += s
        return out
    # ---- load
    def _load(self):
        data, v = self.data, self.v
        nd = data.num_load_dimensions
        self.delivery = [0] * nd
        self.pickup = [v.initial_load[d] for d in range(nd)]
        self.excess_load = [0] * nd
        self.peaks = [[] for _ in range(nd)]
        for d in range(nd):
            for k, tr in enumerate(self.trips):
                # everything the trip delivers to clients is on board at its start
                load = sum(data.client(a.idx).delivery[d] for a in tr if a.type == C) + (v.initial_load[d] if k == 0 else 0)
                peak = load
                for a in tr:
                    if a.type == C:
                        c = data.client(a.idx)
                        load += c.pickup[d] - c.delivery[d]
                        self.delivery[d] += c.delivery[d]
                        self.pickup[d] += c.pickup[d]
                    else:
                        am = data.shipment(a.idx).amount[d]
                        load += am if a.type == P else -am
                    peak = max(peak, load)
                self.peaks[d].append(peak)
                self.excess_load[d] += max(peak - v.capacity[d], 0)
    @property
    def feasible(self):
        return not any(self.excess_load) and self.time_warp == 0 and self.excess_distance == 0


def pen(x, w):
    """Penalty: truncated product in double precision, as documented for integer costs."""
    return int(float(x) * w)


def penalised(sim, load_pen, tw_pen, dist_pen):
    if sim.empty:
        return 0
    return (sim.distance_cost + sim.duration_cost + sim.fixed_cost + sum(pen(x, w) for x, w in zip(sim.excess_load, load_pen))
            + pen(sim.time_warp, tw_pen) + pen(sim.excess_distance, dist_pen))


def uncollected(data, acts_lists):
    total = sum(c.prize for c in data.clients()) + sum(s.prize for s in data.shipments())
    for acts in acts_lists:
        for a in acts:
            if a.type == C:
                total -= data.client(a.idx).prize
            elif a.type == P:
                total -= data.shipment(a.idx).prize
    return total
