"""C21: fleet minimisation, for any solver outcome and any stopping criterion."""
import z3
from pyvc import *

M = "pyvrp.minimise_fleet"
IS = z3.IntSort()


class VT:
    """A vehicle type: its number and the rest (an arbitrary but fixed value). replace(): contract C10/C11."""
    __vstub__ = True
    def __init__(self, v, num, rest):
        self.v, self.num_available, self.rest = v, num, rest
    def replace(self, **kw):
        if set(kw) != {"num_available"}:
            raise Unsupported("replaces more than the number of vehicles")
        n = kw["num_available"]
        if not self.v.branch(self.v.truth(n >= 1)):
            raise PyRaise("ValueError")
        return VT(self.v, n, self.rest)
    @property
    def capacity(self):
        return self.rest.capacity
    @property
    def max_trips(self):
        return self.rest.max_trips


class Rest:
    pass


class Data:
    __vstub__ = True
    def __init__(self, v, vt, base, nvt):
        self.v, self.vt, self.base, self.num_vehicle_types = v, vt, base, nvt
        self.num_load_dimensions = base.nd
    def vehicle_type(self, i):
        if not (isinstance(i, int) and i == 0):
            raise Unsupported("another vehicle type")
        return self.vt
    def vehicle_types(self):
        return [self.vt]
    def clients(self):
        return self.base.clients
    def replace(self, **kw):
        if set(kw) != {"vehicle_types"} or not isinstance(kw["vehicle_types"], list) or len(kw["vehicle_types"]) != 1:
            raise Unsupported("another change of the problem")
        return Data(self.v, kw["vehicle_types"][0], self.base, 1)
    @property
    def num_vehicles(self):
        return self.vt.num_available
    @property
    def num_clients(self):
        return self.base.clients.n


class Sol:
    __vstub__ = True
    def __init__(self, v, feas, routes):
        self.v, self.feas, self.routes = v, feas, routes
    def is_feasible(self):
        return self.feas
    def num_routes(self):
        return self.routes


class B:
    pass


def problem(v):
    b, rest = B(), Rest()
    b.nd = v.int("num_load_dimensions", 0)
    n = v.int("num_clients", 0)
    REQ = z3.Function("required", IS, z3.BoolSort())
    class Client:
        __vstub__ = True
        def __init__(self, i):
            self.i = i
        @property
        def required(self):
            return REQ(self.i)
    b.clients = SList(v, n, lambda i: Client(i))
    b.n, b.REQ = n, REQ
    vt = VT(v, v.int("num_available", 1), rest)
    return b, vt


@contract("C21", "minimise_fleet: for any solver outcome and stopping criterion")
def minimise(v):
    b, vt = problem(v)
    nvt = v.int("num_vehicle_types", 0)
    data = Data(v, vt, b, nvt)
    lb = v.int("lower bound", 1)
    v.stubs[M + "._lower_bound"] = lambda d: lb if d is data else fail("bound of another problem")
    N0 = vt.num_available
    tried = []
    def solve(d, stop=None, seed=0, collect_stats=True, display=False, params=None, initial_solution=None):
        v.ensure("only smaller versions of the original fleet are tried", z3.And(asbool(d.vt.num_available < N0), asbool(d.vt.num_available >= 1), z3.BoolVal(d.vt.rest is vt.rest and d.base is b)))
        s = Sol(v, v.fresh("feasible", z3.BoolSort()), v.fresh("num_routes", IS))
        v.require(s.routes >= 0, s.routes <= d.vt.num_available)  # C04: not more routes than vehicles
        tried.append((d, s))
        class Res:
            __vstub__ = True
            best = s
        return Res()
    v.stubs["pyvrp.solve.solve"] = solve
    v.stubs["pyvrp.solve.SolveParams"] = lambda *a, **k: "params"
    for n in ("FirstFeasible", "MultipleCriteria"):
        v.stubs[f"pyvrp.stop.{n}.{n}"] = lambda *a, n=n: (n, a)
    class Ev:
        __vstub__ = True
        def cost(self, s):
            return v.fresh("cost", IS)
    v.stubs["pyvrp._pyvrp.CostEvaluator"] = lambda *a: Ev()
    stop = lambda c: v.fresh("stop", z3.BoolSort())
    OK = z3.Function("known_feasible", IS, z3.BoolSort())  # counts for which a feasible solution has been found
    v.facts.append(OK(N0))
    def inv(L):
        f = L["feas_fleet"]
        if not isinstance(f, VT):
            raise Unsupported("fleet")
        return [("the fleet is the given one except for its size", f.rest is vt.rest),
                ("the size is between one and the original", z3.And(asbool(f.num_available >= 1), asbool(f.num_available <= N0))),
                ("the size is one with which a feasible solution is known, or the original", OK(f.num_available)),
                ("the size is not below the bound unless the fleet was smaller already", z3.Or(asbool(f.num_available >= lb), asbool(f.num_available == N0)))]
    def havoc(L):
        tried.clear()
        return []
    # a feasible solution with r routes for a fleet of n shows that every count in [max(r, 1), n] suffices
    def after(L):
        for d, s in tried:
            k = z3.Int("k")
            v.facts.append(z3.ForAll([k], z3.Implies(z3.And(s.feas, k >= s.routes, k >= 1, k <= d.vt.num_available), OK(k))))
            # assumed lemma (pigeon hole): a feasible solution of all clients has at least lb routes, since no
            # trip delivers (or collects) more than the capacity in any dimension
            v.facts.append(z3.Implies(s.feas, s.routes >= z3.If(b.n > 0, lb, 0)))
            v.facts.append(z3.Implies(b.n == 0, lb == 1))
    def step(L):
        after(L)
        v.cover('an iteration')
    key = (M + ".minimise_fleet", 0)
    def fleet():
        return VT(v, v.fresh("fleet", IS), vt.rest)
    def dat():
        return Data(v, VT(v, v.fresh("datafleet", IS), vt.rest), b, 1)
    v.loops[key] = dict(inv=inv, havoc=havoc, step=step, vars=dict(feas_fleet=fleet, data=dat))
    r, out = v.catching(v.callf, M, "minimise_fleet", data, stop)
    i = z3.Int("i")
    optional = z3.Exists([i], z3.And(i >= 0, i < b.n, z3.Not(b.REQ(i))))
    good = z3.And(nvt == 1, z3.Not(optional))
    v.ensure("rejected exactly for several vehicle types or optional clients", good if r == "ok" else z3.Not(good))
    if r != "ok":
        v.ensure("the error is a ValueError", r == "ValueError")
        v.cover("rejected")
        return
    if not isinstance(out, VT):
        raise Unsupported("result")
    after(None)
    n = out.num_available
    v.ensure("the result equals the given vehicle type except for the number of vehicles", out.rest is vt.rest)
    v.ensure("at least one vehicle, never more than before", z3.And(asbool(n >= 1), asbool(n <= N0)))
    v.ensure("never below the capacity lower bound unless the fleet was smaller already", z3.Or(n >= lb, asbool(n == N0)))
    v.ensure("the count is one with which a feasible solution was found, or the original", OK(n) if is_z(n) else OK(z3.IntVal(n)))
    v.ensure("the given problem is not changed", data.vt is vt and vt.num_available is N0)
    v.cover("returned")


def fail(m):
    raise Unsupported(m)


@contract("C21", "_lower_bound: the capacity bound over all load dimensions (reals for the division)")
def bound(v):
    b, vt = problem(v)
    nd, n = b.nd, b.n
    DEL = z3.Function("delivery", IS, IS, IS)
    PIC = z3.Function("pickup", IS, IS, IS)
    CAP = z3.Function("capacity", IS, IS)
    class Arr:
        __vstub__ = True
        def __init__(self, f):
            self.f = f
        def __vgetitem__(self, d):
            return self.f(d if is_z(d) else z3.IntVal(d))
    class Client:
        __vstub__ = True
        def __init__(self, i):
            self.delivery, self.pickup = Arr(lambda d: DEL(i, d)), Arr(lambda d: PIC(i, d))
    b.clients = SList(v, n, lambda i: Client(i))
    vt.rest.capacity = Arr(CAP)
    vt.rest.max_trips = v.int("max_trips", 1)
    data = Data(v, vt, b, 1)
    v.stubs["numpy.ceil"] = lambda x: z3.ToReal(-z3.ToInt(-x)) if x.is_real() else x
    v.stubs["math.ceil"] = lambda x: -z3.ToInt(-x)
    SD = z3.Function("sum_delivery", IS, IS)
    SP = z3.Function("sum_pickup", IS, IS)
    def need(d):
        """The number of vehicles that dimension d needs: the least k >= 0 with k * max(cap * trips, 1) >= demand."""
        return NEED(d)
    NEED = z3.Function("need", IS, IS)
    D = z3.Int("D")
    def define(d):
        dem = z3.If(SD(d) > SP(d), SD(d), SP(d))
        c = CAP(d) * vt.rest.max_trips
        c = z3.If(c > 1, c, 1)
        v.facts.append(z3.And(NEED(d) * c >= dem, (NEED(d) - 1) * c < dem))
    def inv(L):
        d = v.fresh("dim", IS)
        return [("the bound is at least one", asbool(L["bound"] >= 1)),
                ("the bound is at least what every dimension so far needs", z3.ForAll([D], z3.Implies(z3.And(D >= 0, D < L.i), L["bound"] >= NEED(D)))),
                ("the bound is one or what some dimension needs", z3.Or(asbool(L["bound"] == 1), z3.Exists([D], z3.And(D >= 0, D < L.i, L["bound"] == NEED(D)))))]
    def body(L):
        # the sums of this dimension
        d = L.i
        v.facts.append(CAP(d) >= 0)
        v.facts.append(v.sumterm(n, lambda i: DEL(i, d)) == SD(d))
        v.facts.append(v.sumterm(n, lambda i: PIC(i, d)) == SP(d))
        define(d)
    v.loops[(M + "._lower_bound", 0)] = dict(inv=inv, havoc=lambda L: [], body=body, step=lambda L: v.cover('an iteration'))
    r = v.callf(M, "_lower_bound", data)
    v.ensure("at least one", asbool(r >= 1))
    v.ensure("at least what every dimension needs", z3.ForAll([D], z3.Implies(z3.And(D >= 0, D < nd), r >= NEED(D))))
    v.ensure("not more than one dimension needs", z3.Or(asbool(r == 1), z3.Exists([D], z3.And(D >= 0, D < nd, r == NEED(D)))))
    v.cover("computed")
