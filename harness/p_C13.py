"""Random number generator against the xor128 recurrence."""
from pyvrp import RandomNumberGenerator
from pyvrp.search import _search as S
import gen

RULE = "random seeds and states, random interleavings of draws; outputs, states and ranges compared with the xor128 recurrence; shuffles observed through the search space"
M = 2**32 - 1


class Ref:
    def __init__(self, st):
        self.s = list(st)
    def next(self):
        t, s = self.s[3], self.s[0]
        self.s[3], self.s[2], self.s[1] = self.s[2], self.s[1], s
        t ^= (t << 11) & M
        t ^= t >> 8
        self.s[0] = t ^ s ^ (s >> 19)
        return self.s[0]


def case(r, ctx, i):
    if r.random() < 0.5:
        seed = r.choice([0, 1, 42, M, r.randint(0, M)])
        g, h = RandomNumberGenerator(seed), RandomNumberGenerator(seed=seed)
        ref = Ref([seed, 123456789, 362436069, 521288629])
    else:
        st = [r.choice([0, 1, M, r.randint(0, M)]) for _ in range(4)]
        g, h = RandomNumberGenerator(state=st), RandomNumberGenerator(state=st)
        ref = Ref(st)
    ctx.note("state", ref.s)
    ctx.eq(list(g.state()), ref.s, "initial state")
    ctx.eq((RandomNumberGenerator.min(), RandomNumberGenerator.max()), (0, M), "range")
    for step in range(30):
        k = r.randrange(3)
        x = ref.next()
        if k == 0:
            a, b = g(), h()
            ctx.eq(a, x, "draw")
        elif k == 1:
            hi = r.choice([1, 2, 3, 10, 1000, 2**31 - 1, r.randint(1, 2**31 - 1)])
            a, b = g.randint(hi), h.randint(hi)
            ctx.check(0 <= a < hi, f"randint({hi}) gives {a}")
            ctx.eq(a, x % hi, f"randint({hi})")
        else:
            a, b = g.rand(), h.rand()
            ctx.check(0.0 <= a <= 1.0, f"rand() gives {a}")
            ctx.eq(a, x / float(M), "rand()")
        ctx.eq(a, b, "second generator with the same seed")
        ctx.eq(list(g.state()), ref.s, "state after draw")
        if r.random() < 0.2:
            h = RandomNumberGenerator(state=g.state())
        ctx.seen((tuple(ref.s), k))
    # the extreme draw
    # find a state whose next output is 0 or M: t' ^ s ^ (s >> 19) with t chosen as 0
    for out in (0, M):
        s = out
        for k in range(19, 32):  # invert s ^ (s >> 19)
            bit = ((out >> (31 - k)) & 1) ^ ((s >> (31 - k + 19)) & 1 if 31 - k + 19 < 32 else 0)
            s = (s & ~(1 << (31 - k))) | (bit << (31 - k))
        e = RandomNumberGenerator(state=[s, 1, 2, 0])
        f = RandomNumberGenerator(state=[s, 1, 2, 0])
        if f() == out:
            v = e.rand()
            ctx.check(0.0 <= v <= 1.0, f"rand() gives {v}")
            ctx.eq(v, out / float(M), "extreme rand()")
    # shuffling
    n = r.choice([0, 1, 2, 3, 5, 9])
    data = gen.problem(r, nc=n, ns=r.choice([0, 0, 2]))
    sp = S.SearchSpace(data, S.compute_neighbours(data, S.NeighbourhoodParams()))
    key = lambda a: (str(a.type), a.idx)
    base = [key(a) for a in sp.activity_order()]
    vbase = list(sp.veh_type_order())
    for _ in range(3):
        rr = Ref(g.state())
        sp.shuffle(g)
        now = [key(a) for a in sp.activity_order()]
        ctx.eq(sorted(now), sorted(base), "shuffled activities")
        vnow = list(sp.veh_type_order())
        ctx.eq(sorted(vnow), sorted(vbase), "shuffled vehicle types")
        for lst in (base, vbase):
            for k in range(len(lst) - 1, 0, -1):
                j = rr.next() % (k + 1)
                lst[k], lst[j] = lst[j], lst[k]
        ctx.eq(now, base, "order after Fisher-Yates")
        ctx.eq(vnow, vbase, "vehicle type order after Fisher-Yates")
        base, vbase = now, vnow
