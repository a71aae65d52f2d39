"""
C13: RandomNumberGenerator. One step is Marsaglia's xor128 on the 128-bit state
(the sequence follows by induction on the number of calls), exporting the state
and importing it again is the identity, bounded draws stay in range, and a
shuffle rearranges (ghost permutation, loop invariant).
"""
import z3
from dv import contract
from symex import *

RNG = "pyvrp::RandomNumberGenerator"
STEP = r"^pyvrp::RandomNumberGenerator::operator\(\)\(\)$"


def state(v, addr, st=None):
    """The four 32-bit words of the generator's state."""
    ty = v.ex.prim_ll("unsigned int")
    return [v.ex.load_addr(st or v.st, Addr(addr.region, addr.idx, addr.off + 4 * k), ty) for k in range(4)]


def is_step(ex, d):
    return d.startswith("pyvrp::RandomNumberGenerator::operator()()")


def any_word(ex, st, args, fn, inst):
    """Contract of operator(): some 32-bit value; the state changes."""
    a = args[0].alts[0][1]
    ex.assumed["contract: RandomNumberGenerator::operator() (proved below)"] = 1
    ty = ex.prim_ll("unsigned int")
    for k in range(4):
        ex.store_addr(st, Addr(a.region, a.idx, a.off + 4 * k), ex.fresh("word", ("w", 32)), ty, True)
    x = ex.fresh("draw", ("w", 32))
    if ex.mode == "int":
        ex.setrng(x, -2**31, 2**31 - 1)
    ex.draw = x
    return x


@contract("C13", "one step is xor128")
def step(v):
    v.new("bv")
    g = v.obj(RNG, "g")
    a, b, c, d = state(v, g.addr)
    r = v.call(STEP, g)
    t = d ^ (d << 11)
    t = t ^ z3.LShR(t, 8)
    new = t ^ a ^ z3.LShR(a, 19)
    s = state(v, g.addr)
    v.ensure("operator(): returns the next xor128 value", r == new)
    v.ensure("operator(): new state", z3.And(s[0] == new, s[1] == a, s[2] == b, s[3] == c))
    other = v.obj(RNG, "h")
    o0 = state(v, other.addr, State())
    o1 = state(v, other.addr)
    v.ensure("operator(): no other generator changes", z3.And(*[x == y for x, y in zip(o0, o1)]), also=[other.addr.idx[0] != g.addr.idx[0]])


@contract("C13", "seeding, exporting and importing the state")
def seeding(v):
    v.new("bv")
    g = v.obj(RNG, "g")
    seed = z3.BitVec("seed", 32)
    v.call(r"^pyvrp::RandomNumberGenerator::RandomNumberGenerator\(unsigned int\)$", g, seed)
    s = state(v, g.addr)
    v.ensure("seed: initial state", z3.And(s[0] == seed, s[1] == 123456789, s[2] == 362436069, s[3] == 521288629))
    h, k = v.obj(RNG, "h"), v.obj(RNG, "k")
    v.require(h.addr.idx[0] != k.addr.idx[0])
    p = v.call(r"^pyvrp::RandomNumberGenerator::state\(\) const$", h)
    out = state(v, p.alts[0][1])
    v.ensure("state(): exports the four words", z3.And(*[x == y for x, y in zip(out, state(v, h.addr))]))
    fn = v.find(r"^pyvrp::RandomNumberGenerator::RandomNumberGenerator\(std::array<unsigned int, 4ul>\)$")
    if len(fn.params) == 3:     # passed as two 64-bit words
        lo, hi = z3.Concat(out[1], out[0]), z3.Concat(out[3], out[2])
        v.call(fn, k, lo, hi)
    else:
        v.call(fn, k, p)
    v.ensure("import of an exported state continues the same generator", z3.And(*[x == y for x, y in zip(state(v, k.addr), out)]))


for T, w in (("unsigned int", 32), ("unsigned long", 64), ("int", 32)):
    def bounded(v, T=T, w=w):
        v.new("bv")
        v.ex.handlers.insert(0, (lambda d: is_step(v.ex, d), any_word))
        g = v.obj(RNG, "g")
        high = z3.BitVec("high", w)
        v.require(high > 0 if T == "int" else high != 0)
        v.cover()
        r = v.call(rf"^unsigned int pyvrp::RandomNumberGenerator::randint<{T}>\({T}\)$", g, high)
        r64, h64 = z3.ZeroExt(32, r), z3.ZeroExt(64 - w, high) if w < 64 else high
        v.ensure(f"randint<{T}>: below the bound", z3.ULT(r64, h64))
        v.ensure(f"randint<{T}>: draws from the generator", z3.Implies(z3.UGT(h64, z3.ZeroExt(32, v.ex.draw)), r == v.ex.draw))
    bounded.__name__ = "bounded_" + T.replace(" ", "")
    contract("C13", f"randint<{T}> stays within the bound")(bounded)


@contract("C13", "rand stays within [0, 1]")
def rand(v):
    v.ex.handlers.insert(0, (lambda d: is_step(v.ex, d), any_word))
    g = v.obj(RNG, "g")
    r = v.call(r"^pyvrp::RandomNumberGenerator::rand\(\)$", g)
    v.ensure("rand: within [0, 1]", z3.And(r >= 0, r <= 1))


@contract("C13", "shuffle permutes its range and touches nothing else")
def shuffle(v):
    ex = v.ex
    ghost = Region("ghost", "perm", 1)

    def randint(ex, st, args, fn, inst):
        ex.assumed["contract: randint(high) in [0, high) for 0 < high (proved above)"] = 1
        hi = plain(args[1])
        x = ex.fresh("r", ("w", 32))
        ex.oblige(f"randint called with a positive bound (line {inst.line})", st, hi > 0)
        st.assume(z3.And(x >= 0, x < hi))
        ex.setrng(x, 0, 2**31 - 1)
        return x

    def swap(ex, st, args, fn, inst):
        """Executes the real std::swap; the ghost permutation is swapped along."""
        a, b = (ex.normaddr(p.alts[0][1]) for p in args)
        i, j = a.idx[-1], b.idx[-1]
        x, y = ex.readcell(st, (ghost, 0), (i,)), ex.readcell(st, (ghost, 0), (j,))
        r, st = ex.call_function(fn, args, st)
        ex.writecell(st, (ghost, 0), (i,), y)
        ex.writecell(st, (ghost, 0), (j,), x)
        return r, st

    ex.handlers.insert(0, (lambda d: "RandomNumberGenerator::randint<" in d, randint))
    ex.handlers.insert(0, (lambda d: "std::swap<unsigned long>(" in d, swap))
    vec = Region("heap", "vector", 1, ctype="std::vector<unsigned long>")
    me = v.int("vec")
    er = ex.elem(vec, 0, "unsigned long")
    ghost.ctype = "unsigned long"
    lo, n = v.int("lo", 0, 2**40), v.int("n", 0, 2**31 - 1)
    first, last = Addr(er, (me, lo)), Addr(er, (me, ADD(lo, n)))
    i, j, e = z3.Ints("i j e")
    v.require(z3.ForAll([i], ex.readcell(v.st, (ghost, 0), (i,)) == i))
    st0 = v.st.copy()
    orig = lambda k: ex.readcell(st0, (er, 0), (me, k))

    def perm(st):
        return lambda k: ex.readcell(st, (ghost, 0), (k,))

    def inr(k):
        return z3.And(k >= lo, k < lo + n)

    def facts(st):
        p = perm(st)
        return [("elements are the original ones, rearranged", z3.ForAll([i], z3.Implies(inr(i), ex.readcell(st, (er, 0), (me, i)) == orig(p(i))))),
                ("the rearrangement stays within the range", z3.ForAll([i], z3.Implies(inr(i), inr(p(i))))),
                ("no element is lost or duplicated", z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), p(i) != p(j)))),
                ("elements outside the range are unchanged", z3.ForAll([i], z3.Implies(z3.Not(inr(i)), ex.readcell(st, (er, 0), (me, i)) == orig(i))))]

    def tmpl(eview, phis, modified):
        out = []
        for k in range(4):
            out.append((f"perm{k}", lambda w, k=k: facts(w.st)[k][1]))
        for ph in phis:
            if ph.type.kind == "int":
                out.append((f"{ph.name} >= -1", lambda w, ph=ph: w.phis[ph] >= -1))
                out.append((f"{ph.name} >= 0", lambda w, ph=ph: w.phis[ph] >= 0))
                out.append((f"{ph.name} < n", lambda w, ph=ph: w.phis[ph] < n))
                out.append((f"{ph.name} <= n", lambda w, ph=ph: w.phis[ph] <= n))
        return out
    ex.loop_templates.append(tmpl)
    g = v.obj(RNG, "g")
    v.call(r"RandomNumberGenerator::shuffle<.*unsigned long\*.*>\(", g, Ptr.to(first), Ptr.to(last))
    v.cover("shuffle terminates normally for some input", extra=z3.And(n >= 2))
    for nm, f in facts(v.st):
        v.ensure(f"shuffle: {nm}", f)
    for o in ex.obligs:
        v.ensure(f"shuffle: {o.name}", o.goal, pc=o.pc)
