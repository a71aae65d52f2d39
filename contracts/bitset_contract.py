"""
Contract of DynamicBitset for its callers (proved for its implementation in C12): a set of
indices. In the model, bit i of the set at address a is element i (0 or 1) of an abstract
vector at a; operator[] requires an index below the size (recorded as an obligation).
"""
import re
import z3
from symex import *
from models import one, fill
from dv import View

T = "unsigned long"
_ANY = re.compile(r"^pyvrp::DynamicBitset::(DynamicBitset|~DynamicBitset|operator[^(]*|all|any|none|count|size|data|set|reset)\(")
_REF = re.compile(r"^std::bitset<64(ul)?>::reference::(operator=\(bool\)|operator bool\(\) const|~reference\(\))$")


def bit(ex, st, a, i):
    return ex.load_addr(st, ex.vecelem(a, T, i), ex.prim_ll("long"))


def at(ex, st, a, i):
    e = ex.vecelem(a, T, i)
    ex.obligs.append(Obligation("index into a set is below its size", list(st.pc), z3.And(0 <= as_int(i), as_int(i) < ex.veclen(st, a)), None))
    return e


def handler(ex, st, args, fn, inst):
    d = fn.dem
    name = d[len("pyvrp::DynamicBitset::"):]
    ex.assumed["contract: DynamicBitset (proved in C12)"] = 1
    if name == "DynamicBitset(unsigned long)":
        a = one(args[0])
        n = z3.Function("bitset size", z3.IntSort(), z3.IntSort())(as_int(args[1]))   # the number of bits, rounded up to whole blocks
        st.assume(z3.And(n >= args[1], n < as_int(args[1]) + 64))
        ex.setlen(st, a, n)
        z = Addr(ex.local("zero"))
        ex.store_addr(st, z, 0, ex.prim_ll("long"), True)
        fill(ex, st, a, T, z)
        ex.bitsets.append(a)
        return None
    if name == "operator[](unsigned long) const":
        e = at(ex, st, one(args[0]), args[1])
        return ex.load_addr(st, e, ex.prim_ll("long")) == 1
    if name == "operator[](unsigned long)":
        e = at(ex, st, one(args[1]), args[2])
        r = one(args[0])
        ex.store_addr(st, r, Ptr.to(e), ex.prim_ll("pointer"), True)
        return None
    if name == "operator==(pyvrp::DynamicBitset const&) const":
        a, b = one(args[0]), one(args[1])
        k = ex.fresh("k")
        n = ex.veclen(st, a)
        return AND(EQ(n, ex.veclen(st, b)), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), bit(ex, st, a, k) == bit(ex, st, b, k))))
    if name == "~DynamicBitset()":
        return None
    raise Unsupported(f"DynamicBitset::{name}")


def reference(ex, st, args, fn, inst):
    if "~reference" in fn.dem:
        return None
    p = ex.load(st, args[0], ex.prim_ll("pointer"))
    if "operator bool" in fn.dem:
        return ex.load(st, p, ex.prim_ll("long")) == 1
    b = ex.asbool(args[1])
    for c, e in p.alts:
        ex.store_addr(st, e, ITE(b, 1, 0), ex.prim_ll("long"), c)
    return args[0]


def install(v):
    ex = v.ex
    ex.bitsets = []
    ex.handlers.insert(0, (lambda d: bool(_ANY.match(d)), handler))
    ex.handlers.insert(0, (lambda d: bool(_REF.match(d)), reference))


def ensure_indices(v, hyp=()):
    """Every index used was below the size of its set."""
    for j, o in enumerate(o for o in v.ex.obligs if o.name.startswith("index into a set")):
        v.ensure(f"{o.name} ({j})", o.goal, pc=o.pc + list(hyp))
