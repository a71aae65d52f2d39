"""
C12: DynamicBitset. A bit set denotes the set { i < size : bit i of block i/64 };
every operation is proved against set operations for an arbitrary index (64-bit
machine arithmetic throughout), with loop invariants over the blocks.
"""
import z3
from dv import contract, loopvars
from symex import *

BS = "pyvrp::DynamicBitset"
P = r"^pyvrp::DynamicBitset::"
W = 64
MAXB = 2**40      # blocks


def K(n):
    return z3.BitVecVal(n, 64)


def blk(o, k, st):
    return o.elem("data_", k, st=st)


def n_of(o, st):
    return o.len("data_", st)


def bit(o, i, st):
    return z3.Extract(0, 0, z3.LShR(blk(o, z3.UDiv(i, K(W)), st), z3.URem(i, K(W)))) == 1


def within(o, i, st):
    return z3.ULT(i, n_of(o, st) * K(W))


def setup(v, *names):
    v.new("bv")
    out = [v.obj(BS, n) for n in names]
    for o in out:
        v.require(z3.ULE(n_of(o, v.st), K(MAXB)))
    v.st0 = v.st.copy()
    return out if len(out) > 1 else out[0]


def up_to(f):
    """Loop invariants: f(k, state) for all blocks before the loop variable, blocks from it on unchanged."""
    k = z3.BitVec("k", 64)
    def tmpl(eview, phis, modified):
        out = []
        for nm, g in loopvars(eview, phis, modified).items():
            for fn, (body, n) in f.items():
                out.append((f"{fn} before {nm}", lambda w, g=g, body=body: z3.ForAll([k], z3.Implies(z3.ULT(k, g(w)), body(k, w.st, True)))))
                out.append((f"{fn} from {nm} on", lambda w, g=g, body=body: z3.ForAll([k], z3.Implies(z3.ULE(g(w), k), body(k, w.st, False)))))
                out.append((f"{nm} <= n", lambda w, g=g, n=n: z3.ULE(g(w), n)))
        return out
    return tmpl


OPS = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b}
BOPS = {"&": z3.And, "|": z3.Or, "^": z3.Xor}


def frame(v, o, name):
    """No other bit set changes."""
    c = v.obj(BS, "other")
    k = z3.BitVec("kk", 64)
    v.ensure(f"{name}: no other bit set changes", z3.And(n_of(c, v.st) == n_of(c, v.st0), blk(c, k, v.st) == blk(c, k, v.st0)),
             also=[c.addr.idx[0] != x.addr.idx[0] for x in ([o] if o is not None else [])])


for sym in "&|^":
    def assign(v, sym=sym):
        a, b = setup(v, "a", "b")
        s0 = v.st0
        v.require(n_of(a, s0) == n_of(b, s0))
        n = n_of(a, s0)
        v.ex.loop_templates.append(up_to({"blocks": (lambda k, st, done: blk(a, k, st) == (OPS[sym](blk(a, k, s0), blk(b, k, s0)) if done else blk(a, k, s0)), n)}))
        r = v.call(P + "operator" + re_esc(sym) + r"=\(pyvrp::DynamicBitset const&\)$", a, b)
        i = z3.BitVec("i", 64)
        v.cover(extra=n == 3)
        v.ensure(f"a {sym}= b: membership", bit(a, i, v.st) == BOPS[sym](bit(a, i, s0), bit(b, i, s0)), also=[within(a, i, s0)])
        v.ensure(f"a {sym}= b: size and returned object", z3.And(n_of(a, v.st) == n, v.ex.addreq(r.alts[0][1], a.addr)))
        frame(v, a, f"a {sym}= b")
    assign.__name__ = "assign_" + {"&": "and", "|": "or", "^": "xor"}[sym]
    contract("C12", f"in-place {sym}= is the set operation")(assign)

    def binary(v, sym=sym):
        a, b = setup(v, "a", "b")
        s0 = v.st0
        v.require(n_of(a, s0) == n_of(b, s0))

        def contract_assign(ex, st, args, fn, inst):
            """Contract of the in-place operator (proved separately)."""
            ex.assumed["contract: in-place bit set operators (proved separately)"] = 1
            x, y = args[0].alts[0][1], args[1].alts[0][1]
            er = ex.elem(x.region, x.off, DATA_T)
            ey = ex.elem(y.region, y.off, DATA_T)
            ox, oy = ex.cell(st, (er, 0)), ex.cell(st, (ey, 0))
            nx = len(x.idx)
            def rd(idx):
                c = AND(*[EQ(p, q) for p, q in zip(idx[:nx], x.idx)])
                return mergev(c, OPS[sym](ox.read(idx), oy.read(tuple(y.idx) + (idx[-1],))), ox.read(idx))
            ex.bulkwrite(st, (er, 0), FnC(rd), tuple(x.idx) + (None,))
            return args[0]
        v.ex.handlers.insert(0, (lambda d: d.startswith("pyvrp::DynamicBitset::operator" + sym + "=("), contract_assign))
        r = v.call(P + "operator" + re_esc(sym) + r"\(pyvrp::DynamicBitset const&\) const$", a, b, ret=BS)
        i = z3.BitVec("i", 64)
        v.cover(extra=n_of(a, s0) == 3)
        v.ensure(f"a {sym} b: membership", bit(r, i, v.st) == BOPS[sym](bit(a, i, s0), bit(b, i, s0)), also=[within(a, i, s0)])
        v.ensure(f"a {sym} b: size", n_of(r, v.st) == n_of(a, s0))
        frame(v, None, f"a {sym} b")
    binary.__name__ = "binary_" + {"&": "and", "|": "or", "^": "xor"}[sym]
    contract("C12", f"binary {sym} is the set operation, on a new set")(binary)

DATA_T = "std::bitset<64>"


def re_esc(c):
    return {"&": "&", "|": r"\|", "^": r"\^"}[c]


@contract("C12", "complement")
def complement(v):
    a = setup(v, "a")
    s0 = v.st0
    n = n_of(a, s0)
    k = z3.BitVec("k", 64)

    def tmpl(eview, phis, modified):
        out = []
        cells = [key for key in modified if key[0].kind == "elem" and len(key) == 2]
        for nm, g in loopvars(eview, phis, modified).items():
            out.append((f"{nm} <= n", lambda w, g=g: z3.ULE(g(w), n)))
            for key in cells:
                rd = lambda w, kk, key=key: w.ex.readcell(w.st, key, (kk,)) if key[0].nidx == 1 else w.ex.readcell(w.st, key, a.addr.idx + (kk,))
                out.append((f"complemented before {nm}", lambda w, g=g, rd=rd: z3.ForAll([k], z3.Implies(z3.ULT(k, g(w)), rd(w, k) == ~blk(a, k, s0)))))
        return out
    v.ex.loop_templates.append(tmpl)
    r = v.call(P + r"operator~\(\) const$", a, ret=BS)
    i = z3.BitVec("i", 64)
    v.cover(extra=n == 3)
    v.ensure("~a: membership", bit(r, i, v.st) == z3.Not(bit(a, i, s0)), also=[within(a, i, s0)])
    v.ensure("~a: size", n_of(r, v.st) == n)
    frame(v, None, "~a")


for name, val in (("set", 2**64 - 1), ("reset", 0)):
    def fill(v, name=name, val=val):
        a = setup(v, "a")
        s0 = v.st0
        n = n_of(a, s0)
        v.ex.loop_templates.append(up_to({"blocks": (lambda k, st, done: blk(a, k, st) == (K(val) if done else blk(a, k, s0)), n)}))
        r = v.call(P + name + r"\(\)$", a)
        i = z3.BitVec("i", 64)
        v.cover(extra=n == 3)
        v.ensure(f"{name}(): every index is {'in' if val else 'out'}", bit(a, i, v.st) == bool(val), also=[within(a, i, s0)])
        v.ensure(f"{name}(): size and returned object", z3.And(n_of(a, v.st) == n, v.ex.addreq(r.alts[0][1], a.addr)))
        frame(v, a, f"{name}()")
    fill.__name__ = name
    contract("C12", f"{name}() on all indices")(fill)


@contract("C12", "all, any, none")
def quantified(v):
    a = setup(v, "a")
    s0 = v.st0
    n = n_of(a, s0)
    k, i = z3.BitVecs("k i", 64)
    v.ex.loop_templates.append(up_to({"full": (lambda k, st, done: blk(a, k, s0) == K(2**64 - 1) if done else z3.BoolVal(True), n),
                                      "empty": (lambda k, st, done: blk(a, k, s0) == K(0) if done else z3.BoolVal(True), n)}))
    full = z3.ForAll([k], z3.Implies(z3.ULT(k, n), blk(a, k, s0) == K(2**64 - 1)))
    empty = z3.ForAll([k], z3.Implies(z3.ULT(k, n), blk(a, k, s0) == K(0)))
    r = v.call(P + r"all\(\) const$", a, st=v.st.copy())
    for name, want, positive in (("all", full, True), ("any", empty, False), ("none", empty, True)):
        st = v.st0.copy()
        v.st = st
        r = v.call(P + name + r"\(\) const$", a)
        w = want if positive else z3.Not(want)
        v.ensure(f"{name}(): true only if so", IMPL(r, w))
        v.ensure(f"{name}(): true if so", IMPL(w, r))
        v.cover(f"{name}() can be true", extra=AND(r, n == 1) if name != "all" else AND(r, n == 1))
    # lemmas: from blocks to indices
    x = z3.BitVec("x", 64)
    j = z3.BitVec("j", 64)
    v.ensure("lemma: a block is full iff all its bits are set", (x == K(2**64 - 1)) == z3.And(*[z3.Extract(b, b, x) == 1 for b in range(64)]), pc=[])
    v.ensure("lemma: a block is empty iff none of its bits is set", (x == K(0)) == z3.And(*[z3.Extract(b, b, x) == 0 for b in range(64)]), pc=[])
    v.ensure("lemma: bit j of a block is the extracted bit", z3.And(*[z3.Implies(j == b, z3.Extract(0, 0, z3.LShR(x, j)) == z3.Extract(b, b, x)) for b in range(64)]), pc=[])


@contract("C12", "count is the number of indices in the set")
def count(v):
    a = setup(v, "a")
    s0 = v.st0
    n = n_of(a, s0)
    pop = z3.Function("ctpop64", z3.BitVecSort(64), z3.BitVecSort(64))
    v.ex.popexact = False
    C = z3.Function("count_upto", z3.BitVecSort(64), z3.BitVecSort(64))    # ghost: members in the first k blocks
    v.ex.facts.append(C(K(0)) == 0)

    def define(g):
        """Instance of the ghost's definition."""
        v.ex.facts.append(z3.Implies(z3.ULT(g, n), C(g + 1) == C(g) + pop(blk(a, g, s0))))
        return g

    def tmpl(eview, phis, modified):
        lv = loopvars(eview, phis, modified)
        out = []
        for x, gx in lv.items():
            out.append((f"{x} <= n", lambda w, gx=gx: z3.ULE(gx(w), n)))
            for y, gy in lv.items():
                if x != y:
                    out.append((f"{x} counts the blocks before {y}", lambda w, gx=gx, gy=gy: gx(w) == C(define(gy(w)))))
        return out
    v.ex.loop_templates.append(tmpl)
    r = v.call(P + r"count\(\) const$", a)
    v.cover(extra=n == 2)
    v.ensure("count(): sum of the blocks' population counts", r == C(n))
    s = v.call(P + r"size\(\) const$", a)
    v.ensure("size(): 64 indices per block", s == n * K(64))


@contract("C12", "construction")
def ctors(v):
    v.new("bv")
    num = z3.BitVec("num", 64)
    v.require(z3.ULE(num, K(2**40)))
    a = v.localobj(BS)
    v.call(P + r"DynamicBitset\(unsigned long\)$", a, num)
    n = n_of(a, v.st)
    i = z3.BitVec("i", 64)
    v.ensure("DynamicBitset(n): smallest multiple of 64 that is at least n", z3.And(z3.ULE(num, n * 64), z3.Or(n == 0, z3.UGT(num, (n - 1) * 64))))
    v.ensure("DynamicBitset(n): empty", z3.Not(bit(a, i, v.st)), also=[z3.ULT(i, n * 64)])
    b = setup(v, "b")
    c = v.localobj(BS)
    v.call(P + r"DynamicBitset\(std::vector<.*>\)$", c, Ptr.to(b.fieldaddr("data_")[0]))
    v.ensure("DynamicBitset(data): same size and members", z3.And(n_of(c, v.st) == n_of(b, v.st0), z3.Implies(within(b, i, v.st0), bit(c, i, v.st) == bit(b, i, v.st0))))
    b = setup(v, "b")
    d = v.call(P + r"data\(\) const$", b)
    v.ensure("data(): the stored blocks", v.ex.addreq(d.alts[0][1], b.fieldaddr("data_")[0]))


@contract("C12", "membership test and single-bit assignment")
def element(v):
    a = setup(v, "a")
    s0 = v.st0
    i, j = z3.BitVecs("i j", 64)
    v.require(within(a, i, s0), within(a, j, s0))
    v.cover()
    r = v.call(P + r"operator\[\]\(unsigned long\) const$", a, i)
    v.ensure("a[i]: membership", r == bit(a, i, s0))
    # the proxy object, then its assignment
    fn = v.find(P + r"operator\[\]\(unsigned long\)$")
    val = z3.Bool("val")
    loc = v.ex.local("ref", ctype=v.recs.get("std::bitset<64>::reference"))
    if len(fn.params) == 3:     # returned through memory
        v.call(fn, Ptr.to(Addr(loc)), a, i)
    else:
        agg = v.call(fn, a, i)
        ty = fn.blocks[0].insts[-1].ops
        v.ex.writecell(v.st, (loc, 0), (), agg.elems[0])
        v.ex.writecell(v.st, (loc, 8), (), agg.elems[1])
        loc.llty = {0: T_ptr(v), 8: v.ex.prim_ll("unsigned long")}
    v.call(r"^std::bitset<64ul>::reference::operator=\(bool\)$", Ptr.to(Addr(loc)), val)
    v.ensure("a[i] = x: sets bit i", bit(a, i, v.st) == val)
    v.ensure("a[i] = x: leaves every other bit alone", z3.Implies(j != i, bit(a, j, v.st) == bit(a, j, s0)))
    v.ensure("a[i] = x: size", n_of(a, v.st) == n_of(a, s0))
    frame(v, a, "a[i] = x")


def T_ptr(v):
    t = type(v.ex.prim_ll("unsigned long"))()
    t.kind, t.size, t.width = "ptr", 8, None
    return t


@contract("C12", "equality is equality of sets of the same size")
def equality(v):
    a, b = setup(v, "a", "b")
    s0 = v.st0
    r = v.call(P + r"operator==\(pyvrp::DynamicBitset const&\) const$", a, b)
    i, k = z3.BitVecs("i k", 64)
    eq = z3.And(n_of(a, s0) == n_of(b, s0), z3.ForAll([k], z3.Implies(z3.ULT(k, n_of(a, s0)), blk(a, k, s0) == blk(b, k, s0))))
    v.ensure("equal sets have the same members", IMPL(r, z3.And(n_of(a, s0) == n_of(b, s0), z3.Implies(within(a, i, s0), bit(a, i, s0) == bit(b, i, s0)))))
    v.ensure("sets with the same blocks are equal", IMPL(eq, r))
    x, y = z3.BitVecs("x y", 64)
    v.ensure("lemma: blocks with the same bits are equal", z3.And(*[z3.Extract(q, q, x) == z3.Extract(q, q, y) for q in range(64)]) == (x == y), pc=[])
