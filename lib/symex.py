"""
Verification-condition generator for LLVM IR extracted from /repo.

Forward symbolic execution with state merging at joins (so each block of a
function body is executed once per pass, as in a passified weakest-precondition
calculus), loops cut at their headers by inductive invariants (candidate
templates filtered to the largest inductive subset, Houdini style), callee
contracts or bodies at calls, and obligations discharged by z3/cvc5.

Integers are mathematical with exact wrap-around where the source arithmetic is
unsigned (mode 'int'), or bit vectors (mode 'bv'). Floating point multiplication
is uninterpreted up to sign and zero axioms.
"""
import itertools
import re
import time
import z3

import layouts as LY

I64MAX = 2**63 - 1


class Unsupported(Exception):
    pass


class Killed(Exception):
    """The current path ends here (throw, unreachable)."""


# ----------------------------------------------------------------- values
class Region:
    _n = itertools.count()
    def __init__(self, kind, name, nidx, ctype=None, ll=None, stride=None):
        self.kind, self.name, self.nidx, self.ctype, self.ll, self.stride = kind, name, nidx, ctype, ll, stride
        self.uid = next(Region._n)
    def __repr__(self):
        return f"R<{self.name}>"


class Addr:
    __slots__ = ("region", "idx", "off")
    def __init__(self, region, idx=(), off=0):
        self.region, self.idx, self.off = region, tuple(idx), off
    def __repr__(self):
        return f"&{self.region.name}{list(self.idx)}+{self.off}"


NULLR = Region("null", "null", 0)
NULL = Addr(NULLR)


class Ptr:
    __slots__ = ("alts",)
    def __init__(self, alts):
        self.alts = alts
    def __repr__(self):
        return "Ptr" + repr(self.alts)
    @staticmethod
    def to(addr):
        return Ptr([(True, addr)])


class PtrInt:
    def __init__(self, ptr):
        self.ptr = ptr


class ByteDiff:
    def __init__(self, count, stride, const):
        self.count, self.stride, self.const = count, stride, const


class Agg:
    def __init__(self, elems):
        self.elems = list(elems)
    def __repr__(self):
        return f"Agg{self.elems}"


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def is_const(x):
    return isinstance(x, (int, bool))


def AND(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMPL(a, b):
    return OR(NOT(a), b)


def same(a, b):
    if a is b:
        return True
    if is_const(a) and is_const(b):
        return a == b
    if is_const(a) or is_const(b):
        return False
    try:
        return a.eq(b)
    except Exception:
        return False


def EQ(a, b):
    if same(a, b):
        return True
    if is_const(a) and is_const(b):
        return a == b
    if isinstance(a, bool):
        return b if a else NOT(b)
    if isinstance(b, bool):
        return a if b else NOT(a)
    # cheap linear normalisation: x + c == x + d
    la, ca = lin(a)
    lb, cb = lin(b)
    if la is not None and lb is not None and same(la, lb):
        return ca == cb
    return a == b


def lin(e):
    """e = base + const, for syntactic offset comparisons."""
    if isinstance(e, int):
        return 0, e
    if z3.is_int(e) and z3.is_add(e) and e.num_args() == 2:
        x, y = e.arg(0), e.arg(1)
        if z3.is_int_value(y):
            return x, y.as_long()
        if z3.is_int_value(x):
            return y, x.as_long()
    if z3.is_int_value(e):
        return 0, e.as_long()
    return e, 0


def ITE(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else NOT(c)
    if isinstance(a, bool):
        return OR(c, b) if a else AND(NOT(c), b)
    if isinstance(b, bool):
        return OR(NOT(c), a) if b else AND(c, a)
    if isinstance(a, int) and isinstance(b, int):
        return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    return z3.If(c, a, b)


def ADD(a, b):
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if b == 0:
            return a
        x, c = lin(a)
        if c:
            if c + b == 0:
                return x
            return (c + b) if same(x, 0) else x + (c + b)
        return a + b
    return a + b


def SUB(a, b):
    if is_const(b):
        return ADD(a, -b)
    if same(a, b):
        return 0
    la, ca = lin(a)
    lb, cb = lin(b)
    if same(la, lb):
        return ca - cb
    return a - b


def MUL(a, b):
    if is_const(a) and is_const(b):
        return a * b
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return a * b


# -------------------------------------------------- memory cell contents
class Base:
    def __init__(self, fn):
        self.fn = fn
    def read(self, idx):
        return self.fn(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]) if idx else self.fn()


class Upd:
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val
    def read(self, idx):
        c = AND(*[EQ(a, b) for a, b in zip(idx, self.idx)])
        if c is True:
            return self.val
        if c is False:
            return self.prev.read(idx)
        return mergev(c, self.val, self.prev.read(idx))


class IteC:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
    def read(self, idx):
        return mergev(self.c, self.a.read(idx), self.b.read(idx))


class FnC:
    def __init__(self, f):
        self.f = f
    def read(self, idx):
        return self.f(tuple(idx))


class Scalar:
    """Cell of a region without indices."""
    def __init__(self, val):
        self.val = val
    def read(self, idx):
        return self.val


def mergev(c, a, b):
    """Value equal to a if c else b."""
    if c is True or a is b:
        return a
    if c is False:
        return b
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported("merge of pointer and non-pointer")
        if len(a.alts) == 1 and len(b.alts) == 1:
            x, y = a.alts[0][1], b.alts[0][1]
            if x.region is y.region and x.off == y.off and (x.region.kind == "elem" or all(same(p, q) for p, q in zip(x.idx, y.idx))):
                idx = [ITE(c, p, q) for p, q in zip(x.idx, y.idx)]
                return Ptr.to(Addr(x.region, idx, x.off))
        alts = [(AND(c, g), x) for g, x in a.alts] + [(AND(NOT(c), g), x) for g, x in b.alts]
        return Ptr([(g, x) for g, x in alts if g is not False])
    if isinstance(a, Agg):
        return Agg([mergev(c, x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, PtrInt):
        return PtrInt(mergev(c, a.ptr, b.ptr))
    if isinstance(a, ByteDiff) or isinstance(b, ByteDiff):
        return ITE(c, plain(a), plain(b))
    return ITE(c, a, b)


def plain(x):
    if isinstance(x, ByteDiff):
        return ADD(MUL(x.count, x.stride), x.const)
    return x


class State:
    __slots__ = ("pc", "mem")
    def __init__(self, pc=(), mem=None):
        self.pc = list(pc)
        self.mem = dict(mem or {})
    def copy(self):
        return State(self.pc, self.mem)
    def assume(self, f):
        if f is True:
            return
        self.pc.append(f if not isinstance(f, bool) else z3.BoolVal(f))


def common_prefix(pcs):
    n = 0
    for t in zip(*pcs):
        if all(x is t[0] or x.eq(t[0]) for x in t):
            n += 1
        else:
            break
    return n


def merge_states(states):
    """Returns (merged state, list of deltas) for mutually exclusive states."""
    if len(states) == 1:
        return states[0], [True]
    n = common_prefix([s.pc for s in states])
    deltas = [AND(*s.pc[n:]) for s in states]
    out = State(states[0].pc[:n])
    d = OR(*deltas)
    if len(states) == 2 and d is not True and not isinstance(d, bool):
        a, b = states[0].pc[n:], states[1].pc[n:]
        if len(a) == 1 and len(b) == 1 and same(NOT(a[0]), b[0]):
            d = True
        elif a and b and (same(NOT(a[0]), b[0]) or same(a[0], NOT(b[0]))):
            # if c then A else B, keep as two implications
            d = AND(IMPL(a[0], AND(*a[1:])), IMPL(b[0], AND(*b[1:])))
            deltas = [a[0], b[0]]
    if d is not True:
        out.pc.append(d if not isinstance(d, bool) else z3.BoolVal(d))
    keys = set()
    for s in states:
        keys.update(s.mem)
    for k in keys:
        cs = [s.mem.get(k) for s in states]
        if all(c is cs[0] for c in cs):
            out.mem[k] = cs[0]
            continue
        region = k[0]
        acc = None
        for dlt, c in reversed(list(zip(deltas, cs))):
            if c is None:
                if region.kind == "local":
                    c = Scalar(UNDEF) if region.nidx == 0 else None
                if c is None:
                    c = MISSING(k)
            if acc is None or acc is c:
                acc = c
            elif isinstance(c, Scalar) and isinstance(acc, Scalar):
                acc = Scalar(mergev(dlt, c.val, acc.val))
            else:
                acc = IteC(dlt, c, acc)
        out.mem[k] = acc
    return out, deltas


_missing = {}
def MISSING(k):
    return _missing_fn(k)


_missing_fn = None


# ------------------------------------------------------------ the executor
class LoopInfo:
    pass


def loops_of(fn):
    """Natural loops: {header: set(blocks)}; RPO order ignoring unwind edges."""
    if hasattr(fn, "_loops"):
        return fn._loops
    blocks = fn.blocks
    entry = blocks[0]
    def succs(b):
        t = b.insts[-1]
        if t.op == "invoke":
            return [t.normal]
        return b.succs
    order, seen = [], set()
    stack = [(entry, iter(succs(entry)))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(s))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [p for p in b.preds if p in num and b in succs(p)] for b in rpo}
    # dominators
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x is not y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) is not n:
                idom[b] = n
                changed = True
    def dominates(a, b):
        while True:
            if a is b:
                return True
            if b is entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(b):
            if num[s] <= num[b]:
                if not dominates(s, b):
                    raise Unsupported(f"irreducible loop in {fn.dem}")
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
    fn._loops = (rpo, loops)
    return fn._loops


class LoopView:
    """What an invariant candidate may look at: header phis and memory of one state."""
    def __init__(self, ex, phis, st, entry_phis, entry_st, fn, header, env):
        self.ex, self.phis, self.st, self.entry_phis, self.entry_st = ex, phis, st, entry_phis, entry_st
        self.fn, self.header, self.env = fn, header, env


class Obligation:
    def __init__(self, name, pc, goal, where):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where
        self.status, self.time, self.model, self.backend = None, 0.0, None, None


class Executor:
    def __init__(self, module, recs, mode="int", overflow=False, timeout=10000):
        self.m, self.recs, self.mode = module, recs, mode
        self.overflow = overflow
        self.timeout = timeout
        self.facts = []
        self.axioms = []
        self.heaps, self.elems, self.globals_ = {}, {}, {}
        self.bases = {}
        self.counter = itertools.count()
        self.throws = []          # path conditions that throw
        self.obligs = []
        self.handlers = []        # (predicate, handler) contracts/models, first match wins
        self.loop_templates = []  # functions: LoopView -> list[(name, fn(view)->formula)]
        self.writelog = None
        self.depth = 0
        self.stepped = {}         # functions whose bodies were executed
        self.assumed = {}         # models/contracts used
        self.rngs = {}
        self.z3time = 0.0
        self.nqueries = 0
        self.loopstats = []
        self.inv_cache = {}
        self.ptr_targets = {}     # (ctype name, off) -> class name, for pointers in heap cells
        self.elem_alias = {}      # (region name, off) -> function(parent idx, i) -> Addr, for vectors of objects that are pointed to
        self.fpmul_exact = False
        global _missing_fn
        _missing_fn = self.base_content

    # ---- symbols
    def fresh(self, name, sort="int"):
        n = f"{name}!{next(self.counter)}"
        return self.const(n, sort)
    def const(self, n, sort="int"):
        if sort == "int":
            return z3.Int(n) if self.mode == "int" else z3.BitVec(n, 64)
        if sort == "bool":
            return z3.Bool(n)
        if sort == "real":
            return z3.Real(n)
        if isinstance(sort, tuple):
            return z3.BitVec(n, sort[1]) if self.mode == "bv" else z3.Int(n)
        raise Unsupported(sort)
    def idxsort(self):
        return z3.IntSort() if self.mode == "int" else z3.BitVecSort(64)
    def zsort(self, ty):
        if ty.kind in ("double", "float"):
            return z3.RealSort()
        if ty.kind == "ptr":
            return self.idxsort()
        if ty.kind == "int":
            return z3.IntSort() if self.mode == "int" else z3.BitVecSort(ty.width)
        raise Unsupported(f"cell of type {ty}")

    # ---- regions
    def heap(self, cls):
        if cls not in self.heaps:
            self.heaps[cls] = Region("heap", cls, 1, ctype=self.recs.get(cls))
        return self.heaps[cls]
    def obj(self, cls, ident):
        """Pointer to the heap object of class cls with the given identity term."""
        return Ptr.to(Addr(self.heap(cls), (ident,), 0))
    def local(self, name, ll=None, ctype=None):
        return Region("local", f"{name}#{next(self.counter)}", 0, ctype=ctype, ll=ll)
    def elem(self, region, off, tname):
        key = (region, off)
        if key not in self.elems:
            tname = LY.norm(tname)
            try:
                size = LY.sizeof(self.recs, tname)
            except KeyError:
                raise Unsupported(f"element size of {tname}")
            self.elems[key] = Region("elem", f"{region.name}.{self.fname(region, off)}[]", region.nidx + 1,
                                     ctype=self.recs.get(tname) or tname, stride=size)
            self.elems[key].parent = (region, off)
            self.elems[key].tname = tname
        return self.elems[key]
    def fname(self, region, off):
        c = region.ctype
        if isinstance(c, LY.Record):
            f = c.leaf_at(off)
            if f is not None and f.off == off:
                return f.name if f.name != "value" else str(off)
        return str(off)

    # ---- cells
    def base_content(self, key):
        if key not in self.bases:
            region, off = key[0], key[1]
            if region.kind in ("local",) and region.nidx == 0:
                return Scalar(UNDEF)
            tag = key[2] if len(key) > 2 else None
            name = f"{region.name}.{self.fname(region, off)}" + (f"#{tag}" if tag else "")
            if tag == "len":
                sort = self.idxsort()
            else:
                sort = region_sorts(self, region, off)
            f = z3.Function(name, *([self.idxsort()] * region.nidx), sort) if region.nidx else None
            if region.nidx == 0:
                self.bases[key] = Scalar(z3.Const(name, sort))
            else:
                self.bases[key] = Base(f)
            self.basefn = getattr(self, "basefn", {})
            self.basefn[key] = f
        return self.bases[key]
    def cell(self, st, key):
        c = st.mem.get(key)
        return c if c is not None else self.base_content(key)
    def readcell(self, st, key, idx):
        return self.cell(st, key).read(idx)
    def writecell(self, st, key, idx, val):
        region = key[0]
        if region.nidx == 0:
            st.mem[key] = Scalar(val)
        else:
            st.mem[key] = Upd(self.cell(st, key), tuple(idx), val)
        if self.writelog is not None:
            self.writelog.append((key, tuple(idx)))
    def bulkwrite(self, st, key, content, idxpat):
        st.mem[key] = content
        if self.writelog is not None:
            self.writelog.append((key, tuple(idxpat)))

    # ---- vectors
    def veclen(self, st, a):
        v = self.readcell(st, (a.region, a.off, "len"), a.idx)
        if isinstance(v, Undef):
            return 0
        if not is_const(v) and self.mode == "int":
            self.note_len(v)
        return v
    def note_len(self, v):
        if v.get_id() not in self.rngs and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            self.setrng(v, 0, 2**40)
    def setrng(self, v, lo, hi):
        self.rngs[v.get_id()] = (lo, hi, v)
        self.facts.append(z3.And(v >= lo, v <= hi))
    def setlen(self, st, a, n):
        self.writecell(st, (a.region, a.off, "len"), a.idx, n)
    def vecelem(self, a, tname, i):
        """Address of element i of the vector at address a."""
        al = self.elem_alias.get((a.region.name, a.off))
        if al:
            return al(a.idx, i)
        r = self.elem(a.region, a.off, tname)
        return Addr(r, a.idx + (i,), 0)
    def leaf_cells(self, tname):
        """[(offset, kind, subtype)] of the scalar/vector leaves of a C++ type."""
        tname = LY.norm(tname)
        if tname.startswith("std::vector<"):
            return [(0, "vec", vec_arg(tname))]
        rec = self.recs.get(tname)
        if rec is None or tname in LY.PRIM:
            return [(0, "scalar", tname)]
        out = []
        def walk(kids):
            for k in kids:
                if k.name.endswith("(empty)"):
                    continue
                if k.type.startswith("std::vector<"):
                    out.append((k.off, "vec", vec_arg(k.type)))
                elif k.kids:
                    walk(k.kids)
                else:
                    out.append((k.off, "scalar", k.type))
        walk(rec.kids)
        return out
    def copy_obj(self, st, tname, src, dst):
        """Copies one object of type tname from Addr src to Addr dst (deep for vectors)."""
        for off, kind, sub in self.leaf_cells(tname):
            s, d = Addr(src.region, src.idx, src.off + off), Addr(dst.region, dst.idx, dst.off + off)
            if kind == "scalar":
                sk = (s.region, s.off)
                v = self.readcell(st, sk, s.idx)
                self.store_cell(st, d, v, sub)
            else:
                self.copy_vec(st, sub, s, d)
    def store_cell(self, st, d, v, tname=None):
        if isinstance(v, Ptr) and d.region.nidx > 0:
            v = self.encode_ptr(v)
        elif d.region.nidx == 0 and tname is not None and tname.endswith(("*", "&")) and not isinstance(v, (Ptr, Undef)):
            v = self.decode_ptr(v, tname)
        self.writecell(st, (d.region, d.off), d.idx, v)
    def copy_vec(self, st, elemt, s, d, lo=None, hi=None):
        n = self.veclen(st, s)
        self.setlen(st, d, n)
        self.copy_elems(st, elemt, s, d)
    def copy_elems(self, st, elemt, s, d, map_=None):
        """dst vector element i := src vector element map(i) (snapshot of st)."""
        sr = self.elem(s.region, s.off, elemt)
        dr = self.elem(d.region, d.off, elemt)
        self._copy_fam(st, elemt, sr, s.idx, dr, d.idx, 0, map_ or (lambda i: i), dict(st.mem))
    def _copy_fam(self, st, t, sr, sidx, dr, didx, base, map_, snap):
        ns, nd = len(sidx), len(didx)
        for off, kind, sub in self.leaf_cells(t):
            o = base + off
            keys = [((sr, o), (dr, o))] if kind == "scalar" else [((sr, o, "len"), (dr, o, "len"))]
            for sk, dk in keys:
                sc = snap.get(sk) or self.base_content(sk)
                prev = self.cell(st, dk)
                def f(idx, sc=sc, prev=prev):
                    c = AND(*[EQ(x, y) for x, y in zip(idx[:nd], didx)])
                    i = idx[nd]
                    if c is False:
                        return prev.read(idx)
                    v = sc.read(tuple(sidx) + (map_(i),) + tuple(idx[nd + 1:]))
                    return v if c is True else mergev(c, v, prev.read(idx))
                self.bulkwrite(st, dk, FnC(f), tuple(didx) + (None,) * (dr.nidx - nd))
            if kind == "vec":
                sr2, dr2 = self.elem(sr, o, sub), self.elem(dr, o, sub)
                self._copy_fam2(st, sub, sr2, sidx, dr2, didx, map_, snap)
    def _copy_fam2(self, st, t, sr, sidx, dr, didx, map_, snap):
        # nested: indices are parent idx + (i, j); only the first new index is mapped
        ns, nd = len(sidx), len(didx)
        for off, kind, sub in self.leaf_cells(t):
            sk, dk = ((sr, off), (dr, off)) if kind == "scalar" else ((sr, off, "len"), (dr, off, "len"))
            sc = snap.get(sk) or self.base_content(sk)
            prev = self.cell(st, dk)
            def f(idx, sc=sc, prev=prev):
                c = AND(*[EQ(x, y) for x, y in zip(idx[:nd], didx)])
                if c is False:
                    return prev.read(idx)
                v = sc.read(tuple(sidx) + (map_(idx[nd]),) + tuple(idx[nd + 1:]))
                return v if c is True else mergev(c, v, prev.read(idx))
            self.bulkwrite(st, dk, FnC(f), tuple(didx) + (None,) * (dr.nidx - nd))
            if kind == "vec":
                self._copy_fam2(st, sub, self.elem(sr, off, sub), sidx, self.elem(dr, off, sub), didx, map_, snap)

    # ---- pointers in heap cells
    def encode_ptr(self, p):
        acc = None
        for c, a in reversed(p.alts):
            if a.region.kind == "null":
                v = 0 if self.mode == "int" else z3.BitVecVal(0, 64)
            elif a.region.kind == "heap" and a.off == 0:
                v = a.idx[0]
            else:
                raise Unsupported(f"storing pointer {a} in indexed memory")
            acc = v if acc is None else ITE(c, v, acc)
        return acc
    def decode_ptr(self, ident, tname):
        cls = self.resolve(tname)
        return self.obj(cls, ident)
    def resolve(self, tname):
        t = LY.norm(tname).rstrip("*&").strip()
        if t in self.ptr_targets:
            return self.ptr_targets[t]
        if t in self.recs:
            return t
        c = [r for r in self.recs if r.endswith("::" + t)]
        if len(c) == 1:
            return c[0]
        raise Unsupported(f"pointer target {tname}: {c[:3]}")
    def cell_type(self, region, off):
        c = region.ctype
        if isinstance(c, LY.Record):
            f = c.leaf_at(off)
            return f.type if f else None
        if isinstance(c, str):
            return c
        return None

    # ---- load/store
    def load(self, st, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported(f"load through {p}")
        acc = None
        for c, a in reversed(p.alts):
            if a.region.kind == "null":
                continue  # dereferencing null is undefined; the other alternatives remain
            v = self.load_addr(st, a, ty)
            acc = v if acc is None else mergev(c, v, acc)
        if acc is None:
            raise Killed()
        return acc
    def load_addr(self, st, a, ty):
        if ty.kind == "struct":
            return Agg([self.load_addr(st, Addr(a.region, a.idx, a.off + o), t) for o, t in zip(ty.offs, ty.elems)])
        if ty.kind == "array":
            return Agg([self.load_addr(st, Addr(a.region, a.idx, a.off + k * ty.elem.size), ty.elem) for k in range(ty.n)])
        a = self.normaddr(a)
        r = a.region
        if r.kind == "global":
            return self.load_global(r, a.off, ty)
        key = (r, a.off)
        if not hasattr(r, "llty"):
            r.llty = {}
        if key not in st.mem and r.kind == "local":
            w = r.llty.get(a.off)
            # reading part of / a union of cells
            v = self.load_split(st, a, ty)
            if v is None:
                v = self.load_within(st, a, ty)
            if v is not None:
                return v
            return UNDEF
        old = r.llty.setdefault(a.off, ty)
        if old.kind == "int" and ty.kind == "int" and old.width != ty.width:
            v = self.load_split(st, a, ty)
            if v is not None:
                return v
            raise Unsupported(f"load width mismatch at {a}: {old} vs {ty}")
        if old.kind != ty.kind and not (r.kind == "local"):
            raise Unsupported(f"load type mismatch at {a}: {old} vs {ty}")
        v = self.readcell(st, key, a.idx)
        if ty.kind == "ptr" and not isinstance(v, (Ptr, Undef)):
            if isinstance(v, int) and v == 0:
                return Ptr.to(NULL)
            t = self.cell_type(r, a.off)
            if t is None:
                raise Unsupported(f"pointer cell of unknown type at {a}")
            return self.decode_ptr(v, t)
        if ty.kind == "int" and isinstance(v, (PtrInt, Ptr)):
            return v
        if ty.kind == "int" and self.mode == "int" and not is_const(v) and z3.is_expr(v):
            self.typerange(v, ty, self.cell_type(r, a.off))
        return v
    def typerange(self, v, ty, ct):
        i = v.get_id()
        if i in self.rngs or not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return
        if ct in ("unsigned long", "size_t"):
            self.setrng(v, 0, 2**63 - 1)
        elif ct == "bool":
            self.setrng(v, 0, 1)
        elif ty.width == 64:
            self.setrng(v, -2**63, 2**63 - 1)
        elif ty.width == 32:
            self.setrng(v, -2**31, 2**31 - 1)
        elif ty.width == 8:
            self.setrng(v, 0, 1)
    def load_split(self, st, a, ty):
        r = a.region
        if ty.kind != "int":
            return None
        w = ty.width // 8
        # smaller load from a wider cell at the same offset (little endian)
        c = st.mem.get((r, a.off))
        lt = getattr(r, "llty", {}).get(a.off)
        if c is not None and lt is not None and lt.kind == "int" and lt.width > ty.width:
            return self.trunc(c.read(a.idx), lt.width, ty.width)
        # wider load from consecutive smaller cells
        parts, o = [], a.off
        while o < a.off + w:
            lt = getattr(r, "llty", {}).get(o)
            c = st.mem.get((r, o))
            if lt is None or lt.kind != "int" or c is None:
                return None
            parts.append((c.read(a.idx), lt.width))
            o += lt.width // 8
        acc, sh = 0, 0
        for v, wd in parts:
            if isinstance(v, Undef):
                v = self.fresh("undef", ("w", wd))
            if self.mode == "bv":
                x = z3.ZeroExt(ty.width - wd, self.bv(v, wd)) << sh if wd < ty.width else self.bv(v, wd)
                acc = x if is_const(acc) else acc | x
            else:
                acc = ADD(acc, MUL(self.unsigned(v, wd), 2**sh))
            sh += wd
        return acc if self.mode == "bv" else self.wrap(acc, ty.width)
    def load_within(self, st, a, ty):
        """Narrow load from the inside of a wider integer cell."""
        if ty.kind != "int" or ty.width % 8:
            return None
        for o, lt in getattr(a.region, "llty", {}).items():
            if lt.kind == "int" and o < a.off and a.off + ty.width // 8 <= o + lt.width // 8:
                c = st.mem.get((a.region, o))
                if c is None:
                    continue
                v = c.read(a.idx)
                if isinstance(v, (Undef, Ptr, PtrInt)):
                    return None
                return self.piece(v, lt.width, (a.off - o) * 8, ty.width)
        return None
    def piece(self, v, w, sh, w1):
        """Bits [sh, sh + w1) of the w-bit value v."""
        v = plain(v)
        if self.mode == "bv":
            return z3.Extract(sh + w1 - 1, sh, self.bv(v, w))
        u = self.unsigned(v, w)
        return self.wrap(u >> sh if is_const(u) else u / (1 << sh), w1)
    def split_overlaps(self, st, a, ty):
        """Before a store of type ty at a: cells that overlap it with another extent."""
        r = a.region
        size = ty.size if ty.kind != "int" else (ty.width + 7) // 8
        for o, lt in list(getattr(r, "llty", {}).items()):
            if o == a.off and lt.size == ty.size:
                continue
            ls = lt.size if lt.kind != "int" else (lt.width + 7) // 8
            if o + ls <= a.off or a.off + size <= o or (r, o) not in st.mem:
                continue
            if o == a.off and ls <= size:
                continue
            if r.nidx:
                raise Unsupported(f"overlapping cells in {r} at {o} and {a.off}")
            v = st.mem[(r, o)].read(())
            del st.mem[(r, o)]
            if isinstance(v, Undef) or (a.off <= o and o + ls <= a.off + size):
                continue
            if lt.kind != "int" or isinstance(v, (Ptr, PtrInt)):
                raise Unsupported(f"partial overwrite in {r} at {o}")
            for b, e in ((o, a.off), (a.off + size, o + ls)):
                if b < e:
                    if e - b not in (1, 2, 4):
                        raise Unsupported(f"partial overwrite in {r} at {o}")
                    t = type(lt)()
                    t.kind, t.width, t.size = "int", 8 * (e - b), e - b
                    r.llty[b] = t
                    self.writecell(st, (r, b), (), self.piece(v, lt.width, (b - o) * 8, t.width))
    def normaddr(self, a):
        r = a.region
        if r.kind == "elem" and not (0 <= a.off < r.stride):
            q, o = divmod(a.off, r.stride)
            return Addr(r, a.idx[:-1] + (ADD(a.idx[-1], q),), o)
        return a
    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr):
            raise Unsupported(f"store through {p}")
        if len(p.alts) == 1:
            return self.store_addr(st, p.alts[0][1], v, ty, True)
        for c, a in p.alts:
            if a.region.kind == "null":
                continue
            self.store_addr(st, a, v, ty, c)
    def store_addr(self, st, a, v, ty, cond):
        if ty.kind == "struct":
            for k, (o, t) in enumerate(zip(ty.offs, ty.elems)):
                self.store_addr(st, Addr(a.region, a.idx, a.off + o), v.elems[k] if isinstance(v, Agg) else UNDEF, t, cond)
            return
        if ty.kind == "array":
            for k in range(ty.n):
                self.store_addr(st, Addr(a.region, a.idx, a.off + k * ty.elem.size), v.elems[k] if isinstance(v, Agg) else UNDEF, ty.elem, cond)
            return
        a = self.normaddr(a)
        r = a.region
        if r.kind in ("null", "global", "func"):
            raise Unsupported(f"store to {r.kind}")
        if not hasattr(r, "llty"):
            r.llty = {}
        if r.nidx and ty.kind == "int" and not isinstance(v, (Undef, Ptr, PtrInt)):
            o, tiles = a.off, []
            while o < a.off + ty.width // 8:
                lt = r.llty.get(o)
                if lt is None or lt.kind != "int" or lt.width >= ty.width or lt.width % 8:
                    tiles = None
                    break
                tiles.append((o, lt))
                o += lt.width // 8
            if tiles and o == a.off + ty.width // 8:
                for o, lt in tiles:
                    self.store_addr(st, Addr(r, a.idx, o), self.piece(v, ty.width, (o - a.off) * 8, lt.width), lt, cond)
                return
        self.split_overlaps(st, a, ty)
        r.llty[a.off] = ty
        v = plain(v)
        if isinstance(v, Undef) and r.nidx:
            v = self.fresh("undef", "real" if ty.kind == "double" else ("w", ty.width or 64))
        if r.nidx > 0 and isinstance(v, Ptr):
            v = self.encode_ptr(v)
        key = (r, a.off)
        if cond is not True:
            v = mergev(cond, v, self.readcell(st, key, a.idx))
        self.writecell(st, key, a.idx, v)
    def load_global(self, r, off, ty):
        v = const_at(self.m, r.init, off)
        if v is None:
            raise Unsupported(f"global {r.name}+{off}")
        return v

    # ---- integer helpers
    def rng(self, e):
        if isinstance(e, bool):
            return int(e), int(e)
        if isinstance(e, int):
            return e, e
        i = e.get_id()
        if i in self.rngs:
            return self.rngs[i][:2]
        r = (None, None)
        if z3.is_int_value(e):
            n = e.as_long()
            r = (n, n)
        elif z3.is_add(e):
            rs = [self.rng(c) for c in e.children()]
            r = (sum(x[0] for x in rs) if all(x[0] is not None for x in rs) else None,
                 sum(x[1] for x in rs) if all(x[1] is not None for x in rs) else None)
        elif z3.is_sub(e) and e.num_args() == 2:
            x, y = self.rng(e.arg(0)), self.rng(e.arg(1))
            r = (x[0] - y[1] if x[0] is not None and y[1] is not None else None,
                 x[1] - y[0] if x[1] is not None and y[0] is not None else None)
        elif z3.is_app_of(e, z3.Z3_OP_ITE):
            x, y = self.rng(e.arg(1)), self.rng(e.arg(2))
            r = (min(x[0], y[0]) if x[0] is not None and y[0] is not None else None,
                 max(x[1], y[1]) if x[1] is not None and y[1] is not None else None)
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            k = e.arg(0).as_long()
            x = self.rng(e.arg(1))
            if x[0] is not None and x[1] is not None:
                r = (min(k * x[0], k * x[1]), max(k * x[0], k * x[1]))
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
            k = e.arg(1).as_long()
            x = self.rng(e.arg(0))
            if x[0] is not None and x[1] is not None:
                r = (min(k * x[0], k * x[1]), max(k * x[0], k * x[1]))
        self.rngs[i] = (r[0], r[1], e)
        return r
    def wrap(self, e, w):
        if is_const(e):
            e &= (1 << w) - 1
            return e - (1 << w) if e >> (w - 1) else e
        lo, hi = self.rng(e)
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo is not None and hi is not None and lo >= mn and hi <= mx:
            return e
        if lo is not None and hi is not None and lo >= mn - (1 << w) and hi <= mx + (1 << w):
            return z3.If(e > mx, e - (1 << w), z3.If(e < mn, e + (1 << w), e))
        return (e + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
    def wrap1(self, e, w):
        """Wrap of a sum/difference of two in-range values."""
        if is_const(e):
            return self.wrap(e, w)
        lo, hi = self.rng(e)
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo is not None and lo >= mn and hi is not None and hi <= mx:
            return e
        r = e
        if hi is None or hi > mx:
            r = z3.If(e > mx, e - (1 << w), r)
        if lo is None or lo < mn:
            r = z3.If(e < mn, e + (1 << w), r)
        return r
    def unsigned(self, e, w):
        if isinstance(e, bool):
            return int(e)
        if is_const(e):
            return e & ((1 << w) - 1)
        lo, hi = self.rng(e)
        if lo is not None and lo >= 0:
            return e
        return z3.If(e < 0, e + (1 << w), e)
    def trunc(self, v, w0, w1):
        if self.mode == "bv":
            v = self.bv(v, w0)
            if w1 == 1:
                return z3.Extract(0, 0, v) == 1
            return z3.Extract(w1 - 1, 0, v)
        if w1 == 1:
            if is_const(v):
                return bool(v & 1)
            if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
                return ITE(v.arg(0), bool(v.arg(1).as_long() & 1), bool(v.arg(2).as_long() & 1))
            lo, hi = self.rng(v)
            if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                return v == 1
            return v % 2 == 1
        return self.wrap(v, w1)
    def bv(self, v, w):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        return v
    def asbool(self, v):
        if isinstance(v, Undef):
            return self.fresh("undef", "bool")
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        return v

    # ---- operands
    def val(self, x, env):
        k = x.kind
        if k in ("inst", "arg"):
            return env[x.key]
        if k == "int":
            if x.type.width == 1:
                return bool(x.v & 1)
            return x.v if self.mode == "int" else z3.BitVecVal(x.v, x.type.width)
        if k == "null":
            return Ptr.to(NULL)
        if k == "undef":
            if x.type.kind == "struct":
                return Agg([UNDEF] * len(x.type.elems))
            return UNDEF
        if k == "fp":
            return z3.RealVal(repr(x.v)) if abs(x.v) != float("inf") and x.v == x.v else self.fresh("inf", "real")
        if k == "func":
            return Ptr.to(Addr(Region("func", x.name, 0)))
        if k == "global":
            return Ptr.to(Addr(self.globalregion(x), (), 0))
        if k == "zero":
            return self.zero(x.type)
        if k == "constexpr":
            from llvmir import GepTy
            ops = self.m.operands(x.key)
            if x.v == "gep":
                class I: pass
                return self.gep(self.val(ops[0], env), self.m.type(GepTy(x.key)), [self.val(o, env) for o in ops[1:]])
            raise Unsupported(f"constexpr {x.v}")
        if k == "agg":
            n = len(x.type.elems) if x.type.kind == "struct" else x.type.n
            from llvmir import AggElem
            return Agg([self.val(self.m.value(AggElem(x.key, i)), env) for i in range(n)])
        raise Unsupported(f"operand {k}")
    def zero(self, ty):
        if ty.kind == "struct":
            return Agg([self.zero(t) for t in ty.elems])
        if ty.kind == "array":
            return Agg([self.zero(ty.elem) for _ in range(ty.n)])
        if ty.kind == "int":
            return False if ty.width == 1 else (0 if self.mode == "int" else z3.BitVecVal(0, ty.width))
        if ty.kind == "ptr":
            return Ptr.to(NULL)
        if ty.kind in ("double", "float"):
            return z3.RealVal(0)
        raise Unsupported(f"zero {ty}")
    def globalregion(self, x):
        if x.key not in self.globals_:
            r = Region("global", x.name, 0)
            from llvmir import GetInit, IsGConst
            init = GetInit(x.key)
            r.init = self.m.value(init) if init and IsGConst(x.key) else None
            self.globals_[x.key] = r
        return self.globals_[x.key]

    # ---- gep
    def gep(self, p, srcty, idx):
        if not isinstance(p, Ptr):
            raise Unsupported(f"gep on {p}")
        alts = []
        for c, a in p.alts:
            if a.region.kind == "null":
                alts.append((c, a))
                continue
            alts += [(AND(c, c2), a2) for c2, a2 in self.gep1(a, srcty, idx)]
        return Ptr(alts)
    def ival(self, i):
        """Python int if this index is a constant."""
        if isinstance(i, int):
            return i
        if z3.is_expr(i):
            if z3.is_int_value(i):
                return i.as_long()
            if z3.is_bv_value(i):
                return i.as_signed_long()
        return None
    def gep1(self, a, srcty, idx):
        r, off = a.region, a.off
        i0 = plain(idx[0])
        k0 = self.ival(i0)
        cur = a
        if k0 is not None:
            if r.kind == "elem" and srcty.size == r.stride:
                cur = Addr(r, a.idx[:-1] + (ADDm(self, a.idx[-1], k0),), off)
            else:
                cur = Addr(r, a.idx, off + k0 * srcty.size)
                cur = self.normaddr(cur)
        else:
            if r.kind == "elem" and srcty.size == r.stride:
                cur = Addr(r, a.idx[:-1] + (ADDm(self, a.idx[-1], i0),), off)
            else:
                ll = r.ll
                if r.nidx == 0 and ll is not None and srcty.size and ll.size:
                    n = (ll.size - off) // srcty.size
                    if 0 < n <= 64 and len(idx) == 1:
                        return [(i0 == k, Addr(r, a.idx, off + k * srcty.size)) for k in range(n)]
                raise Unsupported(f"symbolic gep in {a} by elements of size {srcty.size}")
        alts = [(True, cur)]
        ty = srcty
        for i in idx[1:]:
            k = self.ival(i)
            if ty.kind == "struct":
                alts = [(c, Addr(x.region, x.idx, x.off + ty.offs[k])) for c, x in alts]
                ty = ty.elems[k]
            elif ty.kind == "array":
                if k is not None:
                    alts = [(c, Addr(x.region, x.idx, x.off + k * ty.elem.size)) for c, x in alts]
                else:
                    if ty.n > 64:
                        raise Unsupported("symbolic index in large array")
                    alts = [(AND(c, i == j), Addr(x.region, x.idx, x.off + j * ty.elem.size)) for c, x in alts for j in range(ty.n)]
                ty = ty.elem
            else:
                raise Unsupported(f"gep into {ty}")
        return alts

    # ---- floating point
    def fmul(self, a, b):
        a, b = self.real(a), self.real(b)
        for x, y in ((a, b), (b, a)):
            if z3.is_rational_value(z3.simplify(x)):
                xs = z3.simplify(x)
                if xs.numerator_as_long() == 0:
                    return z3.RealVal(0)
                if xs.numerator_as_long() == xs.denominator_as_long():
                    return y
        if self.fpmul_exact:
            return a * b
        f = z3.Function("fmul", z3.RealSort(), z3.RealSort(), z3.RealSort())
        if str(a) > str(b):
            a, b = b, a
        t = f(a, b)
        if t.get_id() not in self.rngs:
            self.rngs[t.get_id()] = (None, None, t)
            self.facts.append(z3.Implies(z3.And(a >= 0, b >= 0), t >= 0))
            self.facts.append(z3.Implies(z3.Or(a == 0, b == 0), t == 0))
            self.assumed["axiom: product of non-negative doubles is non-negative; 0*x = 0; commutative"] = 1
        return t
    def real(self, a):
        if isinstance(a, (int, float)):
            return z3.RealVal(a)
        return a
    def fptosi(self, a):
        f = z3.Function("fptosi", z3.RealSort(), z3.IntSort())
        a = self.real(a)
        s = z3.simplify(a)
        if z3.is_rational_value(s):
            n, d = s.numerator_as_long(), s.denominator_as_long()
            return abs(n) // d * (1 if n >= 0 else -1)
        if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
            return s.arg(0)
        t = f(a)
        if t.get_id() not in self.rngs:
            self.rngs[t.get_id()] = (None, None, t)
            self.facts.append(z3.Implies(a >= 0, z3.And(t >= 0, z3.ToReal(t) <= a, a < z3.ToReal(t) + 1)))
            self.facts.append(z3.Implies(a < 0, z3.And(t <= 0, a <= z3.ToReal(t), z3.ToReal(t) - 1 < a)))
            self.assumed["axiom: double-to-integer conversion truncates toward zero (no overflow)"] = 1
        return t

    # ---- solver
    def prove(self, pc, goal, timeout=None, want_model=False, ground=False):
        """'proved' | 'failed' | 'unknown'."""
        if goal is True:
            return "proved", None
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for f in self.facts:
            if not ground or not quantified(f):
                s.add(f)
        for f in self.axioms:
            if not ground:
                s.add(f)
        for f in pc:
            s.add(f)
        s.add(z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal))
        r = s.check()
        self.nqueries += 1
        if r == z3.unknown and not ground and not isinstance(goal, bool):
            # again, with fewer quantified hypotheses: those that share functions with the goal
            fs = [f for f in [*self.facts, *self.axioms, *pc] if not isinstance(f, bool)]
            for depth in (1, 2):
                sub = relevant(fs, goal, depth)
                if len(sub) >= len(fs):
                    break
                s2 = z3.Solver()
                s2.set("timeout", timeout or self.timeout)
                s2.add(*sub)
                s2.add(z3.Not(goal))
                self.nqueries += 1
                if s2.check() == z3.unsat:
                    r = z3.unsat
                    break
        self.z3time += time.time() - t0
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "failed", s.model()
        return "unknown", s.reason_unknown()
    def feasible(self, pc, extra=True):
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in self.facts:
            s.add(f)
        for f in pc:
            s.add(f)
        if extra is not True:
            s.add(extra if not isinstance(extra, bool) else z3.BoolVal(extra))
        t0 = time.time()
        r = s.check()
        self.z3time += time.time() - t0
        self.nqueries += 1
        return r
    def oblige(self, name, st, goal, where=""):
        self.obligs.append(Obligation(name, list(st.pc), goal, where))

    # ---- running functions
    def call_function(self, fn, args, st):
        """Executes a body; returns (ret, state). Raises Killed if no path returns."""
        if self.depth > 60:
            raise Unsupported("call depth")
        self.depth += 1
        self.stepped[fn.dem] = self.stepped.get(fn.dem, 0) + 1
        try:
            rpo, loops = loops_of(fn)
            env = {}
            for p, a in zip(fn.params, args):
                env[p.key] = a
            pending = {fn.blocks[0]: [(None, st, {})]}
            rets = []
            ctx = dict(fn=fn, rets=rets, loops=loops, rpo=rpo)
            self.run(ctx, rpo, pending, env, None, None)
            if not rets:
                raise Killed()
            states = [s for s, _ in rets]
            merged, deltas = merge_states(states)
            v = None
            for d, (_, r) in reversed(list(zip(deltas, rets))):
                v = r if v is None else mergev(d, r, v)
            return v, merged
        finally:
            self.depth -= 1

    def run(self, ctx, order, pending, env, loop, back):
        """loop: header of the loop whose body is being run (its header is executed first)."""
        done = set()
        for b in order:
            if b in done or b not in pending:
                continue
            if b in ctx["loops"] and b is not loop:
                body = ctx["loops"][b]
                if loop is not None and not body <= ctx["loops"][loop]:
                    raise Unsupported("overlapping loops")
                self.do_loop(ctx, b, body, pending, env)
                done |= body
                continue
            inc = pending.pop(b)
            self.enter(ctx, b, inc, env, pending, loop, back)

    def enter(self, ctx, b, inc, env, pending, loop, back, phis=None):
        if phis is None:
            st, deltas = merge_states([s for _, s, _ in inc])
            if len(inc) == 1:
                st = st.copy()
            env.update(self.merge_phis(b, inc, deltas))
        else:
            st = inc
        try:
            self.block(ctx, b, st, env, pending, loop, back)
        except Killed:
            pass

    def merge_phis(self, b, inc, deltas):
        vals = {}
        for i in b.insts:
            if i.op != "phi":
                break
            v = None
            for d, (_, _, pv) in reversed(list(zip(deltas, inc))):
                x = pv[i.key]
                v = x if v is None else mergev(d, x, v)
            vals[i.key] = v
        return vals

    def goto(self, b, succ, st, pending, loop, back, env):
        pv = {}
        for i in succ.insts:
            if i.op != "phi":
                break
            for p, v in i.incoming:
                if p is b:
                    pv[i.key] = self.val(v, env)
                    break
        if succ is loop:
            back.append((b, st, pv))
        else:
            pending.setdefault(succ, []).append((b, st, pv))

    def block(self, ctx, b, st, env, pending, loop, back):
        for i in b.insts:
            op = i.op
            if op == "phi":
                continue
            if op == "ret":
                v = self.val(i.ops[0], env) if i.ops else None
                ctx["rets"].append((st, v))
                return
            if op == "br":
                if i.cond is None:
                    return self.goto(b, i.succ[0], st, pending, loop, back, env)
                c = self.asbool(self.val(i.cond, env))
                if not isinstance(c, bool):
                    s = z3.simplify(c)
                    if z3.is_true(s):
                        c = True
                    elif z3.is_false(s):
                        c = False
                    else:
                        for p in reversed(st.pc[-40:]):
                            if p.eq(c):
                                c = True
                                break
                            if z3.is_not(p) and p.arg(0).eq(c):
                                c = False
                                break
                if c is True:
                    return self.goto(b, i.succ[0], st, pending, loop, back, env)
                if c is False:
                    return self.goto(b, i.succ[1], st, pending, loop, back, env)
                if i.succ[0] is i.succ[1]:
                    return self.goto(b, i.succ[0], st, pending, loop, back, env)
                s2 = st.copy()
                st.assume(c)
                s2.assume(NOT(c))
                self.goto(b, i.succ[0], st, pending, loop, back, env)
                self.goto(b, i.succ[1], s2, pending, loop, back, env)
                return
            if op == "switch":
                v = self.val(i.cond, env)
                rest = []
                targets = {}
                for cv, tgt in i.cases:
                    c = EQ(v, self.val(cv, env))
                    targets.setdefault(tgt, []).append(c)
                    rest.append(NOT(c))
                for tgt, cs in targets.items():
                    c = OR(*cs)
                    if c is False:
                        continue
                    s2 = st.copy()
                    s2.assume(c)
                    self.goto(b, tgt, s2, pending, loop, back, env)
                c = AND(*rest)
                if c is not False:
                    st.assume(c)
                    self.goto(b, i.succ[0], st, pending, loop, back, env)
                return
            if op in ("unreachable", "resume"):
                return
            if op in ("call", "invoke"):
                try:
                    r, st2 = self.do_call(i, st, env)
                except Unsupported as e:
                    if not getattr(e, "noted", False):
                        e.noted = True
                        e.args = (f"{e.args[0] if e.args else ''} [in {ctx['fn'].dem[:100]} line {i.line}]",)
                    raise
                st = st2
                env[i.key] = r
                if op == "invoke":
                    return self.goto(b, i.normal, st, pending, loop, back, env)
                continue
            env[i.key] = self.simple(i, st, env)
        raise Unsupported("block without terminator")

    def simple(self, i, st, env):
        op = i.op
        V = [self.val(o, env) for o in i.ops]
        if op == "alloca":
            n = self.ival(V[0]) if V else 1
            r = self.local("loc_" + (i.name or "t"), ll=i.srcty)
            return Ptr.to(Addr(r))
        if op == "load":
            return self.load(st, V[0], i.type)
        if op == "store":
            self.store(st, V[1], V[0], i.ops[0].type)
            return None
        if op == "gep":
            return self.gep(V[0], i.srcty, V[1:])
        if op in ("bitcast", "freeze", "addrspacecast"):
            return V[0]
        if op == "select":
            return mergev(self.asbool(V[0]), V[1], V[2])
        if op == "extractvalue":
            v = V[0]
            for k in i.idx:
                v = UNDEF if isinstance(v, Undef) else v.elems[k]
            return v
        if op == "insertvalue":
            return self.insertvalue(V[0], V[1], i.idx, i.type)
        if op == "ptrtoint":
            return PtrInt(V[0])
        if op == "inttoptr":
            if isinstance(V[0], PtrInt):
                return V[0].ptr
            raise Unsupported("inttoptr")
        if op == "icmp":
            return self.icmp(i.pred, V[0], V[1], i.ops[0].type)
        if op == "fcmp":
            a, b = self.real(V[0]), self.real(V[1])
            p = i.pred
            if p in ("ord", "true"):
                return True
            if p in ("uno", "false"):
                return False
            p = p[1:]
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "gt": lambda: a > b, "ge": lambda: a >= b,
                 "lt": lambda: a < b, "le": lambda: a <= b}[p]()
            self.assumed["doubles are compared as reals (no NaN)"] = 1
            return r
        if op in ("fadd", "fsub", "fdiv", "fneg"):
            a = self.real(V[0])
            b = self.real(V[1]) if len(V) > 1 else None
            self.assumed["double addition/division treated as exact real arithmetic"] = 1
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fneg":
                return -a
            return a / b
        if op == "fmul":
            return self.fmul(V[0], V[1])
        if op in ("sitofp", "uitofp"):
            v = plain(V[0])
            if self.mode == "bv":
                return self.const(f"itof!{v}", "real")
            if op == "uitofp":
                v = self.unsigned(v, i.ops[0].type.width)
            self.assumed["integer-to-double conversion exact (magnitudes below 2^53)"] = 1
            return z3.RealVal(v) if is_const(v) else z3.ToReal(v)
        if op in ("fptosi", "fptoui"):
            return self.fptosi(V[0])
        if op == "fpext" or op == "fptrunc":
            return V[0]
        if op in ("zext", "sext", "trunc"):
            w0, w1 = i.ops[0].type.width, i.type.width
            v = V[0]
            if isinstance(v, Undef):
                return self.fresh("undef", ("w", w1)) if w1 != 1 else self.fresh("undef", "bool")
            if isinstance(v, PtrInt):
                return v
            v = plain(v)
            if op == "trunc":
                return self.trunc(v, w0, w1)
            if w0 == 1:
                one = 1 if op == "zext" else -1
                v = self.asbool(v)
                if self.mode == "bv":
                    return z3.If(v, z3.BitVecVal(one, w1), z3.BitVecVal(0, w1)) if not isinstance(v, bool) else z3.BitVecVal(one if v else 0, w1)
                return ITE(v, one, 0)
            if self.mode == "bv":
                return z3.ZeroExt(w1 - w0, self.bv(v, w0)) if op == "zext" else z3.SignExt(w1 - w0, self.bv(v, w0))
            return self.unsigned(v, w0) if op == "zext" else v
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.arith(op, V[0], V[1], i)
        if op == "landingpad":
            raise Killed()
        raise Unsupported(f"instruction {op}")

    def insertvalue(self, agg, v, idx, ty):
        if isinstance(agg, Undef):
            agg = Agg([UNDEF] * (len(ty.elems) if ty.kind == "struct" else ty.n))
        out = Agg(agg.elems)
        if len(idx) == 1:
            out.elems[idx[0]] = v
        else:
            out.elems[idx[0]] = self.insertvalue(out.elems[idx[0]], v, idx[1:], ty.elems[idx[0]])
        return out

    def icmp(self, pred, a, b, ty):
        if isinstance(a, PtrInt):
            a = a.ptr
        if isinstance(b, PtrInt):
            b = b.ptr
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrcmp(pred, a, b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh("undef", "bool")
        a, b = plain(a), plain(b)
        if ty.kind == "int" and ty.width == 1:
            if pred == "eq":
                return EQ(self.asbool(a), self.asbool(b))
            if pred == "ne":
                return NOT(EQ(self.asbool(a), self.asbool(b)))
            raise Unsupported("icmp on i1")
        w = ty.width
        if self.mode == "bv":
            a, b = self.bv(a, w), self.bv(b, w)
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b,
                 "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                 "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[pred]()
            return r
        if pred == "eq":
            return self.cmpite("eq", a, b)
        if pred == "ne":
            return NOT(self.cmpite("eq", a, b))
        if pred[0] == "u":
            a, b = self.unsigned(a, w), self.unsigned(b, w)
        p = pred[1:]
        if is_const(a) and is_const(b):
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        r = const_ite_cmp(p, a, b)
        if r is not None:
            return r
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}[p]()
    def cmpite(self, p, a, b):
        r = const_ite_cmp("eq", a, b)
        return EQ(a, b) if r is None else r

    def ptrcmp(self, pred, a, b):
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            if is_const(a) and a == 0:
                a = Ptr.to(NULL)
            elif is_const(b) and b == 0:
                b = Ptr.to(NULL)
            else:
                raise Unsupported("pointer compared with integer")
        if pred in ("eq", "ne"):
            cs = []
            for c1, x in a.alts:
                for c2, y in b.alts:
                    cs.append(AND(c1, c2, self.addreq(x, y)))
            r = OR(*cs)
            return r if pred == "eq" else NOT(r)
        out = []
        for c1, x in a.alts:
            for c2, y in b.alts:
                x, y = self.normaddr(x), self.normaddr(y)
                if x.region is not y.region or x.region.kind != "elem" or x.off != y.off:
                    raise Unsupported("ordering of unrelated pointers")
                p, q = x.idx[-1], y.idx[-1]
                f = {"ult": lambda: p < q, "ule": lambda: p <= q, "ugt": lambda: p > q, "uge": lambda: p >= q}[pred]()
                out.append(AND(c1, c2, f))
        return OR(*out)
    def addreq(self, x, y):
        if x.region.kind == "null" and y.region.kind == "null":
            return True
        if x.region.kind == "null" or y.region.kind == "null":
            z = y if x.region.kind == "null" else x
            if z.region.kind == "heap":
                return EQ(z.idx[0], 0) if z.off == 0 else False
            return False
        if x.region is not y.region:
            if x.region.kind == "func" and y.region.kind == "func":
                return x.region.name == y.region.name
            return False
        x, y = self.normaddr(x), self.normaddr(y)
        if x.off != y.off:
            return False
        return AND(*[EQ(p, q) for p, q in zip(x.idx, y.idx)])

    def arith(self, op, a, b, i):
        w = i.type.width
        if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == "sub":
            return self.ptrdiff(a.ptr, b.ptr)
        if isinstance(a, ByteDiff) and op in ("sdiv", "udiv", "ashr", "lshr") and not isinstance(b, ByteDiff):
            k = self.ival(b)
            if k is not None:
                d = k if op in ("sdiv", "udiv") else 2**k
                if d == a.stride and a.const == 0:
                    return a.count
        a, b = plain(a), plain(b)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            raise Unsupported(f"{op} on pointer integer")
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh("undef", ("w", w) if w > 1 else "bool")
        if w == 1:
            a, b = self.asbool(a), self.asbool(b)
            if op == "and":
                return AND(a, b)
            if op == "or":
                return OR(a, b)
            if op in ("xor", "add", "sub"):
                return NOT(EQ(a, b))
            raise Unsupported(f"{op} i1")
        if self.mode == "bv":
            a, b = self.bv(a, w), self.bv(b, w)
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "sdiv": lambda: a / b,
                    "udiv": lambda: z3.UDiv(a, b), "srem": lambda: z3.SRem(a, b), "urem": lambda: z3.URem(a, b),
                    "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b,
                    "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]()
        if self.uf_nonlinear and op in ("mul", "sdiv", "srem") and not is_const(a) and not is_const(b):
            return self.nl(op, a, b)
        if op in ("add", "sub", "mul"):
            r = {"add": ADD, "sub": SUB, "mul": MUL}[op](a, b)
            if i.nsw:
                if self.overflow and not is_const(r):
                    self.nsw_ops.append((i, r, w))
                return r
            if op == "mul":
                return self.wrap(r, w)
            return self.wrap1(r, w)
        ka, kb = self.ival(a), self.ival(b)
        if ka is not None and kb is not None:
            M = (1 << w) - 1
            ua, ub = ka & M, kb & M
            sh = ub
            if op == "and":
                return self.wrap(ua & ub, w)
            if op == "or":
                return self.wrap(ua | ub, w)
            if op == "xor":
                return self.wrap(ua ^ ub, w)
            if op == "shl":
                return self.wrap(ua << sh, w)
            if op == "lshr":
                return self.wrap(ua >> sh, w)
            if op == "ashr":
                return ka >> sh
            if op == "udiv":
                return self.wrap(ua // ub, w)
            if op == "urem":
                return self.wrap(ua % ub, w)
            if op == "sdiv":
                return abs(ka) // abs(kb) * (1 if (ka >= 0) == (kb >= 0) else -1)
            if op == "srem":
                return abs(ka) % abs(kb) * (1 if ka >= 0 else -1)
        if op == "shl" and kb is not None:
            r = MUL(a, 2**kb)
            return r if i.nsw else self.wrap(r, w)
        if op == "lshr" and kb is not None:
            return self.unsigned(a, w) / (2**kb)
        if op == "ashr" and kb is not None:
            return a / (2**kb)   # floor division: z3 div rounds down for positive divisors
        if op == "udiv":
            ua, ub = self.unsigned(a, w), self.unsigned(b, w)
            return self.wrap(as_int(ua) / as_int(ub), w) if kb is None or kb < 0 else as_int(ua) / as_int(ub)
        if op == "urem":
            ua, ub = self.unsigned(a, w), self.unsigned(b, w)
            r = as_int(ua) % as_int(ub)
            return r
        if op in ("sdiv", "srem"):
            x, y = as_int(a), as_int(b)
            absx, absy = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
            if op == "sdiv":
                q = absx / absy
                return z3.If((x >= 0) == (y >= 0), q, -q)
            r = absx % absy
            return z3.If(x >= 0, r, -r)
        if op == "and" and kb is not None and kb >= 0 and (kb & (kb + 1)) == 0:
            return self.unsigned(a, w) % (kb + 1)
        if op in ("and", "or", "xor"):
            # booleans stored in integers
            la, lb = self.rng(a), self.rng(b)
            if la[0] is not None and lb[0] is not None and la[0] >= 0 and lb[0] >= 0 and la[1] is not None and la[1] <= 1 and lb[1] is not None and lb[1] <= 1:
                x, y = EQ(a, 1), EQ(b, 1)
                return ITE(AND(x, y) if op == "and" else OR(x, y) if op == "or" else NOT(EQ(x, y)), 1, 0)
            f = z3.Function(f"bit{op}", z3.IntSort(), z3.IntSort(), z3.IntSort())
            return f(as_int(a), as_int(b))
        raise Unsupported(f"{op} on symbolic integers")

    loop_timeout = 2500
    debug = False
    uf_nonlinear = False   # products and quotients of unknowns as uninterpreted functions
    def nl(self, op, a, b):
        a, b = as_int(a), as_int(b)
        f = z3.Function("nl_" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        if op == "mul" and not getattr(self, "_nlcomm", False):
            self._nlcomm = True
            x, y = z3.Ints("nl_x nl_y")
            self.axioms.append(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        self.assumed[f"products and quotients of unknowns are uninterpreted (a weakening)"] = 1
        return f(a, b)
    def ptrdiff(self, p, q):
        if len(p.alts) == 1 and len(q.alts) == 1:
            x, y = self.normaddr(p.alts[0][1]), self.normaddr(q.alts[0][1])
            if x.region is y.region:
                if x.region.kind == "elem" and all(same(a, b) for a, b in zip(x.idx[:-1], y.idx[:-1])):
                    return ByteDiff(SUBm(self, x.idx[-1], y.idx[-1]), x.region.stride, x.off - y.off)
                if x.region.nidx == 0 or all(same(a, b) for a, b in zip(x.idx, y.idx)):
                    d = x.off - y.off
                    return d if self.mode == "int" else z3.BitVecVal(d, 64)
            if x.region.kind == "null" and y.region.kind == "null":
                return 0
        raise Unsupported("difference of unrelated pointers")

    # ---- calls
    def do_call(self, i, st, env):
        args = [None if a.type.kind == "metadata" else self.val(a, env) for a in i.args]
        callee = i.callee
        if callee.kind != "func":
            v = self.val(callee, env) if callee.kind in ("inst", "arg") else None
            if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1].region.kind == "func":
                name = v.alts[0][1].region.name
            else:
                raise Unsupported("indirect call")
        else:
            name = callee.name
        if name.startswith("llvm."):
            return self.intrinsic(name, args, st, i), st
        fn = self.m.functions[name]
        dem = fn.dem
        for pred, h in self.handlers:
            if pred(dem):
                r = h(self, st, args, fn, i)
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State):
                    return r
                return r, st
        if fn.decl:
            raise Unsupported(f"external function {dem}")
        return self.call_function(fn, args, st)

    def intrinsic(self, name, args, st, i):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume")):
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = self.ival(plain(args[2]))
            self.memcpy(st, args[0], args[1], n, plain(args[2]))
            return None
        if name.startswith("llvm.memset"):
            n = self.ival(args[2])
            v = self.ival(args[1])
            if n is None or v is None:
                raise Unsupported("symbolic memset")
            for c, a in args[0].alts:
                for off, ty in self.ll_leaves(a, n, vecs=True):
                    if v != 0:
                        raise Unsupported("memset nonzero")
                    if ty is None:   # zero-initialised before its constructor runs: an empty vector
                        if len(args[0].alts) != 1:
                            raise Unsupported("memset of one of several vectors")
                        self.setlen(st, Addr(a.region, a.idx, off), 0)
                        continue
                    self.store_addr(st, Addr(a.region, a.idx, off), self.zero(ty), ty, c)
            return None
        for k in ("smax", "smin", "umax", "umin"):
            if name.startswith(f"llvm.{k}."):
                c = self.icmp({"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[k], args[0], args[1], i.type)
                return mergev(c, args[0], args[1])
        if name.startswith("llvm.expect"):
            return args[0]
        if name.startswith("llvm.abs"):
            return mergev(self.icmp("slt", args[0], self.zero(i.type), i.type), SUB(0, args[0]), args[0])
        if name.startswith("llvm.ctpop") and self.mode == "bv":
            w = i.type.width
            v = self.bv(args[0], w)
            f = z3.Function(f"ctpop{w}", z3.BitVecSort(w), z3.BitVecSort(w))
            if self.popexact:
                acc = z3.BitVecVal(0, w)
                for k in range(w):
                    acc = acc + z3.ZeroExt(w - 1, z3.Extract(k, k, v))
                return acc
            self.facts.append(z3.ULE(f(v), w))
            return f(v)
        if name.startswith(("llvm.trap", "llvm.ubsantrap")):
            raise Killed()
        if name.startswith("llvm.is.constant"):
            return False
        if name.startswith("llvm.fabs"):
            a = self.real(args[0])
            return z3.If(a >= 0, a, -a)
        raise Unsupported(f"intrinsic {name}")
    popexact = True

    def ll_leaves(self, a, n, vecs=False):
        """Scalar cells of [a.off, a.off+n) from the LLVM type of the region (or its C++ layout)."""
        r = a.region
        out = []
        def walk(ty, base):
            if ty.kind == "struct":
                for o, t in zip(ty.offs, ty.elems):
                    walk(t, base + o)
            elif ty.kind == "array":
                for k in range(ty.n):
                    walk(ty.elem, base + k * ty.elem.size)
            else:
                out.append((base, ty))
        if r.ll is not None:
            walk(r.ll, 0)
            res = [(o, t) for o, t in out if a.off <= o < a.off + n]
            if res and sum(t.size for _, t in res) <= n:
                return res
        if isinstance(r.ctype, (LY.Record, str)):
            tn = r.ctype.name if isinstance(r.ctype, LY.Record) else r.ctype
            res = []
            for off, kind, sub in self.leaf_cells(tn):
                if a.off <= off < a.off + n:
                    if kind == "vec":
                        if not vecs:
                            raise Unsupported("memcpy of a vector")
                        res.append((off, None))
                        continue
                    res.append((off, self.prim_ll(sub)))
            return res
        known = getattr(r, "llty", {})
        return [(o, t) for o, t in sorted(known.items()) if a.off <= o < a.off + n]
    def prim_ll(self, t):
        import llvmir
        ty = llvmir.Type()
        ty.elems = ty.offs = ty.n = ty.elem = ty.name = ty.width = None
        t = LY.norm(t)
        if t.endswith(("*", "&")) or t == "pointer":
            ty.kind, ty.size = "ptr", 8
        elif t == "double":
            ty.kind, ty.size = "double", 8
        else:
            s = LY.PRIM.get(t)
            if s is None:
                s = {"Activity::ActivityType": 4, "ActivityType": 4, "pyvrp::Activity::ActivityType": 4, "unsigned int": 4, "result_type": 4}.get(t)
            if s is None:
                s = 8 if t in ("value_type", "_Tp", "_Up", "size_type", "difference_type") else None
            if s is None:
                raise Unsupported(f"primitive type {t}")
            ty.kind, ty.width, ty.size = "int", s * 8, s
        return ty
    def memcpy(self, st, dst, src, n, nexpr):
        if n is None:
            raise Unsupported("memcpy of symbolic size")
        if len(dst.alts) != 1:
            raise Unsupported("memcpy to several destinations")
        d = dst.alts[0][1]
        # find leaves from whichever side knows its type
        leaves = None
        for p in (src, dst):
            a = p.alts[0][1]
            if a.region.ll is not None or isinstance(a.region.ctype, (LY.Record, str)):
                if a.region.kind == "global":
                    continue
                try:
                    leaves = [(o - a.off, t) for o, t in self.ll_leaves(a, n)]
                except Unsupported:
                    continue
                if leaves:
                    break
        if leaves is None:
            a = src.alts[0][1]
            if a.region.kind == "global":
                da = d
                leaves = [(o - da.off, t) for o, t in self.ll_leaves(da, n)]
            else:
                leaves = [(o - a.off, t) for o, t in self.ll_leaves(a, n)]
        vals = []
        for o, t in leaves:
            sp = Ptr([(c, Addr(a.region, a.idx, a.off + o)) for c, a in src.alts])
            vals.append((o, t, self.load(st, sp, t)))
        for o, t, v in vals:
            self.store_addr(st, Addr(d.region, d.idx, d.off + o), v, t, True)

    # ---- loops
    def do_loop(self, ctx, h, body, pending, env):
        inc = pending.pop(h)
        st0, deltas = merge_states([s for _, s, _ in inc])
        st0 = st0.copy()
        phis = []
        for i in h.insts:
            if i.op != "phi":
                break
            phis.append(i)
        entry = self.merge_phis(h, inc, deltas)
        order = [b for b in ctx["rpo"] if b in body]
        if getattr(self, "unroll", None):
            return self.unroll_loop(ctx, h, order, pending, env, st0, entry)
        modified = {}     # key -> frame prefix (tuple with None for free positions)
        def attempt(cands, record):
            """Runs the body once from an arbitrary iteration. Returns (havoc phis, havoc state, back state, back phis, pending exits)."""
            env2 = dict(env)
            hst = State(st0.pc, st0.mem)
            hphi = {}
            for i in phis:
                hphi[i.key] = self.havoc_val(entry[i.key], i)
            for key, pat in modified.items():
                self.havoc_cell(hst, key, pat)
            env2.update(hphi)
            view = LoopView(self, {i: hphi[i.key] for i in phis}, hst, {i: entry[i.key] for i in phis}, st0, ctx["fn"], h, env2)
            for nm, c in cands:
                f = c(view)
                hst.assume(f)
            for i in phis:
                v = hphi[i.key]
                if isinstance(v, z3.ArithRef) and i.type.kind == "int" and i.type.width == 64:
                    hst.assume(z3.And(v >= -2**63, v < 2**63))
            pend2, back = {}, []
            saved_obl, saved_thr, saved_log = self.obligs, self.throws, self.writelog
            saved_rets = ctx["rets"]
            self.writelog = []
            if not record:
                self.obligs, self.throws, ctx["rets"] = [], [], []
            else:
                pass
            try:
                try:
                    self.block(ctx, h, hst.copy(), env2, pend2, h, back)
                except Killed:
                    pass
                self.run(ctx, [b for b in order if b is not h], pend2, env2, h, back)
                log = self.writelog
            finally:
                if not record:
                    self.obligs, self.throws, ctx["rets"] = saved_obl, saved_thr, saved_rets
                self.writelog = saved_log
            bview = None
            if back:
                bst, bd = merge_states([s for _, s, _ in back])
                bphi = self.merge_phis(h, back, bd)
                bview = LoopView(self, {i: bphi[i.key] for i in phis}, bst, {i: entry[i.key] for i in phis}, st0, ctx["fn"], h, env2)
            return view, bview, pend2, log, env2, hphi
        # 1. modified cells
        for _ in range(8):
            view, bview, pend2, log, env2, hphi = attempt([], False)
            new = {}
            for key, idx in log:
                r = key[0]
                if r.kind == "local" and r.nidx == 0 and not self.alive_before(st0, r):
                    continue
                if r.kind == "elem" and root_region(r).kind == "local" and not self.alive_before(st0, root_region(r)):
                    continue
                pat = tuple(x if (x is not None and self.loop_invariant(x, hphi, st0)) else None for x in idx)
                old = new.get(key)
                if old is not None:
                    pat = tuple(a if (a is not None and b is not None and same(a, b)) else None for a, b in zip(old, pat))
                new[key] = pat
            merged = dict(modified)
            for k, pat in new.items():
                old = merged.get(k)
                if old is not None:
                    pat = tuple(a if (a is not None and b is not None and same(a, b)) else None for a, b in zip(old, pat))
                merged[k] = pat
            if all(k in modified and len(modified[k]) == len(v) and all((a is None and b is None) or (a is not None and b is not None and same(a, b)) for a, b in zip(modified[k], v)) for k, v in merged.items()):
                break
            modified.clear()
            modified.update(merged)
        else:
            raise Unsupported("loop modification set did not stabilise")
        # 2. candidates
        sig = (ctx["fn"].name, h.name)
        self._cur_modified = modified
        eview = LoopView(self, {i: entry[i.key] for i in phis}, st0, {i: entry[i.key] for i in phis}, st0, ctx["fn"], h, env)
        eview.modified = modified
        cands, opts = [], {}
        for tmpl in self.loop_templates:
            for c in tmpl(eview, phis, modified):
                cands.append((c[0], c[1]))
                if len(c) > 2:
                    opts[c[0]] = c[2]     # ground: to be shown without quantified hypotheses; needs: candidate it depends on
        n0 = len(cands)
        # base
        kept = []
        for nm, c in cands:
            try:
                f = c(eview)
            except SkipCandidate:
                continue
            t0 = time.time()
            if opts.get(nm, {}).get("ground") and f is not True:   # has to hold without quantified hypotheses
                ok = self.prove([x for x in st0.pc if not quantified(x)], f, 3000, ground=True)[0] == "proved"
            else:
                ok = f is True or self.prove(st0.pc, f, 3000)[0] == "proved"
            if ok:
                kept.append((nm, c))
            elif self.debug:
                print(f"  base drop {nm} {time.time() - t0:.2f}s", flush=True)
        cands = kept
        # induction: simple candidates first, then those that depend on them
        if opts:
            for rnd in range(6):
                first = [c for c in cands if opts.get(c[0], {}).get("ground")]
                if not first:
                    break
                view, bview, pend2, log, env2, hphi = attempt(first, False)
                if bview is None:
                    break
                gpc = [f for f in bview.st.pc if not quantified(f)]
                res = {nm: self.prove(gpc, c(bview), self.loop_timeout, ground=True)[0] for nm, c in first}
                bad = {nm for nm, r in res.items() if r != "proved"}
                if self.debug:
                    print("  ground drop", {nm: res[nm] for nm in bad}, flush=True)
                if not bad:
                    break
                cands = [c for c in cands if c[0] not in bad]
            names = {c[0] for c in cands}
            cands = [c for c in cands if opts.get(c[0], {}).get("needs") in (None, *names)]
        for rnd in range(12):
            if not cands:
                break
            view, bview, pend2, log, env2, hphi = attempt(cands, False)
            if bview is None:
                break
            bad = []
            goals = [(nm, c, c(bview)) for nm, c in cands]
            allg = AND(*[g for _, _, g in goals])
            if self.prove(bview.st.pc, allg, self.loop_timeout)[0] == "proved":
                break
            for nm, c, g in goals:
                t0 = time.time()
                if self.prove(bview.st.pc, g, self.loop_timeout)[0] != "proved":
                    bad.append(nm)
                if self.debug:
                    print(f"  [{rnd}] {'drop' if nm in bad else 'keep'} {nm} {time.time() - t0:.2f}s", flush=True)
            if not bad:
                break
            cands = [(nm, c) for nm, c in cands if nm not in bad]
        self.loopstats.append((ctx["fn"].dem, h.name, n0, [nm for nm, _ in cands]))
        # 3. final pass: exits
        view, bview, pend2, log, env2, hphi = attempt(cands, True)
        if self.writelog is not None:
            self.writelog.extend(log)
        env.update(env2)
        for b, lst in pend2.items():
            pending.setdefault(b, []).extend(lst)
        # values defined in the loop stay visible through env (SSA dominance)

    def unroll_loop(self, ctx, h, order, pending, env, st, phi):
        """Executes at most self.unroll iterations; executions with more are dropped."""
        self.loopstats.append((ctx["fn"].dem, h.name, 0, ["unrolled"]))
        for k in range(self.unroll + 1):
            env.update(phi)
            pend2, back = {}, []
            try:
                self.block(ctx, h, st.copy(), env, pend2, h, back)
            except Killed:
                pass
            self.run(ctx, [b for b in order if b is not h], pend2, env, h, back)
            for b, lst in pend2.items():
                pending.setdefault(b, []).extend(lst)
            if not back:
                return
            st, d = merge_states([s for _, s, _ in back])
            st = st.copy()
            phi = self.merge_phis(h, back, d)
            if self.feasible(st.pc) == z3.unsat:
                return

    def alive_before(self, st0, region):
        return any(k[0] is region for k in st0.mem)
    def loop_invariant(self, term, hphi, st0):
        """Is this index term free of symbols introduced by the loop's havoc?"""
        if is_const(term):
            return True
        names = set()
        stack = [term]
        seen = set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if "havoc!" in t.decl().name():
                    return False
            stack.extend(t.children())
        return True
    def havoc_val(self, v, i):
        ty = i.type
        if ty.kind == "ptr":
            if isinstance(v, Ptr) and len(v.alts) == 1:
                a = v.alts[0][1]
                if a.region.kind == "elem":
                    return Ptr.to(Addr(a.region, a.idx[:-1] + (self.fresh(f"havoc!{i.name}"),), a.off))
                if a.region.kind == "heap":
                    return Ptr.to(Addr(a.region, (self.fresh(f"havoc!{i.name}"),), a.off))
            raise Unsupported(f"loop-carried pointer {v}")
        if ty.kind in ("double", "float"):
            return self.fresh(f"havoc!{i.name}", "real")
        if ty.kind == "int":
            if ty.width == 1:
                return self.fresh(f"havoc!{i.name}", "bool")
            return self.fresh(f"havoc!{i.name}", ("w", ty.width))
        raise Unsupported(f"loop-carried {ty}")
    def havoc_cell(self, st, key, pat):
        region = key[0]
        old = self.cell(st, key)
        n = next(self.counter)
        if region.nidx == 0:
            v = old.read(())
            if isinstance(v, Ptr):
                if len(v.alts) == 1 and v.alts[0][1].region.kind == "elem":
                    a = v.alts[0][1]
                    st.mem[key] = Scalar(Ptr.to(Addr(a.region, a.idx[:-1] + (self.fresh(f"havoc!{region.name}"),), a.off)))
                    return
                if len(v.alts) == 1 and v.alts[0][1].region.kind == "heap":
                    a = v.alts[0][1]
                    st.mem[key] = Scalar(Ptr.to(Addr(a.region, (self.fresh(f"havoc!{region.name}"),), a.off)))
                    return
                raise Unsupported(f"loop modifies pointer cell {key}")
            lt = getattr(region, "llty", {}).get(key[1])
            if lt is not None and lt.kind == "double":
                st.mem[key] = Scalar(self.fresh(f"havoc!{region.name}.{key[1]}", "real"))
            elif len(key) > 2 or lt is None:
                st.mem[key] = Scalar(self.fresh(f"havoc!{region.name}.{key[1]}"))
            elif lt.kind == "ptr":
                raise Unsupported(f"loop modifies uninitialised pointer cell {key}")
            else:
                st.mem[key] = Scalar(self.fresh(f"havoc!{region.name}.{key[1]}", ("w", lt.width)))
            return
        sort = self.idxsort() if len(key) > 2 else region_sorts(self, region, key[1])
        f = z3.Function(f"havoc!{region.name}.{key[1]}.{key[2] if len(key) > 2 else ''}!{n}", *([self.idxsort()] * region.nidx), sort)
        def rd(idx, f=f, old=old, pat=pat):
            c = AND(*[EQ(i, p) for i, p in zip(idx, pat) if p is not None])
            if c is False:
                return old.read(idx)
            v = f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx])
            return v if c is True else mergev(c, v, old.read(idx))
        st.mem[key] = FnC(rd)


_OPS = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
        "eq": lambda a, b: a == b}


def _const_ite(e, depth=6):
    """e as a tree of (cond, left, right) over integer constants, or None."""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if depth and z3.is_app_of(e, z3.Z3_OP_ITE):
        l = _const_ite(e.arg(1), depth - 1)
        r = _const_ite(e.arg(2), depth - 1) if l is not None else None
        if l is not None and r is not None:
            return (e.arg(0), l, r)
    return None


def const_ite_cmp(p, a, b):
    """Comparison of an if-then-else tree over constants with a constant (e.g. the result of <=>)."""
    if isinstance(b, int) and z3.is_expr(a) and z3.is_app_of(a, z3.Z3_OP_ITE):
        t, k, op = _const_ite(a), b, _OPS[p]
    elif isinstance(a, int) and z3.is_expr(b) and z3.is_app_of(b, z3.Z3_OP_ITE):
        t, k, op = _const_ite(b), a, (lambda x, y: _OPS[p](y, x))
    else:
        return None
    if t is None:
        return None
    def go(t):
        if isinstance(t, int):
            return op(t, k)
        return ITE(t[0], go(t[1]), go(t[2]))
    r = go(t)
    # or(x == y, x < y) style results: let z3 normalise small formulas
    return r


_quant = {}


def quantified(f):
    """Does the formula contain a quantifier?"""
    if isinstance(f, bool):
        return False
    i = f.get_id()
    if i in _quant and _quant[i][1].eq(f):
        return _quant[i][0]
    stack, seen, r = [f], set(), False
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            r = True
            break
        if t.get_id() not in seen:
            seen.add(t.get_id())
            stack.extend(t.children())
    _quant[i] = (r, f)
    return r


_syms = {}


def symbols(f):
    """Names of the uninterpreted functions (not constants) in a formula."""
    i = f.get_id()
    if i in _syms and _syms[i][1].eq(f):
        return _syms[i][0]
    stack, seen, out = [f], set(), set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
    _syms[i] = (out, f)
    return out


def relevant(fs, goal, depth):
    """The ground formulas, and the quantified ones that share a function with the goal (directly, or through others)."""
    have = set(symbols(goal))
    chosen = set()
    for _ in range(depth):
        new = set(have)
        for k, f in enumerate(fs):
            if k not in chosen and quantified(f) and symbols(f) & have:
                chosen.add(k)
                new |= symbols(f)
        have = new
    return [f for k, f in enumerate(fs) if k in chosen or not quantified(f)]


class SkipCandidate(Exception):
    pass


def root_region(r):
    while r.kind == "elem":
        r = r.parent[0]
    return r


def region_sorts(ex, region, off):
    t = getattr(region, "llty", {}).get(off)
    if t is not None:
        return ex.zsort(t)
    ct = ex.cell_type(region, off)
    if ct == "double":
        return z3.RealSort()
    if ex.mode == "bv" and ct is not None:
        w = {"Measure": 64, "unsigned long": 64, "long": 64, "bool": 8, "unsigned int": 32, "int": 32}.get(ct, 64)
        return z3.BitVecSort(w)
    return ex.idxsort()


def as_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def ADDm(ex, a, b):
    if ex.mode == "bv":
        return ex.bv(a, 64) + ex.bv(b, 64) if not (isinstance(b, int) and b == 0) else a
    return ADD(a, b)


def SUBm(ex, a, b):
    if ex.mode == "bv":
        return ex.bv(a, 64) - ex.bv(b, 64)
    return SUB(a, b)


def vec_arg(t):
    """Element type of a normalised std::vector<...> name."""
    assert t.startswith("std::vector<")
    s = t[len("std::vector<"):]
    depth, out = 0, ""
    for ch in s:
        if ch == "<":
            depth += 1
        elif ch == ">":
            if depth == 0:
                break
            depth -= 1
        elif ch == "," and depth == 0:
            break
        out += ch
    return out.strip()


def const_at(m, init, off):
    if init is None:
        return None
    from llvmir import AggElem
    v = init
    while True:
        if v.kind == "zero":
            return 0 if v.type.kind != "double" else z3.RealVal(0)
        if v.kind == "undef":       # padding and empty classes
            return UNDEF
        if v.kind in ("int",):
            return v.v if off == 0 else None
        if v.kind == "fp":
            return z3.RealVal(repr(v.v)) if off == 0 else None
        if v.kind == "agg":
            ty = v.type
            if ty.kind == "struct":
                k = max(j for j, o in enumerate(ty.offs) if o <= off)
                off -= ty.offs[k]
            else:
                k, off = divmod(off, ty.elem.size)
            v = m.value(AggElem(v.key, k))
            continue
        if v.kind == "func" and off == 0:
            return Ptr.to(Addr(Region("func", v.name, 0)))
        return None
