"""
Assumed contracts on libstdc++ / runtime functions that are called by the code
under verification. Each use is recorded in Executor.assumed, and reported in
the evidence as an unchecked assumption. std::vector is modelled by its length
and element sequence; functions of the standard library that are not listed
here are executed from their real (header) bodies.
"""
import re
import z3
from symex import *
from symex import ADDm, SUBm, root_region
import layouts as LY

_VEC = re.compile(r"^(?:void |auto )?std::vector<")


def split_vec(dem):
    """'std::vector<T, A>::method<..>(args) const' -> (T, method, args) or None."""
    m = re.match(r"^(?:[\w:<>&*, \[\]\(\)]+? )?(std::vector<)", dem)
    i = dem.find("std::vector<")
    if i < 0:
        return None
    pre = dem[:i]
    if "(" in pre or (pre and not pre.endswith(" ")) or "<" in pre.split(" ")[0] and not pre.endswith(" "):
        return None
    j = i + len("std::vector<")
    depth = 1
    while j < len(dem) and depth:
        if dem[j] == "<":
            depth += 1
        elif dem[j] == ">":
            depth -= 1
        j += 1
    if not dem[j:].startswith("::"):
        return None
    targs = dem[i:j]
    rest = dem[j + 2:]
    m = re.match(r"(operator\[\]|operator=|~?\w+)(<.*?>)?\(", rest)
    if not m:
        return None
    # return-type prefix must not itself be a template whose argument mentions the vector
    if pre.count("<") != pre.count(">"):
        return None
    args = rest[rest.index("(", len(m.group(1))):] if m.group(1) != "operator[]" else rest[len("operator[]"):]
    el = targs[len("std::vector<"):-1]
    # first template argument
    depth, out = 0, ""
    for ch in el:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "," and depth == 0:
            break
        out += ch
    return LY.norm(out), m.group(1), args


def one(p, what="object"):
    if not isinstance(p, Ptr):
        raise Unsupported(f"{what}: not a pointer")
    alts = [a for c, a in p.alts if a.region.kind != "null"]
    if len(alts) != 1:
        raise Unsupported(f"{what}: ambiguous pointer")
    return alts[0]


def deref_value(ex, st, p, tname):
    """Value at *p of a scalar element type, or Addr for class types."""
    leaves = ex.leaf_cells(tname)
    if len(leaves) == 1 and leaves[0][1] == "scalar":
        return ex.load(st, p, ex.prim_ll(scalar_name(ex, tname)))
    return None


def scalar_name(ex, tname):
    t = LY.norm(tname)
    if t in LY.PRIM or t.endswith("*"):
        return t if not t.startswith("std::bitset") else "unsigned long"
    leaves = ex.leaf_cells(t)
    if len(leaves) == 1 and leaves[0][1] == "scalar" and leaves[0][2] != t:
        return scalar_name(ex, leaves[0][2])
    if t.endswith("ActivityType"):
        return t
    raise Unsupported(f"scalar type {t}")


def store_elem(ex, st, dst, tname, src):
    """*dst = *src for element type tname."""
    ex.copy_obj(st, tname, src, dst)


def vec_handler(ex, st, args, fn, inst):
    T, meth, sig = split_vec(fn.dem)
    ex.assumed[f"std::vector::{meth}"] = 1
    zero = 0 if ex.mode == "int" else z3.BitVecVal(0, 64)
    if meth in ("operator[]", "at"):
        p = args[0]
        i = plain(args[1])
        alts = []
        for c, a in p.alts:
            if a.region.kind == "null":
                continue
            alts.append((c, ex.vecelem(a, T, i)))
        if getattr(ex, "bounds", False):
            for c, a in p.alts:
                ex.oblige(f"vector index in bounds at line {inst.line}", st, IMPL(c, AND(i >= 0, i < ex.veclen(st, a))), fn.dem)
        return Ptr(alts)
    if meth in ("size",):
        acc = None
        for c, a in reversed(args[0].alts):
            if a.region.kind == "null":
                continue
            v = ex.veclen(st, a)
            acc = v if acc is None else mergev(c, v, acc)
        return acc
    if meth == "empty":
        acc = None
        for c, a in reversed(args[0].alts):
            v = EQ(ex.veclen(st, a), zero)
            acc = v if acc is None else mergev(c, v, acc)
        return acc
    if meth in ("begin", "cbegin", "data", "front"):
        return Ptr([(c, ex.vecelem(a, T, zero)) for c, a in args[0].alts])
    if meth in ("end", "cend"):
        return Ptr([(c, ex.vecelem(a, T, ex.veclen(st, a))) for c, a in args[0].alts])
    if meth in ("rbegin", "crbegin", "rend", "crend") and len(args) == 2:   # reverse_iterator: the position after the element
        p = Ptr([(c, ex.vecelem(a, T, zero if "end" in meth else ex.veclen(st, a))) for c, a in args[1].alts])
        ex.store_addr(st, one(args[0]), p, ex.prim_ll("pointer"), True)
        return None
    if meth == "back":
        return Ptr([(c, ex.vecelem(a, T, SUBm(ex, ex.veclen(st, a), 1))) for c, a in args[0].alts])
    a = one(args[0], "vector")
    if meth == "capacity":
        return ex.veclen(st, a)
    if meth in ("reserve", "~vector", "shrink_to_fit"):
        return None
    if meth == "clear":
        ex.setlen(st, a, zero)
        return None
    if meth == "vector":
        s = sig
        if s.startswith("()"):
            ex.setlen(st, a, zero)
            return None
        if "initializer_list" in s:
            # args: this, ptr, len, alloc   (initializer_list passed as two scalars)
            n = ex.ival(args[2])
            src = one(args[1])
            if n is None:
                raise Unsupported("initializer_list of symbolic length")
            ex.setlen(st, a, n)
            size = LY.sizeof(ex.recs, T)
            for k in range(n):
                store_elem(ex, st, ex.vecelem(a, T, k), T, ex.normaddr(Addr(src.region, src.idx, src.off + k * size)))
            return None
        if re.match(r"\(std::vector<", s) and "&&" in s.split(")")[0] or re.search(r"^\(std::vector<.*>&&", s):
            src = one(args[1])
            ex.copy_vec(st, T, src, a)
            ex.setlen(st, src, zero)
            return None
        if re.match(r"\(std::vector<", s):
            src = one(args[1])
            ex.copy_vec(st, T, src, a)
            return None
        if s.startswith("(unsigned long,"):
            n = plain(args[1])
            ex.setlen(st, a, n)
            if "const&, std::allocator" in s:
                fill(ex, st, a, T, one(args[2]))
            else:
                fill_default(ex, st, a, T)
            return None
        if "__normal_iterator" in s or (isinstance(args[1], Ptr) and len(args) > 2 and isinstance(args[2], Ptr)):
            b, e = one(args[1]), one(args[2])
            b, e = ex.normaddr(b), ex.normaddr(e)
            if b.region is not e.region or b.region.kind != "elem":
                raise Unsupported("vector range constructor")
            sr, so = b.region.parent
            n = SUBm(ex, e.idx[-1], b.idx[-1])
            ex.setlen(st, a, n)
            start = b.idx[-1]
            ex.copy_elems(st, T, Addr(sr, b.idx[:-1], so), a, lambda i: ADDm(ex, i, start))
            return None
        raise Unsupported(f"vector constructor {s}")
    if meth == "operator=":
        src = one(args[1])
        if "initializer_list" in sig:
            raise Unsupported("vector = {..}")
        ex.copy_vec(st, T, src, a)
        return args[0]
    if meth in ("push_back", "emplace_back"):
        n = ex.veclen(st, a)
        d = ex.vecelem(a, T, n)
        if meth == "push_back" or len(args) == 2 and same_type(sig, T, fn.dem):
            src = args[1]
            if len(src.alts) != 1:
                # scalar element through an ambiguous pointer
                v = ex.load(st, src, ex.prim_ll(scalar_name(ex, T)))
                ex.store_addr(st, d, v, ex.prim_ll(scalar_name(ex, T)), True)
            else:
                store_elem(ex, st, d, T, one(src))
            ex.setlen(st, a, ADDm(ex, n, 1))
            return Ptr.to(d)
        return emplace(ex, st, a, d, T, n, args, fn, inst)
    if meth == "pop_back":
        ex.setlen(st, a, SUBm(ex, ex.veclen(st, a), 1))
        return None
    if meth == "resize":
        n0, n = ex.veclen(st, a), plain(args[1])
        if len(args) > 2:
            fill(ex, st, a, T, one(args[2]), lo=n0)
        else:
            fill_default(ex, st, a, T, lo=n0)
        ex.setlen(st, a, n)
        return None
    if meth in ("insert", "emplace"):
        pos = ex.normaddr(one(args[1]))
        k = pos.idx[-1]
        n = ex.veclen(st, a)
        if len(args) != 3:
            raise Unsupported("vector::insert range")
        src = one(args[2])
        # element value first (it may live in this vector)
        tmp = ex.local("instmp", ctype=ex.recs.get(T) or T)
        store_elem(ex, st, Addr(tmp), T, src)
        ex.copy_elems(st, T, a, a, lambda i: ITE(cmp(ex, i, k), i, SUBm(ex, i, 1)))
        store_elem(ex, st, ex.vecelem(a, T, k), T, Addr(tmp))
        ex.setlen(st, a, ADDm(ex, n, 1))
        return Ptr.to(ex.vecelem(a, T, k))
    if meth == "erase":
        pos = ex.normaddr(one(args[1]))
        k = pos.idx[-1]
        n = ex.veclen(st, a)
        if len(args) == 3:
            e = ex.normaddr(one(args[2])).idx[-1]
            cnt = SUBm(ex, e, k)
        else:
            cnt = 1 if ex.mode == "int" else z3.BitVecVal(1, 64)
        ex.copy_elems(st, T, a, a, lambda i: ITE(cmp(ex, i, k), i, ADDm(ex, i, cnt)))
        ex.setlen(st, a, SUBm(ex, n, cnt))
        return Ptr.to(ex.vecelem(a, T, k))
    if meth == "swap":
        b = one(args[1])
        tmp = Addr(ex.local("vtmp"))
        ex.copy_vec(st, T, a, tmp)
        ex.copy_vec(st, T, b, a)
        ex.copy_vec(st, T, tmp, b)
        return None
    if meth == "assign" and sig.startswith("(unsigned long"):
        ex.setlen(st, a, plain(args[1]))
        fill(ex, st, a, T, one(args[2]))
        return None
    raise Unsupported(f"std::vector::{meth}{sig[:60]}")


def cmp(ex, i, k):
    if ex.mode == "bv":
        return z3.ULT(ex.bv(i, 64), ex.bv(k, 64))
    if is_const(i) and is_const(k):
        return i < k
    return as_int(i) < as_int(k)


from symex import as_int, vec_arg


def same_type(sig, T, dem):
    return False


def emplace(ex, st, a, d, T, n, args, fn, inst):
    """emplace_back(args...): constructs T(args...) in place."""
    # scalar from scalar reference
    leaves = ex.leaf_cells(T)
    tmpl = fn.dem[fn.dem.index("emplace_back") + len("emplace_back"):]
    if len(args) == 2 and len(leaves) == 1 and leaves[0][1] == "scalar":
        src = args[1]
        ty = ex.prim_ll(scalar_name(ex, T))
        m = re.match(r"<(\w[\w ]*)(?: const)?&?>", tmpl)
        lt = None
        a0 = src.alts[0][1]
        lt = getattr(a0.region, "llty", {}).get(a0.off) or ty
        v = ex.load(st, src, lt)
        ex.store_addr(st, d, v, ty, True)
        ex.setlen(st, a, ADDm(ex, n, 1))
        return Ptr.to(d)
    if len(args) == 1:
        default_obj(ex, st, d, T)
        ex.setlen(st, a, ADDm(ex, n, 1))
        return Ptr.to(d)
    # run the real constructor through std::construct_at<T, Args...>
    depth, key = 0, ""
    for ch in tmpl:
        if ch == "<":
            depth += 1
            if depth == 1:
                continue
        elif ch == ">":
            depth -= 1
            if depth == 0:
                break
        key += ch
    want = "std::construct_at<" + LY.norm(T + ", " + key).replace(" ", "") + ">("
    good = [f for d_, fs in ex.m.bydem.items() if "std::construct_at<" in d_ and want in LY.norm(d_).replace(" ", "") for f in fs if not f.decl]
    if not good:
        raise Unsupported(f"emplace_back{tmpl[:80]} (no constructor)")
    r, st2 = ex.call_function(good[0], [Ptr.to(d)] + list(args[1:]), st)
    ex.setlen(st2, a, ADDm(ex, n, 1))
    return Ptr.to(d), st2


def default_obj(ex, st, d, T):
    for off, kind, sub in ex.leaf_cells(T):
        x = Addr(d.region, d.idx, d.off + off)
        if kind == "vec":
            ex.setlen(st, x, 0 if ex.mode == "int" else z3.BitVecVal(0, 64))
        else:
            ty = ex.prim_ll(scalar_name(ex, sub))
            v = 0
            if T == "pyvrp::DurationSegment":
                f = ex.recs[T].leaf_at(off)
                nm = [k.name for k in ex.recs[T].kids if k.off == off][0]
                if nm in ("startLate_", "prevEndLate_"):
                    v = I64MAX
            ex.store_addr(st, x, (z3.RealVal(0) if ty.kind == "double" else v if ex.mode == "int" else z3.BitVecVal(v, ty.width)), ty, True)


def fill(ex, st, a, T, src, lo=None):
    """Elements (>= lo) of the vector at a become copies of the object at src."""
    dr = ex.elem(a.region, a.off, T)
    nd = len(a.idx)
    snap = st.copy()
    def value(off, kind, sub):
        return ex.readcell(snap, (src.region, src.off + off) if kind == "scalar" else (src.region, src.off + off, "len"), src.idx)
    for off, kind, sub in ex.leaf_cells(T):
        dk = (dr, off) if kind == "scalar" else (dr, off, "len")
        v = value(off, kind, sub)
        if isinstance(v, Ptr):
            v = ex.encode_ptr(v)
        if kind == "scalar" and not hasattr(dr, "llty"):
            dr.llty = {}
        if kind == "scalar":
            dr.llty.setdefault(off, ex.prim_ll(scalar_name(ex, sub)))
        prev = ex.cell(st, dk)
        def f(idx, v=v, prev=prev):
            c = AND(*[EQ(x, y) for x, y in zip(idx[:nd], a.idx)])
            if lo is not None:
                c = AND(c, NOT(cmp(ex, idx[nd], lo)))
            return mergev(c, v, prev.read(idx)) if c is not False else prev.read(idx)
        ex.bulkwrite(st, dk, FnC(f), tuple(a.idx) + (None,) * (dr.nidx - nd))
        if kind == "vec":
            er, sr = ex.elem(dr, off, sub), ex.elem(src.region, src.off + off, sub)
            for o2, k2, s2 in ex.leaf_cells(sub):
                if k2 == "vec":
                    raise Unsupported("deep fill")
                c2 = ex.cell(snap, (sr, o2))
                prev2 = ex.cell(st, (er, o2))
                def g(idx, c2=c2, prev2=prev2):
                    c = AND(*[EQ(x, y) for x, y in zip(idx[:nd], a.idx)])
                    if lo is not None:
                        c = AND(c, NOT(cmp(ex, idx[nd], lo)))
                    return mergev(c, c2.read(tuple(src.idx) + (idx[nd + 1],)), prev2.read(idx))
                ex.bulkwrite(st, (er, o2), FnC(g), tuple(a.idx) + (None, None))


def fill_default(ex, st, a, T, lo=None):
    tmp = Addr(ex.local("deflt", ctype=ex.recs.get(T) or T))
    default_obj(ex, st, tmp, T)
    fill(ex, st, a, T, tmp, lo)


_VEQ = re.compile(r"^bool std::operator==<.*>\(std::vector<.*> const&, std::vector<.*> const&\)$")


def vec_eq(ex, st, args, fn, inst):
    """std::operator==(vector, vector): same length and pairwise equal elements."""
    d = fn.dem
    i = d.index("(std::vector<") + 1
    depth, j = 0, i
    while True:
        if d[j] == "<":
            depth += 1
        elif d[j] == ">":
            depth -= 1
            if depth == 0:
                break
        j += 1
    T = vec_arg(LY.norm(d[i:j + 1]))
    ex.assumed["std::operator==(std::vector): same length and pairwise equal elements"] = 1
    a, b = one(args[0]), one(args[1])
    k = ex.fresh("k")
    x, y = ex.vecelem(a, T, k), ex.vecelem(b, T, k)
    eq = obj_eq(ex, st, T, x, y)
    n = ex.veclen(st, a)
    rng = z3.And(k >= 0, k < n) if ex.mode == "int" else z3.ULT(k, n)
    q = z3.ForAll([k], z3.Implies(rng, eq)) if eq is not True else True
    return AND(EQ(n, ex.veclen(st, b)), q)


def obj_eq(ex, st, T, x, y):
    T = LY.norm(T)
    if T.startswith("std::pair<") or T in LY.PRIM or len(ex.leaf_cells(T)) == 1 and ex.leaf_cells(T)[0][1] == "scalar":
        cs = []
        for off, kind, sub in ex.leaf_cells(T):
            if kind == "vec":
                raise Unsupported("equality of nested vectors")
            ty = ex.prim_ll(scalar_name(ex, sub))
            cs.append(EQ(ex.load_addr(st, Addr(x.region, x.idx, x.off + off), ty), ex.load_addr(st, Addr(y.region, y.idx, y.off + off), ty)))
        return AND(*cs)
    if T.startswith("std::vector<"):
        sub = vec_arg(T)
        k = ex.fresh("k")
        e = obj_eq(ex, st, sub, ex.vecelem(x, sub, k), ex.vecelem(y, sub, k))
        n = ex.veclen(st, x)
        return AND(EQ(n, ex.veclen(st, y)), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), e)))
    # the element's own operator==
    c = [f for d, fs in ex.m.bydem.items() for f in fs if not f.decl and
         (LY.norm(d) == f"{T}::operator==({T}&)" or LY.norm(d.replace(" const", "")) in (f"{T}::operator==({T}&)", f"bool operator==({T}&, {T}&)", f"operator==({T}&, {T}&)"))]
    if len(c) < 1:
        raise Unsupported(f"operator== of {T}")
    n = len(st.pc)
    r, st2 = ex.call_function(c[0], [Ptr.to(x), Ptr.to(y)], st.copy())
    return r


# ---- std::find / find_if / any_of / all_of / none_of (through std::__find_if)
def find_if(ex, st, args, fn, inst):
    """std::__find_if(first, last, pred, tag): the first position that satisfies the
    predicate, or last. The predicate's own code is executed at an arbitrary position."""
    b, e = ex.normaddr(one(args[0])), ex.normaddr(one(args[1]))
    if b.region is not e.region or b.region.kind != "elem" or ex.mode != "int":
        raise Unsupported("find_if range")
    callee = None
    for blk in fn.blocks:
        for i in blk.insts:
            if i.op in ("call", "invoke") and i.callee.kind == "func" and not i.callee.name.startswith("llvm."):
                f = ex.m.functions[i.callee.name]
                if "__gnu_cxx::__ops::_Iter_" in f.dem and "::operator()" in f.dem:
                    callee = f
    if callee is None:
        raise Unsupported("find_if predicate")
    ex.assumed["std::find_if: first position that satisfies the predicate, else last"] = 1
    pred = ex.local("pred")
    for k, a in enumerate(args[2:]):
        ex.store_addr(st, Addr(pred, (), 8 * k), a, ex.prim_ll("pointer") if isinstance(a, Ptr) else ex.prim_ll("long"), True)
    lo, hi = b.idx[-1], e.idx[-1]
    def P(k):
        r, _ = ex.call_function(callee, [Ptr.to(Addr(pred)), Ptr.to(Addr(b.region, b.idx[:-1] + (k,), b.off))], st.copy())
        return ex.asbool(r)
    r, k = ex.fresh("found"), ex.fresh("k")
    st.assume(z3.And(as_int(lo) <= r, r <= as_int(hi)) if True else True)
    pk, pr = P(k), P(r)
    q = NOT(pk)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(as_int(lo) <= k, k < r), q if not isinstance(q, bool) else z3.BoolVal(q))))
    st.assume(OR(EQ(r, hi), pr))
    return Ptr.to(Addr(b.region, b.idx[:-1] + (r,), b.off))


# ---- strings: a character array is a heap object with one content cell
STRING = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def string_handler(ex, st, args, fn, inst):
    d = fn.dem.replace(" const", "")
    meth = d[d.index(STRING) + len(STRING) + 2:]
    if meth.startswith(("data()", "c_str()")):
        return ex.load(st, args[0], ex.prim_ll("pointer"))
    if meth.startswith("~basic_string"):
        return None
    if meth.startswith("basic_string(") and STRING in meth:      # copy, move
        src = ex.load(st, args[1], ex.prim_ll("pointer"))
        ex.store(st, args[0], new_string(ex, st, content(ex, st, src)), ex.prim_ll("pointer"))
        return None
    if meth.startswith("basic_string<std::allocator<char>>(char*") or meth.startswith("basic_string<std::allocator<char>>(char *"):
        ex.store(st, args[0], new_string(ex, st, content(ex, st, args[1])), ex.prim_ll("pointer"))
        return None
    raise Unsupported(f"std::string::{meth[:60]}")


def content(ex, st, p):
    """Term that stands for the characters at p."""
    ex.assumed["strings: a value copied by strcpy and std::string, compared by strcmp"] = 1
    acc = None
    for c, a in reversed(p.alts):
        if a.region.kind == "null":
            continue
        if a.region is not ex.heap("char") or a.off != 0:
            raise Unsupported(f"string at {a}")
        v = ex.readcell(st, (a.region, 0), a.idx)
        acc = v if acc is None else mergev(c, v, acc)
    if acc is None:
        raise Killed()
    return acc


def new_string(ex, st, val=None):
    n = ex.fresh("string")
    ex.facts.append(n > 0)
    r = ex.heap("char")
    if val is not None:
        ex.writecell(st, (r, 0), (n,), val)
    return Ptr.to(Addr(r, (n,), 0))


def cstring(ex, st, args, fn, inst):
    if fn.dem == "strlen":
        return ex.fresh("strlen")
    if fn.dem.startswith("operator new[]"):
        return new_string(ex, st)
    if fn.dem == "strcpy":
        ex.writecell(st, (ex.heap("char"), 0), one(args[0]).idx, content(ex, st, args[1]))
        return args[0]
    if fn.dem == "strcmp":
        d = ex.fresh("strcmp")
        same_ = EQ(content(ex, st, args[0]), content(ex, st, args[1]))
        st.assume(d != 0)
        return ITE(same_, 0, d)


def throwing(dem):
    return dem.startswith(("std::__throw_", "__cxa_allocate_exception", "__cxa_throw", "std::__glibcxx_assert_fail",
                           "__cxa_rethrow", "__cxa_bad", "__clang_call_terminate", "std::terminate")) or dem in ("abort",)


def throw_handler(ex, st, args, fn, inst):
    if fn.dem == "__cxa_throw" or fn.dem == "__cxa_allocate_exception" or fn.dem.startswith("std::__throw"):
        ex.throws.append((list(st.pc), fn.dem, inst.line))
    raise Killed()


def noop(ex, st, args, fn, inst):
    return None


def stream(ex, st, args, fn, inst):
    """Messages of exceptions: not modelled; the stream is what is returned."""
    return args[0] if fn.dem.find("operator<<") >= 0 else None


def is_stream(d):
    return "std::basic_ostream<char" in d and "operator<<" in d or d.startswith("operator<<(std::basic_ostream<char") or d.startswith(("operator<<(std::ostream&", "std::ostream::operator<<(")) or \
        d.startswith("std::__cxx11::basic_ostringstream<char")


def install(ex):
    H = ex.handlers
    H.append((is_stream, stream))
    H.append((throwing, throw_handler))
    H.append((lambda d: bool(_VEQ.match(d)), vec_eq))
    H.append((lambda d: split_vec(d) is not None, vec_handler))
    H.append((lambda d: " std::__find_if<" in d and d.endswith("std::random_access_iterator_tag)"), find_if))
    H.append((lambda d: d.startswith(STRING + "::"), string_handler))
    H.append((lambda d: d in ("strlen", "strcpy", "strcmp", "operator new[](unsigned long)"), cstring))
    ex.ptr_targets["char"] = "char"
    H.append((lambda d: d.startswith(("operator delete", "std::allocator<", "std::__new_allocator")) or d.startswith("operator delete"), noop))
    def minmax(ex_, st, args, fn, inst):
        raise Unsupported("minmax")
    return ex
