"""
Contract layer on top of the VC generator: contracts are Python functions that
state preconditions over symbolic inputs, call a function of the extracted
code, and state postconditions. Every `ensure` is one obligation.

Contract functions are registered per property with @contract(...). run(prop)
executes them (in forked worker processes) and returns a list of result dicts.
"""
import concurrent.futures as cf
import multiprocessing as mp
import os
import pathlib
import pickle
import re
import resource
import signal
import subprocess
import tempfile
import time
import traceback
import z3

import layouts as LY
import llvmir
import models
import symex
from symex import *

CVC5 = "/usr/bin/cvc5" if os.path.exists("/usr/bin/cvc5") else "cvc5"
REGISTRY = {}


class NotFound(Exception):
    pass


def contract(prop, title, tier="quick", timeout=240):
    props = [prop] if isinstance(prop, str) else prop
    def deco(f):
        for p in props:
            REGISTRY.setdefault(p, []).append(dict(fn=f, title=title, tier=tier, timeout=timeout))
        return f
    return deco


_mod = None


def load():
    global _mod
    if _mod is None:
        import irbuild
        bc, lay, failed = irbuild.extract()
        _mod = (llvmir.Module(bc), LY.parse(lay), failed)
    return _mod


class View:
    """Typed view of an object in some state: v['field'] or v.path."""
    def __init__(self, V, addr, cls, st=None):
        self.V, self.addr, self.cls, self.st = V, addr, cls, st
    def at(self, st):
        return View(self.V, self.addr, self.cls, st)
    def fieldaddr(self, path):
        f = self.V.recs[self.cls].field(path)
        return Addr(self.addr.region, self.addr.idx, self.addr.off + f.off), f
    def get(self, path, st=None):
        a, f = self.fieldaddr(path)
        return self.V.readfield(st or self.st or self.V.st, a, f.type)
    def __getitem__(self, path):
        return self.get(path)
    def len(self, path, st=None):
        a, f = self.fieldaddr(path)
        return self.V.ex.veclen(st or self.st or self.V.st, a)
    def elem(self, path, i, sub=None, st=None):
        a, f = self.fieldaddr(path)
        t = vec_arg(f.type)
        ea = self.V.ex.vecelem(a, t, i)
        return self.V.viewof(st or self.st or self.V.st, ea, t, sub)
    @property
    def ptr(self):
        return Ptr.to(self.addr)


class V:
    """One contract run."""
    def __init__(self, mode="int", unroll=None, **kw):
        self.m, self.recs, self.failed = load()
        self.kw = dict(mode=mode, **kw)
        self.unroll = unroll
        self.results = []
        self.fns = set()
        self.execs = []
        self.new(mode)
    def new(self, mode="int", overflow=False):
        """Fresh executor and state."""
        self.ex = Executor(self.m, self.recs, mode=mode, overflow=overflow)
        self.ex.unroll = self.unroll
        self.ex.nsw_ops = []
        models.install(self.ex)
        self.st = State()
        self.execs.append(self.ex)
        return self.ex
    # ---- symbols
    def int(self, name, lo=None, hi=None):
        v = self.ex.const(name)
        if lo is not None or hi is not None:
            if self.ex.mode == "int":
                self.ex.rngs[v.get_id()] = (lo, hi, v)
                if lo is not None:
                    self.ex.facts.append(v >= lo)
                if hi is not None:
                    self.ex.facts.append(v <= hi)
        return v
    def require(self, *fs):
        for f in fs:
            self.st.assume(f)
    # ---- objects
    def obj(self, cls, ident):
        if isinstance(ident, str):
            ident = self.int(ident)
        return View(self, Addr(self.ex.heap(cls), (ident,), 0), cls)
    def localobj(self, cls, name="obj"):
        r = self.ex.local(name, ctype=self.recs[cls])
        return View(self, Addr(r, (), 0), cls)
    def readfield(self, st, a, t):
        if t.startswith("std::vector<"):
            return View(self, a, t, st)
        leaves = self.ex.leaf_cells(t) if not t.endswith(("*", "&")) else [(0, "scalar", t)]
        if len(leaves) == 1 and leaves[0][1] == "scalar":
            ll = self.ex.prim_ll(models.scalar_name(self.ex, t)) if not t.endswith(("*", "&")) else None
            if ll is not None:
                return self.ex.load_addr(st, Addr(a.region, a.idx, a.off + leaves[0][0]), ll)
            return self.ex.readcell(st, (a.region, a.off), a.idx)
        return View(self, a, t, st)
    def viewof(self, st, a, t, sub=None):
        t = LY.norm(t)
        v = View(self, a, t, st)
        if sub is not None:
            return v.get(sub, st)
        return self.readfield(st, a, t)
    def enum(self, cls, name):
        return self.m.global_int(f"verif_enum_{cls}_{name}")
    # ---- functions
    def find(self, pat):
        """Unique defined function whose demangled name matches the regular expression."""
        c = []
        for d, fs in self.m.bydem.items():
            if re.search(pat, d):
                c += [f for f in fs if not f.decl]
        if len(c) != 1:
            # constructors: prefer the base/complete duplicates (same body)
            names = {f.dem for f in c}
            if len(names) == 1 and c:
                c = [sorted(c, key=lambda f: f.name)[-1]]
            else:
                raise NotFound(f"{pat}: {sorted(names)[:4]}")
        return c[0]
    def call(self, pat, *args, st=None, ret=None):
        """Executes the function on the current state. Returns its value (or View of the returned object)."""
        fn = self.find(pat) if isinstance(pat, str) else pat
        self.fns.add(fn.dem)
        state = st or self.st
        args = [a.ptr if isinstance(a, View) else a for a in args]
        out = None
        if len(args) == len(fn.params) - 1 and ret is not None:
            out = self.localobj(ret, "ret")
            args = [out.ptr] + args
        if len(args) != len(fn.params):
            raise NotFound(f"{fn.dem}: {len(fn.params)} parameters, contract has {len(args)}")
        r, state = self.ex.call_function(fn, args, state)
        if st is None:
            self.st = state
        if out is not None:
            out.st = state
            return out
        return r
    # ---- obligations
    def ensure(self, name, goal, st=None, pc=None, timeout=20, also=()):
        pc = list((st or self.st).pc) if pc is None else list(pc)
        pc += [a for a in also if a is not True]
        self._discharge(name, pc, goal, timeout)
    def _discharge(self, name, pc, goal, timeout=20):
        t0 = time.time()
        ex = self.ex
        be = "z3"
        s, info = ex.prove(pc, goal, int(timeout * 1000))
        if s == "unknown":
            s2, info2 = cvc5_prove(ex, pc, goal, timeout)
            if s2 != "unknown":
                s, info, be = s2, info2, "cvc5"
        model = None
        if s == "failed":
            model = model_text(info)
        self.results.append(dict(name=name, status=s, backend=be if goal is not True else "simplifier", time=time.time() - t0,
                                 model=model, values=model_values(info) if s == "failed" else None,
                                 loops=(bool(ex.loopstats) or getattr(ex, 'abstract', False)) and self.unroll is None,
                                 reason=str(info) if s == "unknown" else None))
    def cover(self, name="precondition satisfiable", st=None, extra=True):
        """Vacuity guard: the state must be reachable."""
        t0 = time.time()
        r = self.ex.feasible((st or self.st).pc, extra)
        if r == z3.unknown:     # quantified hypotheses: satisfiability of the ground part
            name += " (ground part)"
            s = z3.Solver()
            s.set("timeout", 60000)
            for f in self.ex.facts + list((st or self.st).pc):
                if not has_quantifier(f):
                    s.add(f)
            if extra is not True:
                s.add(extra)
            r = s.check()
        self.results.append(dict(name=f"cover: {name}", status="proved" if r == z3.sat else ("vacuous" if r == z3.unsat else "unknown"),
                                 backend="z3", time=time.time() - t0, model=None, values=None, loops=False, cover=True,
                                 reason=None if r == z3.sat else str(r)))
    def no_overflow(self, name="signed arithmetic stays in range"):
        """One obligation per nsw operation recorded (grouped)."""
        ops = self.ex.nsw_ops
        goal = AND(*[AND(r >= -(2**(w - 1)), r < 2**(w - 1)) for _, r, w, *pc in ops])
        self._discharge(name + f" ({len(ops)} operations)", self.ovpc if hasattr(self, "ovpc") else self.st.pc, goal)
    def throws(self):
        """Disjunction of the conditions under which the code called so far throws."""
        return OR(*[AND(*p[0]) for p in self.ex.throws])


def loopvars(eview, phis, modified):
    """{label: fn(view) -> integer term} of what a loop carries: header phis and scalar locals.
    Pointers into vectors are represented by their index."""
    def idx(x):
        if isinstance(x, Ptr) and len(x.alts) == 1 and x.alts[0][1].region.kind == "elem" and x.alts[0][1].off == 0:
            return x.alts[0][1].idx[-1]
        if isinstance(x, (Ptr, Undef, Agg, PtrInt, ByteDiff)) or isinstance(x, bool) or z3.is_bool(x) or (z3.is_expr(x) and z3.is_real(x)):
            raise SkipCandidate()
        return x
    out = {}
    for ph in phis:
        out["phi " + (ph.name or "?")] = lambda w, ph=ph: idx(w.phis[ph])
    for key in modified:
        if key[0].kind == "local" and key[0].nidx == 0 and len(key) == 2:
            out[f"{key[0].name}+{key[1]}"] = lambda w, key=key: idx(w.ex.readcell(w.st, key, ()))
    good = {}
    for k, f in out.items():
        try:
            f(eview)
            good[k] = f
        except SkipCandidate:
            pass
    return good


def havocs(env):
    """Index terms that surrounding loops introduced."""
    seen, out = set(), []
    def add(x):
        if z3.is_expr(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x) and "havoc!" in x.decl().name() and x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
    for x in env.values():
        if isinstance(x, Ptr):
            for _, a in x.alts:
                for y in a.idx:
                    add(y)
        else:
            add(x)
    return out


class Sum:
    """Ghost prefix sum: S(0) = 0, S(k + 1) = S(k) + term(k) for 0 <= k. The definition is
    unfolded at the terms for which inst() is called (and at small constants)."""
    n = 0
    def __init__(self, v, name, term, cond=None, rng=None):
        Sum.n += 1
        self.v, self.name, self.term, self.cond, self.rng = v, name, term, cond, rng
        self.f = z3.Function(f"sum!{name}!{Sum.n}", z3.IntSort(), z3.IntSort())
        v.ex.facts.append(self.f(z3.IntVal(0)) == 0)
        self.done = set()
    def at(self, k):
        if isinstance(k, int):
            k = z3.IntVal(k)
        return self.f(k)
    def inst(self, k):
        """Unfolds the definition at k and k - 1; returns the sum of the first k terms."""
        for j in range(k if isinstance(k, int) else (self.v.unroll or 0) + 1):
            self.unfold(z3.IntVal(j))
        if isinstance(k, int):
            return self.f(z3.IntVal(k))
        self.unfold(k)
        self.unfold(k - 1)
        return self.f(k)
    def unfold(self, k):
        k = z3.simplify(k)
        if k.get_id() in self.done:
            return
        self.done.add(k.get_id())
        self.v.ex.keep = getattr(self.v.ex, "keep", []) + [k]
        nxt = z3.simplify(k + 1)
        self.v.ex.facts.append(z3.Implies(k >= 0, self.f(nxt) == self.f(k) + self.term(k)))
        if self.rng:   # precondition of the contract: no total overflows
            for q in (k, nxt):
                self.v.ex.facts.append(z3.And(self.rng[0] <= self.f(q), self.f(q) < self.rng[1]))


def sums_tmpl(sums, bounds=None, extra=None):
    """Loop template: something the loop carries grows by a prefix sum of something else it carries."""
    def tmpl(eview, phis, modified):
        lv = loopvars(eview, phis, modified)
        if extra:
            lv.update(extra(eview, phis, modified))
        out = []
        for x, gx in lv.items():
            for bn, b in (bounds or {}).items():
                out.append((f"0 <= {x} <= {bn}", lambda w, gx=gx, b=b: z3.And(0 <= gx(w), gx(w) <= b)))
            try:
                e0 = gx(eview)
            except SkipCandidate:
                continue
            for y, gy in lv.items():
                if x == y:
                    continue
                for s in sums:
                    def c(w, gx=gx, gy=gy, s=s, e0=e0):
                        return gx(w) == e0 + s.inst(gy(w))
                    out.append((f"{x} = entry + sum of {s.name} before {y}", c))
        return out
    return tmpl


def has_quantifier(f):
    stack, seen = [f], set()
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            stack.extend(t.children())
    return False


def model_text(m):
    try:
        items = [f"{d.name()} = {m[d]}" for d in m.decls()]
        return "\n".join(sorted(items))[:6000]
    except Exception:
        return str(m)[:6000]


def model_values(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v):
                    out[d.name()] = v.as_long()
                elif z3.is_bv_value(v):
                    out[d.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    out[d.name()] = float(v.as_fraction())
    except Exception:
        pass
    return out


def cvc5_prove(ex, pc, goal, timeout):
    try:
        s = z3.Solver()
        for f in ex.facts + ex.axioms:
            s.add(f)
        for f in pc:
            s.add(f)
        s.add(z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run([CVC5, f"--tlimit={int(timeout * 1000)}", f.name], capture_output=True, text=True, timeout=timeout + 10)
        finally:
            os.unlink(f.name)
        o = r.stdout.strip().split("\n")[0]
        if o == "unsat":
            return "proved", None
        return "unknown", o
    except Exception as e:
        return "unknown", str(e)


# ------------------------------------------------------------------ runner
def _work(spec, unroll, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        z3.set_param("memory_max_size", 4000)
    except Exception:
        pass
    q.send(spec.get("runner", run_one)(spec, unroll))
    q.close()


def run_one(spec, unroll=None):
    t0 = time.time()
    v = None
    out = dict(title=spec["title"], results=[], error=None)
    try:
        v = V(unroll=unroll)
        spec["fn"](v)
    except (Unsupported, NotFound, KeyError, Killed, RecursionError, z3.Z3Exception, AttributeError, TypeError, IndexError, ValueError, NotImplementedError, AssertionError) as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-1500:]
    if v is not None:
        out["results"] = v.results
        out["functions"] = sorted(v.fns)
        st, asm = {}, {}
        for ex in v.execs:
            st.update(ex.stepped)
            asm.update(ex.assumed)
        out["stepped"] = sorted(st)
        out["assumed"] = sorted(asm)
        out["solver_s"] = sum(e.z3time for e in v.execs)
        out["loops"] = [l for e in v.execs for l in e.loopstats]
    out["time"] = time.time() - t0
    return out


def run_specs(specs, jobs=6, unroll=None, budget=600):
    """Runs contracts in forked workers with individual timeouts."""
    if any("runner" not in s for s in specs):
        load()
    todo = list(specs)
    running, outs = [], {}
    ctx = mp.get_context("fork")
    t_end = time.time() + budget
    while todo or running:
        while todo and len(running) < jobs and time.time() < t_end:
            sp = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(sp, unroll, b))
            p.start()
            b.close()
            running.append((p, a, sp, time.time()))
        if todo and time.time() >= t_end:
            for sp in todo:
                outs[id(sp)] = dict(title=sp["title"], results=[], error="not run: time budget", time=0)
            todo = []
        done = []
        for r in running:
            p, a, sp, t = r
            if a.poll(0.02):
                try:
                    outs[id(sp)] = a.recv()
                except EOFError:
                    outs[id(sp)] = dict(title=sp["title"], results=[], error="worker died", time=time.time() - t)
                p.join(5)
                if p.is_alive():
                    p.kill()
                done.append(r)
            elif time.time() - t > sp["timeout"] or time.time() > t_end + 5:
                p.kill()
                p.join()
                outs[id(sp)] = dict(title=sp["title"], results=[], error="timeout", time=time.time() - t)
                done.append(r)
        for r in done:
            running.remove(r)
    return [outs[id(sp)] for sp in specs]
