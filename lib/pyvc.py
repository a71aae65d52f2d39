"""
VC generator for the Python part of the repository.

The functions under contract are read with `ast` from the files in /repo on every
run and executed symbolically; nothing is re-written by hand. Branches on symbolic
conditions are explored path by path (each path re-executes the contract with
a prefix of decisions), loops over symbolic data are cut by the invariants that the
contract states (entry, preservation and use are separate obligations; anything
a loop body changes that is not havocked is rejected), and calls are
stepped into unless the contract gives a stand-in that implements the callee's contract.

Values: Python values where concrete; z3 terms (Int, Real, FP, Bool, Ref)
where symbolic; Obj for instances of classes of the repository; SList for lists of
symbolic length. Python integers are unbounded, so Int is exact; floats are IEEE doubles
(z3 FP) where the contract declares them so.
"""
import ast
import builtins
import itertools
import os
import pathlib
import subprocess
import tempfile
import time
import traceback
import z3

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
Ref = z3.DeclareSort("Ref")
NONE = z3.Const("None", Ref)
F64 = z3.Float64()
RNE = z3.RNE()


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    """The current path ends here."""


class PyRaise(Exception):
    def __init__(self, name, args=()):
        self.name, self.args_ = name, args
    def __str__(self):
        return f"raise {self.name}"


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def is_z(x):
    return isinstance(x, z3.ExprRef)


def is_fp(x):
    return isinstance(x, z3.FPRef)


def is_num(x):
    return isinstance(x, (int, float)) or (is_z(x) and (z3.is_arith(x) or is_fp(x)))


def fp(x):
    if is_fp(x):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, float)):
        return z3.FPVal(x, F64)
    if is_z(x) and x.is_int():
        return z3.fpToFP(RNE, z3.ToReal(x), F64)
    raise Unsupported(f"float of {x}")


def asbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ------------------------------------------------------------------- values
class Module:
    def __init__(self, it, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(path.read_text(), filename=str(path))
        self.globals = {}
        self.defs = {}
        self.imports = {}
        self.assigns = {}
        self._scan(self.tree.body)
    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    parts = parts[:len(parts) - n.level] if self.path.name != "__init__.py" else parts[:len(parts) - n.level + 1]
                    base = ".".join(parts + ([base] if base else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigns[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.assigns[n.target.id] = n.value
            elif isinstance(n, ast.If):
                self._scan(n.body)
                self._scan(n.orelse)


class Ext:
    """A name from outside the repository, e.g. numpy.clip."""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return f"<{self.name}>"


class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.consts, self.fields = {}, {}, []
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign):
                self.fields.append((n.target.id, n.value))
        self.dataclass = any("dataclass" in ast.dump(d) for d in node.decorator_list)


class Func:
    def __init__(self, module, node, cls=None, closure=None):
        self.module, self.node, self.cls, self.closure = module, node, cls, closure
        self.qual = (cls.name + "." if cls else "") + getattr(node, "name", "<lambda>")


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Obj:
    def __init__(self, v, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        v.heap.append(self)
    def __repr__(self):
        return f"<{self.cls.name} {self.attrs}>"
    def __getitem__(self, k):
        try:
            return self.attrs[k]
        except KeyError:
            raise Unsupported(f"{self.cls.name} has no attribute {k}")


def only(obj, *names):
    """The state of the object consists of exactly these attributes (else the contract's invariant does not describe it)."""
    if set(obj.attrs) != set(names):
        raise Unsupported(f"the state of {obj.cls.name} is {sorted(obj.attrs)}, the contract is stated over {sorted(names)}")


class SList:
    """List of symbolic length: n and an element function (array or Python callable)."""
    def __init__(self, v, n, get, sort=None, heap=True):
        self.n, self.get, self.sort = n, get, sort
        if heap:
            v.heap.append(self)
    def at(self, i):
        if isinstance(self.get, z3.ExprRef):
            return z3.Select(self.get, i)
        return self.get(i)


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Sum:
    """The sum of fn(i) for 0 <= i < n, kept symbolic."""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


_SUMS = itertools.count()


# --------------------------------------------------------------- interpreter
class PV:
    """One contract run over all paths."""
    lang = "py"
    def __init__(self):
        self.results = {}
        self.order = []
        self.fns = set()
        self.stepped = set()
        self.assumed = set()
        self.z3time = 0.0
        self.modules = {}
        self.paths = 0
        self.obl_time = {}

    # ---- paths
    def explore(self, fn, maxpaths=400, budget=200):
        t_end = time.time() + budget
        todo = [[]]
        while todo:
            if self.paths >= maxpaths or time.time() > t_end:
                raise Unsupported(f"more than {self.paths} paths")
            self.prefix = todo.pop()
            self.start()
            try:
                fn(self)
            except Infeasible:
                pass
            except PyRaise as e:
                raise Unsupported(f"unexpected exception: {e}")
            self.paths += 1
            todo += self.alts

    def start(self):
        self.trail, self.alts = [], []
        self.pc, self.facts = [], []
        self.heap = []
        self.fresh_n = 0
        self.loops = {}
        self.stubs = dict(STUBS)
        self.pure = 0
        self.modules = {}
        self.depth = 0
        self.ghost = {}
        self.shapes = {}

    def check(self, *extra, timeout=1500):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.facts, *self.pc, *extra)
        t = time.time()
        r = s.check()
        self.z3time += time.time() - t
        return r

    def branch(self, cond):
        """Decides a symbolic condition on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.trail)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            t = self.check(cond) != z3.unsat
            f = self.check(z3.Not(cond)) != z3.unsat
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                self.alts.append(self.trail + [False])
        self.trail.append(d)
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """A choice of the contract between n cases (all are explored)."""
        for i in range(n - 1):
            k = len(self.trail)
            if k < len(self.prefix):
                d = self.prefix[k]
            else:
                d = True
                self.alts.append(self.trail + [False])
            self.trail.append(d)
            if d:
                return i
        return n - 1

    # ---- symbols
    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const(f"{base}!{self.fresh_n}", sort)
    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.pc.append(x >= lo)
        if hi is not None:
            self.pc.append(x <= hi)
        return x
    def bool(self, name):
        return z3.Bool(name)
    def float(self, name, nan=False):
        x = z3.FP(name, F64)
        if not nan:
            self.pc.append(z3.Not(z3.fpIsNaN(x)))
        return x
    def ref(self, name, none=False):
        x = z3.Const(name, Ref)
        if not none:
            self.pc.append(x != NONE)
        return x
    def require(self, *fs):
        for f in fs:
            if f is True:
                continue
            self.pc.append(asbool(f))

    # ---- obligations
    def ensure(self, name, goal, timeout=20, also=(), base=False):
        """base: the constructor establishes the representation this contract is stated over; if
        that is refuted, the representation is another one and the contract does not apply."""
        goal = self.truth(goal)
        r = self.results.get(name)
        if r is None:
            r = self.results[name] = dict(base=base, name=name, status="proved", backend="z3", time=0.0, model=None, values=None, loops=False, reason=None, paths=0)
            self.order.append(name)
        r["paths"] += 1
        if goal is True:
            return
        if goal is False:
            goal = z3.BoolVal(False)
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(*self.facts, *self.pc, *also, z3.Not(goal))
        c = s.check()
        be = "z3"
        why = s.reason_unknown() if c == z3.unknown else None
        if c == z3.unknown and cvc5(s, timeout) == "unsat":
            c, be = z3.unsat, "cvc5"
        dt = time.time() - t0
        self.z3time += dt
        r["time"] += dt
        if c == z3.unsat:
            if be == "cvc5":
                r["backend"] = "cvc5"
        elif c == z3.sat:
            if r["status"] != "failed":
                m = s.model()
                r["status"] = "failed"
                r["model"] = "\n".join(sorted(f"{d.name()} = {m[d]}" for d in m.decls()))[:4000]
        elif r["status"] == "proved":
            r["status"], r["reason"] = "unknown", why
    def cover(self, name):
        n = f"cover: {name}"
        r = self.results.get(n)
        if r is None:
            r = self.results[n] = dict(name=n, status="vacuous", backend="z3", time=0.0, model=None, values=None, loops=False, cover=True, reason="not reachable")
            self.order.append(n)
        if r["status"] != "proved" and self.check() == z3.sat:
            r["status"], r["reason"] = "proved", None

    # ---- modules
    def module(self, name):
        if name not in self.modules:
            p = REPO / (name.replace(".", "/") + ".py")
            if not p.exists():
                p = REPO / name.replace(".", "/") / "__init__.py"
            if not p.exists():
                return None
            self.modules[name] = Module(self, name, p)
        return self.modules[name]

    def lookup(self, modname, name):
        """Global `name` of a module of the repository."""
        full = f"{modname}.{name}"
        if full in self.stubs:
            self.assumed.add(full)
            return self.stubs[full]
        m = self.module(modname)
        if m is None:
            return Ext(full)
        if name in m.globals:
            return m.globals[name]
        if name in m.defs:
            n = m.defs[name]
            val = Class(m, n) if isinstance(n, ast.ClassDef) else Func(m, n)
        elif name in m.imports:
            base, attr = m.imports[name]
            if attr is None:
                val = Ext(base)
            elif base.split(".")[0] == "pyvrp":
                sub = self.module(f"{base}.{attr}")
                mm = self.module(base)
                # a class with the name of its module (from pyvrp.X import X / package re-exports)
                if mm is not None and (attr in mm.defs or attr in mm.imports or attr in mm.assigns):
                    val = self.lookup(base, attr)
                elif sub is not None:
                    val = Ext(f"{base}.{attr}")
                else:
                    val = self.lookup(base, attr) if mm is not None else self.stub(f"{base}.{attr}")
            else:
                val = self.stub(f"{base}.{attr}")
        elif name in m.assigns:
            val = self.eval(m.assigns[name], Frame(m, {}))
        elif hasattr(builtins, name):
            val = self.stub(f"builtins.{name}")
        else:
            raise Unsupported(f"name {name} in {modname}")
        m.globals[name] = val
        return val

    def stub(self, full):
        if full in self.stubs:
            if not full.startswith("builtins."):
                self.assumed.add(full)
            return self.stubs[full]
        return Ext(full)

    def cls(self, modname, name):
        c = self.lookup(modname, name)
        if not isinstance(c, Class):
            raise Unsupported(f"{modname}.{name} is not a class")
        return c

    # ---- calling
    def new(self, modname, name, *args, **kw):
        c = self.cls(modname, name)
        return self.instantiate(c, list(args), kw)

    def raw(self, modname, name, **attrs):
        """An instance in an arbitrary state (attributes given)."""
        c = self.cls(modname, name)
        return Obj(self, c, attrs)

    def callm(self, obj, meth, *args, **kw):
        f = self.getattr(obj, meth)
        if isinstance(f, Bound):
            self.fns.add(f"{f.fn.module.name}: {f.fn.qual}")
        return self.call(f, list(args), kw)

    def callf(self, modname, name, *args, **kw):
        f = self.lookup(modname, name)
        if not isinstance(f, Func):
            raise Unsupported(f"{modname}.{name} is not a function")
        self.fns.add(f"{modname}: {f.qual}")
        return self.call(f, list(args), kw)

    def catching(self, fn, *args, **kw):
        try:
            return "ok", fn(*args, **kw)
        except PyRaise as e:
            return e.name, None

    def instantiate(self, c, args, kw):
        full = f"{c.module.name}.{c.name}"
        if full in self.stubs:
            self.assumed.add(full)
            return self.call(self.stubs[full], args, kw)
        o = Obj(self, c)
        if c.dataclass and "__init__" not in c.methods:
            names = [n for n, _ in c.fields]
            vals = dict(zip(names, args))
            vals.update(kw)
            for n, d in c.fields:
                if n in vals:
                    o.attrs[n] = vals[n]
                elif d is not None:
                    o.attrs[n] = self.default(d, c)
                else:
                    raise Unsupported(f"missing field {n}")
            if "__post_init__" in c.methods:
                self.fns.add(f"{c.module.name}: {c.name}.__post_init__")
                self.call(Bound(Func(c.module, c.methods["__post_init__"], c), o), [], {})
            return o
        if "__init__" in c.methods:
            self.fns.add(f"{c.module.name}: {c.name}.__init__")
            self.call(Bound(Func(c.module, c.methods["__init__"], c), o), args, kw)
        elif args or kw:
            raise Unsupported(f"{c.name}() takes no arguments")
        return o

    def default(self, d, c):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.eval(k.value, Frame(c.module, {}))
                if k.arg == "default_factory":
                    return self.call(self.eval(k.value, Frame(c.module, {})), [], {})
        return self.eval(d, Frame(c.module, {}))

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Obj):
            if "__call__" in f.cls.methods:
                return self.call(self.getattr(f, "__call__"), args, kw)
            raise Unsupported(f"call of a {f.cls.name}")
        if isinstance(f, Ext):
            full = f.name
            if full in self.stubs:
                self.assumed.add(full)
                return self.call(self.stubs[full], args, kw)
            if full.startswith("builtins.") and issubclass_exc(full[9:]):
                return ExcVal(full[9:], args)
            raise Unsupported(f"call of {full}")
        if callable(f):
            return f(*args, **kw)
        raise Unsupported(f"call of {f!r}")

    def call_func(self, f, args, kw):
        full = f"{f.module.name}.{f.qual}"
        if full in self.stubs:
            self.assumed.add(full)
            st = self.stubs[full]
            return st(*args, **kw)
        if self.depth > 40:
            raise Unsupported("recursion")
        self.stepped.add(full)
        n = f.node
        a = n.args
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if not (isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "override")):
                    raise Unsupported(f"decorator on {f.qual}")
        env = dict(f.closure or {})
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported(f"{f.qual}: too many arguments")
        for k, x in zip(names, args):
            env[k] = x
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = kw.pop(k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise Unsupported(f"{f.qual}: keywords {list(kw)}")
        dn = names[len(names) - len(a.defaults):]
        for k, d in zip(dn, a.defaults):
            if k not in env or (f.closure and k in f.closure and k not in names[:len(args)]):
                env[k] = self.eval(d, Frame(f.module, {}))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval(d, Frame(f.module, {}))
        for k in names:
            if k not in env:
                raise Unsupported(f"{f.qual}: missing argument {k}")
        fr = Frame(f.module, env, f)
        if isinstance(n, ast.Lambda):
            return self.eval(n.body, fr)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            raise Unsupported("generator function")
        self.depth += 1
        try:
            self.block(n.body, fr)
            return None
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1

    # ---- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            c = o.cls
            if name in c.methods:
                n = c.methods[name]
                dec = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
                fn = Func(c.module, n, c)
                if "property" in dec:
                    return self.call(Bound(fn, o), [], {})
                if "staticmethod" in dec:
                    return fn
                return Bound(fn, o)
            if name in c.consts:
                return self.eval(c.consts[name], Frame(c.module, {}))
            for b in c.node.bases:
                base = self.base(c, b)
                if base is not None and name in base.methods:
                    return Bound(Func(base.module, base.methods[name], base), o)
            raise Unsupported(f"{c.name} has no attribute {name}")
        if isinstance(o, Class):
            if name in o.methods:
                return Func(o.module, o.methods[name], o)
            if name in o.consts:
                return self.eval(o.consts[name], Frame(o.module, {}))
            raise Unsupported(f"{o.name}.{name}")
        if isinstance(o, Ext):
            full = f"{o.name}.{name}"
            if full in self.stubs:
                self.assumed.add(full)
                return self.stubs[full]
            m = self.module(o.name)
            if m is not None:
                return self.lookup(o.name, name)
            return Ext(full)
        if isinstance(o, SList):
            return slist_method(self, o, name)
        if isinstance(o, list):
            return list_method(self, o, name)
        if is_z(o):
            h = self.shapes.get((o.sort().name(), name))
            if h is not None:
                return h(o)
            raise Unsupported(f"attribute {name} of a {o.sort()}")
        if isinstance(o, dict) and name in ("items", "keys", "values", "get"):
            return getattr(o, name)
        if hasattr(o, "__vstub__"):
            if hasattr(o, name):
                return getattr(o, name)
            raise Unsupported(f"attribute {name} of {type(o).__name__}")
        if isinstance(o, str) and name in ("format", "strip", "join"):
            return lambda *a, **k: "<text>"
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def base(self, c, b):
        if isinstance(b, ast.Name):
            try:
                x = self.lookup(c.module.name, b.id)
            except Unsupported:
                return None
            return x if isinstance(x, Class) else None
        return None

    def setattr(self, o, name, val):
        if isinstance(o, Obj):
            o.attrs[name] = val
        elif hasattr(o, "__vstub__") and hasattr(o, name):
            setattr(o, name, val)
        else:
            raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ---- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.eval(s.value, fr)
        elif isinstance(s, ast.Assign):
            val = self.eval(s.value, fr)
            for t in s.targets:
                self.assign(t, val, fr)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr), fr)
        elif isinstance(s, ast.AugAssign):
            cur = self.eval(as_load(s.target), fr)
            new = self.binop(type(s.op), cur, self.eval(s.value, fr), inplace=True)
            self.assign(s.target, new, fr)
        elif isinstance(s, ast.If):
            if self.branch(self.truth(self.eval(s.test, fr))):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
        elif isinstance(s, ast.Return):
            raise _Return(self.eval(s.value, fr) if s.value else None)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Raise):
            e = self.eval(s.exc, fr)
            if isinstance(e, ExcVal):
                raise PyRaise(e.name, e.args)
            if isinstance(e, Ext):
                raise PyRaise(e.name.split(".")[-1])
            if isinstance(e, (Class, Obj)):
                raise PyRaise(e.name if isinstance(e, Class) else e.cls.name)
            raise Unsupported("raise")
        elif isinstance(s, ast.Assert):
            if not self.branch(self.truth(self.eval(s.test, fr))):
                raise PyRaise("AssertionError")
        elif isinstance(s, ast.While):
            self.loop_while(s, fr)
        elif isinstance(s, ast.For):
            self.loop_for(s, fr)
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.FunctionDef):
            fr.env[s.name] = Func(fr.module, s, None, fr.env)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            raise Unsupported("local import")
        elif isinstance(s, ast.Try):
            self.stmt_try(s, fr)
        elif isinstance(s, ast.Delete):
            raise Unsupported("del")
        else:
            raise Unsupported(type(s).__name__)

    def stmt_try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    t = h.type
                    if t is None:
                        names = None
                    else:
                        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                            names.append(ast.unparse(x).split(".")[-1])
                    if names is None or e.name in names or "Exception" in names:
                        if h.name:
                            fr.env[h.name] = ExcVal(e.name, e.args_)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def assign(self, t, val, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = val
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, val)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), val)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, val, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, val, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(val, (list, tuple)):
            val = list(val)
            if star:
                k = star[0]
                after = len(elts) - k - 1
                if len(val) < len(elts) - 1:
                    raise PyRaise("ValueError")
                parts = val[:k] + [val[k:len(val) - after]] + val[len(val) - after:]
            else:
                if len(val) != len(elts):
                    raise PyRaise("ValueError")
                parts = val
        elif isinstance(val, SList):
            if star:
                k = star[0]
                after = len(elts) - k - 1
                parts = [val.at(i) for i in range(k)] + [SList(self, val.n - after - k, lambda i, k=k: val.at(i + k), val.sort)]
                parts += [val.at(val.n - after + j) for j in range(after)]
                if not self.branch(self.truth(val.n >= k + after)):
                    raise PyRaise("ValueError")
            else:
                if not self.branch(self.truth(val.n == len(elts))):
                    raise PyRaise("ValueError")
                parts = [val.at(i) for i in range(len(elts))]
        else:
            raise Unsupported(f"unpacking of {type(val).__name__}")
        for e, p in zip(elts, parts):
            self.assign(e.value if isinstance(e, ast.Starred) else e, p, fr)

    # ---- loops
    def loop_key(self, node, fr):
        if fr.func is None:
            return None
        k = 0
        for x in ast.walk(fr.func.node):
            if isinstance(x, (ast.While, ast.For)):
                if x is node:
                    return (f"{fr.module.name}.{fr.func.qual}", k)
                k += 1
        return None

    def loop_while(self, s, fr):
        if s.orelse:
            raise Unsupported("while/else")
        key = self.loop_key(s, fr)
        spec = self.loops.get(key)
        if spec is None:
            # no invariant: execute while the condition is decided by the path
            for _ in range(60):
                c = self.truth(self.eval(s.test, fr))
                if not isinstance(c, bool):
                    c2 = z3.simplify(c)
                    if not (z3.is_true(c2) or z3.is_false(c2)):
                        raise Unsupported(f"loop without invariant in {key}")
                    c = z3.is_true(c2)
                if not c:
                    return
                try:
                    self.block(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    pass
            raise Unsupported("loop does not end")
        L = LoopCtx(self, fr, key)
        self.cut(spec, L, s, fr, lambda: self.truth(self.eval(s.test, fr)), lambda: None, lambda: None)

    def loop_for(self, s, fr):
        if s.orelse:
            raise Unsupported("for/else")
        it = self.iter(self.eval(s.iter, fr))
        if isinstance(it, list):
            for x in it:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    continue
            return
        key = self.loop_key(s, fr)
        spec = self.loops.get(key)
        if spec is None:
            raise Unsupported(f"loop without invariant in {key}")
        L = LoopCtx(self, fr, key)
        L.i = z3.IntVal(0)
        L.n = it.n
        def havoc_i():
            L.i = self.fresh("i", z3.IntSort())
            self.pc.append(z3.And(L.i >= 0, L.i <= L.n))
        def bind():
            self.assign(s.target, it.at(L.i), fr)
        def step():
            L.i = L.i + 1
        self.cut(spec, L, s, fr, lambda: L.i < L.n, bind, step, havoc_i)

    def cut(self, spec, L, s, fr, guard, bind, step, havoc_i=lambda: None):
        """Invariant rule. spec: dict(inv=f(L)->[(name, formula)], havoc=f(L), step=f(L) optional)."""
        if spec.get("enter"):
            spec["enter"](L)
        for n, g in spec["inv"](L):
            self.ensure(f"loop invariant holds on entry: {n}", g)
        # havoc
        assigned = set()
        for x in s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    assigned.add(y.id)
                elif isinstance(y, ast.NamedExpr):
                    assigned.add(y.target.id)
        if isinstance(s, ast.While):
            for y in ast.walk(s.test):
                if isinstance(y, ast.NamedExpr):
                    assigned.add(y.target.id)
        for nme in sorted(assigned):
            if nme in fr.env:
                fr.env[nme] = self.havoc_like(fr.env[nme], nme, spec)
        havoc_i()
        changed = spec["havoc"](L) or []
        for n, g in spec["inv"](L):
            self.require(g)
        allowed = {id(o) for o in changed}
        snap = [(o, dict(o.attrs) if isinstance(o, Obj) else (o.n, o.get)) for o in self.heap if id(o) not in allowed]
        lists = [(l, list(l)) for l in self.lists_of(fr)]
        if self.branch(guard()):
            bind()
            if spec.get("body"):
                spec["body"](L)
            out = None
            try:
                self.block(s.body, fr)
            except _Continue:
                pass
            except _Break:
                out = "break"
            for o, old in snap:
                now = dict(o.attrs) if isinstance(o, Obj) else (o.n, o.get)
                if not same(old, now):
                    raise Unsupported(f"the loop changes {o!r}, which the invariant does not mention")
            for l, old in lists:
                if len(l) != len(old) or any(a is not b for a, b in zip(l, old)):
                    raise Unsupported("the loop changes a list which the invariant does not mention")
            if out == "break":
                return
            step()
            if spec.get("step"):
                spec["step"](L)
            for n, g in spec["inv"](L):
                self.ensure(f"loop invariant is preserved: {n}", g)
            raise Infeasible()
        return

    def lists_of(self, fr):
        out, seen = [], set()
        def walk(x):
            if isinstance(x, list) and id(x) not in seen:
                seen.add(id(x))
                out.append(x)
                for y in x:
                    walk(y)
        for x in fr.env.values():
            walk(x)
        for o in self.heap:
            if isinstance(o, Obj):
                for x in o.attrs.values():
                    walk(x)
        return out

    def havoc_like(self, x, name, spec):
        h = spec.get("vars", {}).get(name)
        if h is not None:
            return h()
        if isinstance(x, bool) or (is_z(x) and z3.is_bool(x)):
            return self.fresh(name, z3.BoolSort())
        if isinstance(x, int) or (is_z(x) and x.sort() == z3.IntSort()):
            return self.fresh(name, z3.IntSort())
        if isinstance(x, float):
            return self.fresh(name, F64)
        if is_z(x):
            return self.fresh(name, x.sort())
        return Undefined(name)

    # ---- expressions
    def truth(self, x):
        if isinstance(x, bool) or (is_z(x) and z3.is_bool(x)):
            return x
        if x is None:
            return False
        if isinstance(x, (int, float, str)):
            return bool(x)
        if is_z(x):
            if x.sort() == Ref:
                raise Unsupported("truth of an arbitrary object")
            if is_fp(x):
                return z3.Not(z3.fpIsZero(x))
            return x != 0
        if isinstance(x, (list, tuple, dict)):
            return len(x) > 0
        if isinstance(x, SList):
            return x.n > 0
        if isinstance(x, Sum):
            raise Unsupported("truth of a sum")
        if isinstance(x, Obj):
            if "__len__" in x.cls.methods or "__bool__" in x.cls.methods:
                raise Unsupported("truth of an object")
            return True
        if isinstance(x, Undefined):
            raise Unsupported(f"{x.name} may be undefined")
        return True

    def iter(self, x):
        """A Python list for concrete iterables, else an SList."""
        if isinstance(x, (list, tuple)):
            return list(x)
        if isinstance(x, SList):
            return x
        if isinstance(x, SRange):
            return SList(self, z3.If(x.hi > x.lo, x.hi - x.lo, 0) if is_z(x.hi) or is_z(x.lo) else max(0, x.hi - x.lo),
                         lambda i: i + x.lo, heap=False)
        if isinstance(x, (range, dict)):
            return list(x)
        if hasattr(x, "__viter__"):
            return self.iter(x.__viter__())
        if isinstance(x, Obj) and "__iter__" in x.cls.methods:
            raise Unsupported("iteration over an object")
        raise Unsupported(f"iteration over {type(x).__name__}")

    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        if e.id in fr.env:
            x = fr.env[e.id]
            if isinstance(x, Undefined):
                raise Unsupported(f"{e.id} may be undefined here")
            return x
        return self.lookup(fr.module.name, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iter(self.eval(x.value, fr))
                if isinstance(it, SList):
                    if isinstance(out, list):
                        out = self.concat(out, it) if out else it
                    else:
                        out = self.concat(out, it)
                else:
                    out = out + it if isinstance(out, list) else self.concat(out, it)
            else:
                v = self.eval(x, fr)
                out = out + [v] if isinstance(out, list) else self.concat(out, [v])
        return out

    def concat(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return list(a) + list(b)
        na = len(a) if isinstance(a, (list, tuple)) else a.n
        nb = len(b) if isinstance(b, (list, tuple)) else b.n
        def get(i, a=a, b=b):
            return ite(i < na, lambda: pick(a, i), lambda: pick(b, i - na))
        return SList(self, na + nb, get)

    def e_Dict(self, e, fr):
        return {self.eval(k, fr): self.eval(v, fr) for k, v in zip(e.keys, e.values)}

    def e_JoinedStr(self, e, fr):
        return "<text>"

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_Lambda(self, e, fr):
        return Func(fr.module, e, None, fr.env)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        if self.pure:
            return ite(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))
        return self.eval(e.body if self.branch(c) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        if self.pure:
            vals = [asbool(self.truth(self.eval(x, fr))) for x in e.values]
            return z3.And(*vals) if isand else z3.Or(*vals)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, fr)
            if k == len(e.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if t != isand:
                return v if not (is_z(v) and z3.is_bool(v)) else t
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(e.op, ast.USub):
            if is_fp(v):
                return z3.fpNeg(v)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.eval(e.left, fr), self.eval(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        if hasattr(a, "__vbin__"):
            return a.__vbin__(op, b)
        if hasattr(b, "__vrbin__"):
            return b.__vrbin__(op, a)
        if isinstance(a, (list, tuple, SList)) or isinstance(b, (list, tuple, SList)):
            if op is ast.Add and isinstance(a, (list, tuple, SList)) and isinstance(b, (list, tuple, SList)):
                if inplace and isinstance(a, list) and isinstance(b, (list, tuple)):
                    a.extend(b)
                    return a
                r = self.concat(a, b)
                return tuple(r) if isinstance(a, tuple) and isinstance(r, list) else r
            if op is ast.Mult:
                l, k = (a, b) if isinstance(a, list) else (b, a)
                if isinstance(l, list):
                    if isinstance(k, int):
                        return l * k
                    if len(l) == 1 and is_z(k):
                        x = l[0]
                        return SList(self, z3.If(k > 0, k, 0), lambda i: x)
            raise Unsupported("list arithmetic")
        if isinstance(a, str) or isinstance(b, str):
            return "<text>"
        if isinstance(a, Sum) or isinstance(b, Sum):
            raise Unsupported("arithmetic on a sum")
        if not is_z(a) and not is_z(b):
            if not is_num(a) or not is_num(b):
                raise Unsupported(f"operator on {type(a).__name__} and {type(b).__name__}")
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                 ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}.get(op)
            if f is None:
                raise Unsupported(op.__name__)
            return f()
        if is_z(a) and z3.is_bool(a):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_z(b) and z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if is_fp(a) or is_fp(b) or isinstance(a, float) or isinstance(b, float):
            if (is_z(a) and a.is_real() if z3.is_arith(a) else False) or (is_z(b) and b.is_real() if z3.is_arith(b) else False):
                a, b = [z3.RealVal(repr(x)) if isinstance(x, float) else x for x in (a, b)]
            else:
                a, b = fp(a), fp(b)
                f = {ast.Add: lambda: z3.fpAdd(RNE, a, b), ast.Sub: lambda: z3.fpSub(RNE, a, b), ast.Mult: lambda: self.fpmul(a, b), ast.Div: lambda: z3.fpDiv(RNE, a, b)}.get(op)
                if f is None:
                    raise Unsupported(op.__name__ + " on floats")
                return f()
        if not (is_num(a) and is_num(b)):
            raise Unsupported(f"operator on {a!r}, {b!r}")
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op in (ast.FloorDiv, ast.Mod):
            # Python floors; z3's div rounds so that the remainder is non-negative
            if not self.branch(self.truth(asbool(b != 0) if is_z(b) else b != 0)):
                raise PyRaise("ZeroDivisionError")
            pos = self.branch(self.truth(b > 0)) if is_z(b) else b > 0
            if not pos:
                raise Unsupported("division by a negative number")
            b = b if is_z(b) else z3.IntVal(b)
            a = a if is_z(a) else z3.IntVal(a)
            return a / b if op is ast.FloorDiv else a % b
        if op is ast.Div:
            if not self.branch(self.truth(b != 0)):
                raise PyRaise("ZeroDivisionError")
            a, b = [z3.ToReal(x) if is_z(x) and x.is_int() else (z3.RealVal(x) if not is_z(x) else x) for x in (a, b)]
            return a / b
        raise Unsupported(op.__name__)

    def fpmul(self, a, b):
        """The rounded product, as an uninterpreted commutative operation that gives no NaN for finite operands
        (IEEE 754: only 0 * inf and NaN operands do). Sound for proofs: fewer facts than fpMul has."""
        if str(a) > str(b):
            a, b = b, a
        f = z3.Function("fpmul", F64, F64, F64)
        r = f(a, b)
        fin = [z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))) for x in (a, b)]
        self.facts.append(z3.Implies(z3.And(*fin), z3.Not(z3.fpIsNaN(r))))
        return r

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op), left, right)
            res.append(c)
            if c is False:
                return False
            left = right
        if all(c is True for c in res):
            return True
        return res[0] if len(res) == 1 else z3.And(*[asbool(c) for c in res])

    def compare(self, op, a, b):
        if isinstance(a, Undefined) or isinstance(b, Undefined):
            raise Unsupported("comparison of an undefined value")
        if op in (ast.Is, ast.IsNot):
            r = self.identical(a, b)
            return r if op is ast.Is else ((not r) if isinstance(r, bool) else z3.Not(r))
        if op in (ast.In, ast.NotIn):
            if isinstance(b, (list, tuple)):
                cs = [self.compare(ast.Eq, a, x) for x in b]
                r = any(c is True for c in cs) or (z3.Or(*[asbool(c) for c in cs if c is not False]) if any(c is not False for c in cs) else False)
                return r if op is ast.In else ((not r) if isinstance(r, bool) else z3.Not(r))
            raise Unsupported("in")
        if hasattr(a, "__vcmp__"):
            return a.__vcmp__(op, b)
        if hasattr(b, "__vcmp__"):
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            return b.__vcmp__(sw.get(op, op), a)
        if not is_z(a) and not is_z(b):
            if op in (ast.Eq, ast.NotEq):
                if isinstance(a, (Obj, SList, Sum, list, tuple)) or isinstance(b, (Obj, SList, Sum, list, tuple)):
                    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not a and not b:
                        return op is ast.Eq
                    raise Unsupported("equality of objects")
                return (a == b) if op is ast.Eq else (a != b)
            if not (is_num(a) and is_num(b)):
                raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        if (a is None or b is None) and op in (ast.Eq, ast.NotEq):
            r = self.identical(a, b)
            return r if op is ast.Eq else ((not r) if isinstance(r, bool) else z3.Not(r))
        if (is_z(a) and a.sort() == Ref) or (is_z(b) and b.sort() == Ref):
            raise Unsupported("comparison of arbitrary objects")
        if is_z(a) and z3.is_bool(a):
            a = z3.If(a, 1, 0) if not (isinstance(b, bool) or (is_z(b) and z3.is_bool(b))) else a
        if is_z(b) and z3.is_bool(b):
            b = z3.If(b, 1, 0) if not (isinstance(a, bool) or (is_z(a) and z3.is_bool(a))) else b
        if is_fp(a) or is_fp(b) or isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and a == float("inf") or isinstance(b, float) and b == float("inf"):
                if not (is_fp(a) or is_fp(b)):  # an integer or real against infinity
                    fin_left = is_z(a)
                    return {ast.Lt: fin_left, ast.LtE: fin_left, ast.Gt: not fin_left, ast.GtE: not fin_left, ast.Eq: False, ast.NotEq: True}[op]
            if (is_z(a) and z3.is_arith(a)) or (is_z(b) and z3.is_arith(b)):
                if not (is_fp(a) or is_fp(b)):
                    a, b = [z3.RealVal(repr(x)) if isinstance(x, float) else x for x in (a, b)]
                    return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[op]()
            a, b = fp(a), fp(b)
            return {ast.Lt: lambda: z3.fpLT(a, b), ast.LtE: lambda: z3.fpLEQ(a, b), ast.Gt: lambda: z3.fpGT(a, b), ast.GtE: lambda: z3.fpGEQ(a, b),
                    ast.Eq: lambda: z3.fpEQ(a, b), ast.NotEq: lambda: z3.Not(z3.fpEQ(a, b))}[op]()
        if not ((is_num(a) or isinstance(a, bool) or (is_z(a) and z3.is_bool(a))) and (is_num(b) or isinstance(b, bool) or (is_z(b) and z3.is_bool(b)))):
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b, ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[op]()

    def identical(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if x is None:
                if is_z(y):
                    return y == NONE if y.sort() == Ref else False
                return False
        if is_z(a) and is_z(b) and a.sort() == b.sort() == Ref:
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            raise Unsupported("identity of booleans")
        if isinstance(a, (Obj, SList, list)) or isinstance(b, (Obj, SList, list)):
            return a is b
        raise Unsupported("identity")

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (Class, Ext)):
            return o  # typing subscription
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*[None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)])

    def getitem(self, o, i):
        if isinstance(o, dict):
            return o[i]
        if hasattr(o, "__vgetitem__"):
            return o.__vgetitem__(i)
        if isinstance(o, (list, tuple)):
            if isinstance(i, slice):
                if any(is_z(x) for x in (i.start, i.stop, i.step)):
                    raise Unsupported("symbolic slice")
                return o[i]
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    raise PyRaise("IndexError")
                return o[i]
            if is_z(i):
                for k in range(len(o)):
                    if self.branch(i == k):
                        return o[k]
                for k in range(1, len(o) + 1):
                    if self.branch(i == -k):
                        return o[-k]
                raise PyRaise("IndexError")
        if isinstance(o, SList):
            if isinstance(i, slice):
                if i.step is not None:
                    raise Unsupported("slice with a step")
                lo = 0 if i.start is None else self.clamp(i.start, o.n)
                hi = o.n if i.stop is None else self.clamp(i.stop, o.n)
                return SList(self, z3.If(hi > lo, hi - lo, 0), lambda k: o.at(k + lo), o.sort)
            return o.at(self.index(i, o.n))
        raise Unsupported(f"subscript of {type(o).__name__}")

    def clamp(self, i, n):
        if isinstance(i, int):
            return z3.If(n + i > 0, n + i, 0) if i < 0 else z3.If(i < n, z3.IntVal(i), n)
        raise Unsupported("symbolic slice")

    def index(self, i, n):
        """Python index into a list of length n: negative indices count from the end."""
        if isinstance(i, int) and i < 0:
            if not self.pure and not self.branch(self.truth(n + i >= 0)):
                raise PyRaise("IndexError")
            return n + i
        if not self.pure:
            if is_z(i) and not self.branch(i >= 0):
                i = n + i
                if not self.branch(i >= 0):
                    raise PyRaise("IndexError")
            if not self.branch(self.truth(i < n)):
                raise PyRaise("IndexError")
        return i

    def setitem(self, o, i, val):
        if isinstance(o, dict):
            o[i] = val
            return
        if isinstance(o, list):
            if isinstance(i, int):
                o[i] = val
                return
            for k in range(len(o)):
                if self.branch(i == k):
                    o[k] = val
                    return
            raise PyRaise("IndexError")
        if isinstance(o, SList):
            i = self.index(i, o.n)
            if isinstance(o.get, z3.ExprRef):
                if val is None:
                    val = NONE
                srt = o.get.sort().range()
                if not is_z(val):
                    val = fp(val) if srt == F64 else z3.IntVal(val) if srt == z3.IntSort() else z3.BoolVal(val) if srt == z3.BoolSort() else Unsupported
                    if val is Unsupported:
                        raise Unsupported("store")
                o.get = z3.Store(o.get, i, val)
            else:
                old = o.get
                o.get = lambda k, old=old, i=i, val=val: ite(k == i, lambda: val, lambda: old(k))
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def e_Call(self, e, fr):
        # super().__init__ etc. are not supported
        f = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iter(self.eval(a.value, fr))
                if isinstance(it, SList):
                    raise Unsupported("star argument of symbolic length")
                args += it
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.comp(a, fr))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if not isinstance(d, dict):
                    raise Unsupported("** argument")
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if isinstance(f, Ext) and f.name.startswith("builtins.") and f.name[9:] in BUILTINS:
            return BUILTINS[f.name[9:]](self, *args, **kw)
        return self.call(f, args, kw)

    def comp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        it = self.iter(self.eval(g.iter, fr))
        if isinstance(it, list):
            out = Lazy(self) if isinstance(e, ast.GeneratorExp) else []
            thunks = []
            def one(x):
                f2 = Frame(fr.module, dict(fr.env), fr.func)
                self.assign(g.target, x, f2)
                for c in g.ifs:
                    if not self.branch(self.truth(self.eval(c, f2))):
                        return SKIP
                return self.eval(e.elt, f2)
            if isinstance(out, Lazy):
                out.items = [lambda x=x: one(x) for x in it]
                return out
            for x in it:
                r = one(x)
                if r is not SKIP:
                    out.append(r)
            return out
        if g.ifs:
            def cond(i):
                return self.elem(e, g, it, i, fr, True)[0]
            return Filtered(it.n, cond, lambda i: self.elem(e, g, it, i, fr, False)[1])
        return SList(self, it.n, lambda i: self.elem(e, g, it, i, fr, False)[1], heap=False)

    def elem(self, e, g, it, i, fr, conds):
        f2 = Frame(fr.module, dict(fr.env), fr.func)
        self.pure += 1
        try:
            self.assign(g.target, it.at(i), f2)
            c = True
            if conds:
                cs = [asbool(self.truth(self.eval(x, f2))) for x in g.ifs]
                c = z3.And(*cs) if cs else True
                return c, None
            return c, self.eval(e.elt, f2)
        finally:
            self.pure -= 1

    e_ListComp = comp
    e_GeneratorExp = comp

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")


class Undefined:
    def __init__(self, name):
        self.name = name


class ExcVal:
    def __init__(self, name, args):
        self.name, self.args = name, args


SKIP = object()


class Lazy:
    """Generator over a concrete sequence: items are evaluated on demand."""
    def __init__(self, v):
        self.v, self.items = v, []
    def __viter__(self):
        return [x for x in (f() for f in self.items) if x is not SKIP]


class Filtered:
    def __init__(self, n, cond, get):
        self.n, self.cond, self.get = n, cond, get


class Frame:
    def __init__(self, module, env, func=None):
        self.module, self.env, self.func = module, env, func


class LoopCtx:
    def __init__(self, v, fr, key):
        self.v, self.fr, self.key, self.i, self.n = v, fr, key, None, None
    def __getitem__(self, name):
        if name not in self.fr.env:
            raise Unsupported(f"the loop invariant of {self.key} mentions {name}, which does not exist")
        x = self.fr.env[name]
        if isinstance(x, Undefined):
            raise Unsupported(f"{name} may be undefined")
        return x


def as_load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    if a is b:
        return True
    try:
        return type(a) is type(b) and isinstance(a, (int, float, str)) and a == b
    except Exception:
        return False


def ite(c, t, e):
    if isinstance(c, bool):
        return t() if c else e()
    c = z3.simplify(c)
    if z3.is_true(c):
        return t()
    if z3.is_false(c):
        return e()
    a, b = t(), e()
    if a is b:
        return a
    if a is None:
        a = NONE
    if b is None:
        b = NONE
    if is_fp(a) or is_fp(b) or isinstance(a, float) or isinstance(b, float):
        if not any(is_z(x) and z3.is_arith(x) and x.is_real() for x in (a, b)):
            a, b = fp(a), fp(b)
    if not is_z(a) and not is_z(b):
        if isinstance(a, bool) and isinstance(b, bool):
            a, b = z3.BoolVal(a), z3.BoolVal(b)
        elif isinstance(a, int) and isinstance(b, int):
            a, b = z3.IntVal(a), z3.IntVal(b)
        else:
            raise Unsupported(f"choice between {type(a).__name__} and {type(b).__name__}")
    return z3.If(c, a, b)


def pick(l, i):
    """l[i] for a concrete or symbolic list."""
    if isinstance(l, SList):
        return l.at(i)
    if not l:
        return z3.FreshConst(z3.IntSort())
    if isinstance(i, int):
        return l[min(max(i, 0), len(l) - 1)]
    r = l[-1]
    for k in range(len(l) - 2, -1, -1):
        r = ite(i == k, lambda k=k: l[k], lambda r=r: r)
    return r


def issubclass_exc(n):
    x = getattr(builtins, n, None)
    return isinstance(x, type) and issubclass(x, BaseException)


# ------------------------------------------------------------- list methods
def slist_method(v, o, name):
    if name == "append":
        def append(x):
            n = o.n
            if isinstance(o.get, z3.ExprRef):
                if x is None:
                    x = NONE
                if not is_z(x):
                    srt = o.get.sort().range()
                    x = fp(x) if srt == F64 else z3.IntVal(x)
                o.get = z3.Store(o.get, n, x)
            else:
                old = o.get
                o.get = lambda k: ite(k == n, lambda: x, lambda: old(k))
            o.n = n + 1
        return append
    if name == "clear":
        def clear():
            o.n = z3.IntVal(0)
        return clear
    if name == "tolist":
        return lambda: SList(v, o.n, o.get, o.sort)
    if name == "copy":
        return lambda: SList(v, o.n, o.get, o.sort)
    raise Unsupported(f"list.{name}")


def list_method(v, o, name):
    if name == "append":
        return o.append
    if name == "extend":
        def extend(x):
            it = v.iter(x)
            if isinstance(it, SList):
                raise Unsupported("extend")
            o.extend(it)
        return extend
    if name in ("clear", "copy"):
        return getattr(o, name)
    if name == "tolist":
        return lambda: list(o)
    raise Unsupported(f"list.{name}")


# ----------------------------------------------------------------- builtins
def b_len(v, x):
    if isinstance(x, (list, tuple, dict, str)):
        return len(x)
    if isinstance(x, SList):
        return x.n
    if isinstance(x, Obj):
        return v.call(v.getattr(x, "__len__"), [], {})
    if hasattr(x, "__vlen__"):
        return x.__vlen__()
    raise Unsupported("len")


def b_range(v, *a):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with a step")
    if isinstance(lo, int) and isinstance(hi, int):
        return list(range(lo, hi))
    return SRange(lo, hi)


def b_any(v, g):
    if isinstance(g, Lazy):
        for f in g.items:
            x = f()
            if x is not SKIP and v.branch(v.truth(x)):
                return True
        return False
    if isinstance(g, (list, tuple)):
        cs = [asbool(v.truth(x)) for x in g]
        return z3.Or(*cs) if cs else False
    if isinstance(g, SList):
        i = v.fresh("j", z3.IntSort())
        return z3.Exists([i], z3.And(i >= 0, i < g.n, asbool(v.truth(g.at(i)))))
    raise Unsupported("any")


def b_all(v, g):
    if isinstance(g, Lazy):
        for f in g.items:
            x = f()
            if x is not SKIP and not v.branch(v.truth(x)):
                return False
        return True
    if isinstance(g, (list, tuple)):
        cs = [asbool(v.truth(x)) for x in g]
        return z3.And(*cs) if cs else True
    if isinstance(g, SList):
        i = v.fresh("j", z3.IntSort())
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g.n), asbool(v.truth(g.at(i)))))
    raise Unsupported("all")


def num(x):
    if isinstance(x, bool):
        return int(x)
    if is_z(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def b_sum(v, g, start=0):
    if isinstance(g, Lazy) or isinstance(g, (list, tuple)):
        t = start
        for x in v.iter(g):
            t = v.binop(ast.Add, t, num(x))
        return t
    if isinstance(g, SList) and start == 0:
        return v.sumterm(g.n, lambda i: num(g.at(i)))
    if isinstance(g, Filtered) and start == 0:
        return v.sumterm(g.n, lambda i: z3.If(g.cond(i), num(g.get(i)), 0))
    raise Unsupported("sum")


def sumterm(v, n, fn):
    """The sum of fn(i), 0 <= i < n as a term SUM(lambda i. fn(i), n): equal when n and the summands are equal."""
    i = z3.Int("sum!i")
    body = fn(i)
    if not is_z(body):
        body = z3.IntVal(body)
    SUM = z3.Function("SUM", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
    # canonical: the summand only matters on the range
    nn = n if is_z(n) else z3.IntVal(n)
    arr = z3.Lambda([i], z3.If(z3.And(i >= 0, i < nn), body, z3.IntVal(0)))
    t = SUM(arr, nn)
    sums = v.ghost.setdefault("sums", [])
    # congruence: equal summands on the range give equal sums (stated for each pair of sums)
    for arr2, n2, t2, f2 in sums:
        d = v.fresh("sd", z3.IntSort())
        b2 = f2(d)
        b1 = fn(d)
        v.facts.append(z3.Or(t == t2, n2 != nn, z3.And(d >= 0, d < nn, b1 != b2)))
    d = v.fresh("sg", z3.IntSort())
    v.facts.append(z3.Or(t >= 0, z3.And(d >= 0, d < nn, fn(d) < 0)))
    v.facts.append(z3.Implies(nn <= 0, t == 0))
    sums.append((arr, nn, t, fn))
    return t


PV.sumterm = sumterm


def minmax(less):
    def f(v, *a, **kw):
        if kw:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            a = v.iter(a[0])
            if isinstance(a, SList):
                raise Unsupported("min/max of a symbolic list")
        r = a[0]
        for x in a[1:]:
            c = v.compare(ast.Lt if less else ast.Gt, x, r)
            r = ite(c, lambda x=x: x, lambda r=r: r)
        return r
    return f


def b_abs(v, x):
    if is_fp(x):
        return z3.fpAbs(x)
    if is_z(x):
        return z3.If(x >= 0, x, -x)
    return abs(x)


def b_int(v, x=0):
    if isinstance(x, (int, float)):
        return int(x)
    if is_z(x) and x.is_int():
        return x
    if is_z(x) and x.is_real():
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    raise Unsupported("int()")


def b_float(v, x=0.0):
    if isinstance(x, (int, float, str)):
        return float(x)
    if is_fp(x):
        return x
    raise Unsupported("float()")


def b_list(v, x=()):
    it = v.iter(x)
    return it if isinstance(it, list) else SList(v, it.n, it.get, it.sort)


def b_enumerate(v, x, start=0):
    it = v.iter(x)
    if isinstance(it, list):
        return [(start + k, y) for k, y in enumerate(it)]
    return SList(v, it.n, lambda i: (i + start, it.at(i)), heap=False)


def b_zip(v, *xs):
    its = [v.iter(x) for x in xs]
    if all(isinstance(i, list) for i in its):
        return [t for t in zip(*its)]
    raise Unsupported("zip")


def b_isinstance(v, x, c):
    if isinstance(x, Obj) and isinstance(c, Class):
        return x.cls.node is c.node
    raise Unsupported("isinstance")


def b_bool(v, x=False):
    return v.truth(x)


BUILTINS = dict(len=b_len, range=b_range, any=b_any, all=b_all, sum=b_sum, max=minmax(False), min=minmax(True), abs=b_abs, int=b_int, float=b_float,
                list=b_list, tuple=lambda v, x=(): tuple(v.iter(x)) if isinstance(v.iter(x), list) else v.iter(x), enumerate=b_enumerate, zip=b_zip, isinstance=b_isinstance, bool=b_bool, str=lambda v, *a: "<text>",
                print=lambda v, *a, **k: None)
STUBS = {}


def cvc5(s, timeout):
    try:
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            r = subprocess.run(["cvc5", f"--tlimit={int(timeout * 1000)}", f.name], capture_output=True, text=True, timeout=timeout + 10)
        finally:
            os.unlink(f.name)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "error"


# -------------------------------------------------------------------- runner
REGISTRY = {}


def contract(prop, title, tier="quick", timeout=120):
    props = [prop] if isinstance(prop, str) else prop
    def deco(f):
        for p in props:
            REGISTRY.setdefault(p, []).append(dict(fn=f, title=title, tier=tier, timeout=timeout, runner=run_one))
        return f
    return deco


def run_one(spec, unroll=None):
    t0 = time.time()
    v = PV()
    out = dict(title=spec["title"], results=[], error=None)
    try:
        v.explore(spec["fn"], budget=spec["timeout"])
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-1500:]
    out["results"] = [v.results[n] for n in v.order]
    if any(r["status"] == "failed" and r.get("base") for r in out["results"]):
        out["error"] = "the representation of the state differs from the one the contract is stated over"
        for r in out["results"]:
            if r["status"] == "failed":
                r["status"], r["reason"] = "unknown", out["error"]
    if out["error"]:
        # not all paths were seen: what was proved so far is not a result
        for r in out["results"]:
            if r["status"] in ("proved", "vacuous"):
                r["status"], r["reason"] = "unknown", "not all paths were explored"
    out["functions"] = sorted(v.fns)
    out["stepped"] = sorted(v.stepped)
    out["assumed"] = sorted(v.assumed)
    out["solver_s"] = v.z3time
    out["loops"] = []
    out["paths"] = v.paths
    out["time"] = time.time() - t0
    return out
