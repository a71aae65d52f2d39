"""
Contract of Matrix for its callers: operator()(row, col) refers to a cell that depends on the
number of columns, the row and the column only. Callers are verified for every such function;
that it is the row-major cell is proved in c03_route.matrix_cell.
"""
import re
import z3
from symex import *
from models import one
from dv import View

_AT = re.compile(r"^pyvrp::Matrix<(.*)>::operator\(\)\(unsigned long, unsigned long\)( const)?$")
CELL = z3.Function("matrix cell", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def name(recs):
    c = [c for c in recs if re.match(r"^pyvrp::Matrix<[^<>]*>$", c)]
    return c[0]


def element(v, st, a, r, c):
    """Address of the cell (r, c) of the matrix at a."""
    M = name(v.recs)
    w = View(v, a, M, st)
    cell = CELL(as_int(w.get("cols_")), as_int(r), as_int(c))
    return v.ex.vecelem(w.fieldaddr("data_")[0], vec_arg(w.fieldaddr("data_")[1].type), cell)


def value(v, st, a, r, c):
    return v.readfield(st, element(v, st, a, r, c), "Measure")


def install(v):
    def handler(ex, st, args, fn, inst):
        ex.assumed["contract: Matrix (proved in C03)"] = 1
        return Ptr.to(element(v, st, one(args[0]), args[1], args[2]))
    v.ex.handlers.insert(0, (lambda d: bool(_AT.match(d)), handler))


# --- DurationSegment: callers that only fold segments are verified for any merge operation
DS = "pyvrp::DurationSegment"
_MERGE = re.compile(r"^pyvrp::DurationSegment::merge\(pyvrp::Measure<[^>]*>, pyvrp::DurationSegment const&, pyvrp::DurationSegment const&\)$")
_FRONT = re.compile(r"^pyvrp::DurationSegment::(finaliseFront|finaliseBack)\(\) const$")


def install_segments(v):
    """Callee contract of merge and finalise: a function of the operands (what that function is,
    is proved in C01). Not used when loops are unrolled: the real code runs then."""
    if v.unroll:
        return
    ex = v.ex
    f = [k.name for k in v.recs[DS].kids]
    fld = lambda st, p: [as_int(View(v, one(p), DS, st).get(n)) for n in f]
    def handler(ex, st, args, fn, inst):
        ex.assumed["contract: DurationSegment (proved in C01)"] = 1
        ex.abstract = True      # a refutation is confirmed with the real code
        if "merge" in fn.dem:
            xs = [as_int(args[1])] + fld(st, args[2]) + fld(st, args[3])
        else:
            xs = fld(st, args[1])
        o = View(v, one(args[0]), DS, st)
        what = fn.dem.split("::")[2].split("(")[0]
        I = z3.IntSort()
        for n in f:
            F = z3.Function(f"{what} {n}", *[I] * (len(xs) + 1))
            ex.store_addr(st, o.fieldaddr(n)[0], F(*xs), ex.prim_ll("long"), True)
    ex.handlers.insert(0, (lambda d: bool(_MERGE.match(d) or _FRONT.match(d)), handler))
