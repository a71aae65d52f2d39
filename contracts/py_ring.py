"""C17: the ring buffer, against a cycle of n slots (S: slot -> value or None, pos: slot that comes next)."""
import z3
from pyvc import *

IS = z3.IntSort()
M = "pyvrp.RingBuffer"


def arbitrary(v):
    """A ring buffer in any state that a history can reach: n slots, a position."""
    n, pos = v.int("capacity", 1), v.int("position", 0)
    S = z3.Const("slots", z3.ArraySort(IS, Ref))
    b = v.new(M, "RingBuffer", n)
    only(b, "_buffer", "_idx")
    buf = b["_buffer"]
    if not isinstance(buf, SList):
        raise Unsupported("the slots are not a list")
    j = v.fresh("slot", IS)
    v.ensure("the slots of a new buffer are a list of n empty values and it starts at a slot", z3.And(asbool(buf.n == n), asbool(b["_idx"] == 0),
             z3.Implies(z3.And(j >= 0, j < n), asbool(slot(buf, j) == NONE))), base=True)
    buf.get = S
    b.attrs["_idx"] = pos
    return b, n, S, pos


def state_is(v, b, n, S, pos):
    j = v.fresh("j", IS)
    buf = b["_buffer"]
    return z3.And(asbool(buf.n == n), asbool(b["_idx"] >= 0), b["_idx"] % n == pos % n, z3.Implies(z3.And(j >= 0, j < n), buf.at(j) == S[j]))


def slot(buf, i):
    x = buf.at(i)
    return NONE if x is None else x


@contract("C17", "RingBuffer(n): n empty slots")
def init(v):
    n = v.int("capacity", 1)
    b = v.new(M, "RingBuffer", n)
    j = v.int("any slot", 0)
    v.require(j < n)
    v.ensure("has n slots", b["_buffer"].n == n)
    v.ensure("every slot is empty", slot(b["_buffer"], j) == NONE)
    v.ensure("starts at a slot", asbool(b["_idx"] >= 0))
    v.ensure("reports its capacity", v.getattr(b, "maxlen") == n)
    v.cover("constructed")


@contract("C17", "append: stores in the next slot and advances")
def append(v):
    b, n, S, pos = arbitrary(v)
    x = v.ref("value")
    v.callm(b, "append", x)
    v.ensure("the next slot holds the value, the others stay, and the position advances", state_is(v, b, n, z3.Store(S, pos % n, x), pos + 1))
    v.cover("appended")


@contract("C17", "skip: advances, changes no slot")
def skip(v):
    b, n, S, pos = arbitrary(v)
    v.callm(b, "skip")
    v.ensure("slots stay and the position advances", state_is(v, b, n, S, pos + 1))
    v.cover("skipped")


@contract("C17", "peek: the value in the slot that comes next, changes nothing")
def peek(v):
    b, n, S, pos = arbitrary(v)
    r = v.callm(b, "peek")
    v.ensure("returns the value of the next slot", (NONE if r is None else r) == S[pos % n])
    v.ensure("nothing changes", state_is(v, b, n, S, pos))
    v.cover("peeked")


@contract("C17", "clear: every slot is empty, the capacity stays")
def clear(v):
    b, n, S, pos = arbitrary(v)
    v.callm(b, "clear")
    j = v.int("any slot", 0)
    v.require(j < n)
    v.ensure("has n slots", b["_buffer"].n == n)
    v.ensure("every slot is empty", slot(b["_buffer"], j) == NONE)
    v.ensure("is at a slot", asbool(b["_idx"] >= 0))
    v.ensure("reports its capacity", v.getattr(b, "maxlen") == n)
    v.cover("cleared")


@contract("C17", "len: the number of occupied slots; maxlen: the number of slots")
def length(v):
    b, n, S, pos = arbitrary(v)
    r = v.callm(b, "__len__")
    if not is_z(r) or r.decl().name() != "SUM":
        raise Unsupported("not computed as a sum over the slots")
    want = v.sumterm(n, lambda i: z3.If(S[i] != NONE, z3.IntVal(1), z3.IntVal(0)))
    v.ensure("is the number of occupied slots", r == want)
    v.ensure("maxlen is the number of slots", v.getattr(b, "maxlen") == n)
    v.ensure("nothing changes", state_is(v, b, n, S, pos))
    v.cover("measured")
