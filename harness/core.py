"""
Runs the runtime-contract cases of one property against the freshly built
package. Usage: core.py PROP SEED FIRST COUNT SECONDS OUT

Every case is generated from (PROP, SEED, index) alone, so a failing case is
replayed by its index. The index is written to OUT.progress before the case
runs, so that an abort (failed assertion in the C++ code) can be attributed.
"""
import importlib
import json
import os
import random
import sys
import time
import traceback


class Violation(Exception):
    pass


class Ctx:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.desc = []
    def note(self, *xs):
        self.desc.append(" ".join(str(x) for x in xs))
        if len(self.desc) > 60:
            del self.desc[10]
    def seen(self, key):
        """Counts one non-trivial, distinct evaluation."""
        self.evals += 1
        self.distinct.add(hash(key))
    def check(self, cond, *msg):
        if not cond:
            raise Violation(" ".join(str(m) for m in msg))
    def eq(self, got, want, *what):
        if got != want:
            raise Violation(f"{' '.join(str(m) for m in what)}: got {got!r}, expected {want!r}")


def short(x, n=1500):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


def main():
    prop, seed, first, count, seconds, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), sys.argv[6]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    mod = importlib.import_module("p_" + prop)
    t_end = time.time() + seconds
    ctx = Ctx()
    res = dict(property=prop, seed=seed, cases=0, failure=None)
    prog = open(out + ".progress", "w")
    i = first
    while i < first + count and time.time() < t_end:
        prog.seek(0)
        prog.write(f"{i:012d}\n")
        prog.flush()
        ctx.desc = []
        r = random.Random(f"{prop}/{seed}/{i}")
        try:
            mod.case(r, ctx, i)
        except Violation as e:
            res["failure"] = dict(index=i, message=short(e), case=[short(d) for d in ctx.desc])
            break
        except Exception as e:
            res["failure"] = dict(index=i, message=f"unexpected {type(e).__name__}: {short(e)}",
                                  case=[short(d) for d in ctx.desc], trace=traceback.format_exc()[-2500:])
            break
        if len(ctx.samples) < 2 and ctx.desc:
            ctx.samples.append([short(d, 500) for d in ctx.desc[:6]])
        i += 1
    res["cases"] = i - first
    res["evals"] = ctx.evals
    res["distinct"] = len(ctx.distinct)
    res["samples"] = ctx.samples
    res["rule"] = getattr(mod, "RULE", "")
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    # this file is imported as `core` by the property modules
    sys.modules["core"] = sys.modules["__main__"]
    main()
