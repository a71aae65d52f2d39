#!/usr/bin/env python3-vt
"""
check.py PROP [--tier quick|thorough] : decides one property on /repo's current tree.
check.py --replay FILE               : re-runs a recorded failing case.

1. Extracts the code under contract from the current tree and discharges every
   obligation of the property (lib/dv.py for C++, lib/pyvc.py for Python).
2. Builds the real package from the current tree and runs the runtime contracts
   of the property on generated inputs: they search for concrete failing inputs
   (replays of refuted obligations), and are the bounded stand-in for functions
   the verifier does not reach.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import pathlib
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "lib"))
sys.path.insert(0, str(HERE / "contracts"))
sys.dont_write_bytecode = True
import builder  # noqa: E402

EVID = HERE / "evidence"
PLAN = json.load(open(HERE / "plan.json"))


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------ deductive part
def deductive(prop, tier, budget):
    """Returns a dict describing all contracts of the property."""
    out = dict(contracts=[], error=None)
    mods = PLAN[prop].get("contracts", [])
    if not mods:
        return out
    try:
        import dv
        import pyvc
        if any(not m.startswith("py_") for m in mods):
            dv.load()
        for m in mods:
            importlib.import_module(m)
        specs = [s for s in dv.REGISTRY.get(prop, []) + pyvc.REGISTRY.get(prop, []) if tier == "thorough" or s["tier"] == "quick"]
        out["contracts"] = dv.run_specs(specs, budget=budget)
        # confirm loop-dependent failures by unrolling: an invariant that is not found is not a defect
        for sp, o in zip(specs, out["contracts"]):
            bad = [r for r in o["results"] if r["status"] == "failed" and r.get("loops")]
            if bad:
                c = dv.run_specs([sp], unroll=3, budget=min(budget, 120))[0]
                fail = {r["name"]: r for r in c["results"] if r["status"] == "failed"}
                for r in bad:
                    if r["name"] in fail:
                        r["confirmed"] = "refuted on an unrolled execution"
                        r["model"] = fail[r["name"]]["model"]
                    else:
                        r["status"] = "undecided"
                        r["reason"] = "no inductive invariant found; not refuted up to 3 iterations" + (f" ({c['error']})" if c["error"] else "")
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-2000:]
    return out


# -------------------------------------------------------------- runtime part
def run_worker(root, prop, seed, first, count, seconds, tmp):
    out = os.path.join(tmp, f"w{seed}-{first}.json")
    env = dict(os.environ, PYTHONPATH=str(root), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    limit = seconds * 2 + 120
    t0 = time.time()
    try:
        p = subprocess.run([builder.PY, str(HERE / "harness" / "core.py"), prop, str(seed), str(first), str(count), str(seconds), out],
                           env=env, capture_output=True, text=True, timeout=limit, cwd=tmp)
    except subprocess.TimeoutExpired as e:
        idx = _progress(out)
        return dict(cases=0, evals=0, distinct=0, samples=[], rule="", first=first,
                    failure=dict(index=idx, message=f"the case did not finish (ran over {limit:.0f} s in total)", case=[], hang=True, seed=seed))
    if p.returncode == 0 and os.path.exists(out):
        r = json.load(open(out))
        r["first"] = first
        if r["failure"]:
            r["failure"]["seed"] = seed
        return r
    idx = _progress(out)
    err = p.stderr[-1500:]
    if idx is None:
        return dict(cases=0, evals=0, distinct=0, samples=[], rule="", first=first, failure=None, error=f"harness could not start: {err}")
    why = f"terminated by signal {-p.returncode}" if p.returncode < 0 else f"exit code {p.returncode}"
    return dict(cases=0, evals=0, distinct=0, samples=[], rule="", first=first,
                failure=dict(index=idx, message=f"process {why}: {err.strip()[-600:]}", case=[], crash=p.returncode, seed=seed))


def _progress(out):
    try:
        return int(open(out + ".progress").read().split()[0])
    except Exception:
        return None


def runtime(prop, root, seed, count, seconds, jobs=7):
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        with cf.ThreadPoolExecutor(jobs) as ex:
            per = max(1, count // jobs)
            rs = list(ex.map(lambda w: run_worker(root, prop, seed, w * 10**6, per, seconds, tmp), range(jobs)))
        # a hang or a crash must reproduce on its own
        for r in rs:
            f = r["failure"]
            if f and (f.get("hang") or "crash" in f):
                if f["index"] is None:
                    r["failure"] = None
                    continue
                again = run_worker(root, prop, f["seed"], f["index"], 1, 60, tmp)
                if not again["failure"]:
                    r["error"] = f"not reproducible: {f['message']}"
                    r["failure"] = None
                elif not f.get("case"):
                    f["case"] = again["failure"].get("case", [])
    return rs


# -------------------------------------------------------------------- driver
def known_findings(prop):
    p = HERE / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            if line.strip():
                e = json.loads(line)
                if e["property"] == prop and e.get("status") == "known":
                    out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    (EVID / "replay" / f"{prop}.json").unlink(missing_ok=True)
    box = {}
    def bld():
        try:
            box["root"] = builder.build()
        except Exception as e:
            box["err"] = e
    th = threading.Thread(target=bld)
    th.start()
    ded = deductive(prop, tier, plan.get("budget", 240) * (3 if tier == "thorough" else 1))
    th.join()
    if "err" in box:
        log(f"{prop}: the tree does not build: {box['err']}")
        return 2
    root = box["root"]
    t1 = time.time()
    count, seconds = plan.get("cases", [2000, 40])
    if tier == "thorough":
        count, seconds = count * 10, seconds * 8
    runs = runtime(prop, root, seed, count, seconds) if plan.get("runtime", True) else []
    failures = [r["failure"] for r in runs if r["failure"]]

    results = [(o, r) for o in ded["contracts"] for r in o["results"]]
    refuted = [(o, r) for o, r in results if r["status"] == "failed"]
    if refuted and not failures and plan.get("runtime", True):
        # look for a concrete failing input for the refuted obligation
        extra = runtime(prop, root, seed + 1000, count * 3, min(seconds * 2, 150))
        failures = [r["failure"] for r in extra if r["failure"]]
        runs += extra
    kf = known_findings(prop)
    new_failures = []
    for f in failures:
        hit = next((k for k in kf if k.get("match") and k["match"] in f["message"]), None)
        if hit is None:
            new_failures.append(f)
    for k in kf:
        log(f"KNOWN-FINDING: property={prop} {k['what']}")

    viol = 0
    EVID.mkdir(exist_ok=True)
    (EVID / "replay").mkdir(exist_ok=True)
    rc = 0
    if new_failures:
        f = sorted(new_failures, key=lambda f: (len(str(f.get("case"))), f["index"] or 0))[0]
        path = EVID / "replay" / f"{prop}.json"
        json.dump(dict(property=prop, seed=f["seed"], index=f["index"], message=f["message"], case=f.get("case"), trace=f.get("trace"),
                       obligations=[dict(contract=o["title"], obligation=r["name"], model=r["model"]) for o, r in refuted],
                       how="python3-vt /verif/check.py --replay " + str(path)), open(path, "w"), indent=1)
        log(f"{prop}: failing input: {f['message']}")
        for o, r in refuted:
            log(f"{prop}: refuted obligation: {o['title']} / {r['name']}")
        log(f"VIOLATION property={prop} replay={path}")
        viol, rc = len(new_failures), 1
    elif refuted:
        path = EVID / "replay" / f"{prop}.json"
        json.dump(dict(property=prop, obligations=[dict(contract=o["title"], functions=o.get("functions"), obligation=r["name"], model=r["model"],
                                                        confirmed=r.get("confirmed")) for o, r in refuted],
                       note="refuted by the verifier; no failing input of the built package was found"), open(path, "w"), indent=1)
        for o, r in refuted:
            log(f"{prop}: refuted obligation: {o['title']} / {r['name']}")
        log(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        viol, rc = len(refuted), 1
    evidence(prop, tier, seed, plan, ded, results, runs, viol, time.time() - t0)
    und = [(o, r) for o, r in results if r["status"] not in ("proved", "failed")]
    errs = [o for o in ded["contracts"] if o["error"]]
    done = sum(r["status"] == "proved" for _, r in results)
    cases = sum(r.get("cases", 0) for r in runs)
    log(f"{prop}: {done}/{len(results)} obligations discharged, {len(errs)} contracts not applicable to this tree, "
        f"{cases} runtime cases, {sum(r.get('evals', 0) for r in runs)} evaluations; {time.time() - t0:.1f} s (deductive+build {t1 - t0:.1f} s)")
    if ded["error"]:
        log(f"{prop}: extraction: {ded['error'][:500]}")
    for o in errs:
        log(f"{prop}: undecided contract '{o['title']}': {o['error'][:300]}")
    for o, r in und:
        log(f"{prop}: undecided obligation '{o['title']} / {r['name']}': {r['reason']}")
    for e in sorted({r["error"][-600:] for r in runs if r.get("error")}):
        log(f"{prop}: {e}")
    if runs and not any(r.get("cases") for r in runs) and rc == 0:
        log(f"{prop}: no runtime case could be run")
        if done == 0:
            return 2
    return rc


def evidence(prop, tier, seed, plan, ded, results, runs, viol, wall):
    fns, stepped, assumed = set(), set(), set(plan.get("assumptions", []))
    for o in ded["contracts"]:
        fns.update(o.get("functions", []))
        stepped.update(o.get("stepped", []))
        assumed.update(f"assumed contract: {a}" for a in o.get("assumed", []))
    backends = {}
    for _, r in results:
        if r["status"] == "proved":
            backends[r["backend"]] = backends.get(r["backend"], 0) + 1
    level = plan["level"]
    cov = dict(
        obligations=len([1 for _, r in results if not r.get("cover")]),
        discharged=len([1 for _, r in results if r["status"] == "proved" and not r.get("cover")]),
        vacuity_covers=len([1 for _, r in results if r.get("cover")]),
        vacuity_covers_reachable=len([1 for _, r in results if r.get("cover") and r["status"] == "proved"]),
        checker_cmd=f"python3-vt check.py {prop} --tier {tier}",
        trusted_base=plan.get("trusted", []) + trusted(plan),
        back_ends=backends,
        solver_s=round(sum(o.get("solver_s", 0) for o in ded["contracts"]), 2),
        functions_under_contract=sorted(fns),
        functions_executed_inside_contracts=len(stepped),
        loops=[dict(function=l[0], candidates=l[2], invariants=len(l[3])) for o in ded["contracts"] for l in o.get("loops", [])][:40],
        undecided=[f"{o['title']}: {o['error']}" for o in ded["contracts"] if o["error"]]
        + [f"{o['title']} / {r['name']}: {r['reason']}" for o, r in results if r["status"] not in ("proved", "failed")],
        bounded_cases=sum(r.get("cases", 0) for r in runs),
        bounded_note="evaluations, distinct_nontrivial, rule and samples describe the runtime contracts on generated inputs: bounded, not counted as proved. " + plan.get("bounded", ""),
        evaluations=sum(r.get("evals", 0) for r in runs), distinct_nontrivial=sum(r.get("distinct", 0) for r in runs),
        rule=next((r["rule"] for r in runs if r.get("rule")), ""), samples=[s for r in runs for s in r.get("samples", [])][:2],
    )
    if level == "other":
        cov["explanation"] = plan.get("explanation", "obligations of the functions under contract are discharged by the verifier; the rest of the property is a bounded stand-in: runtime contracts on generated inputs")
    if ded["error"]:
        cov["undecided"].append("extraction: " + ded["error"][:500])
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=sorted(assumed), wall_s=round(wall, 2), violations=viol),
              open(EVID / f"{prop}.json", "w"), indent=1)


def trusted(plan):
    out = ["z3 / cvc5"]
    mods = plan.get("contracts", [])
    if any(m.startswith("py_") for m in mods):
        out.append("the VC generator for Python lib/pyvc.py (reads the source with ast)")
    if any(not m.startswith("py_") for m in mods):
        out += ["clang 18 front end (extraction of the C++ code to LLVM IR) and the VC generator lib/symex.py",
                "machine integers: unsigned wrap-around exact, signed treated as mathematical within the stated ranges"]
    return out


def replay(path):
    d = json.load(open(path))
    if "index" not in d:
        log(json.dumps(d, indent=1))
        return 1
    root = builder.build()
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        r = run_worker(root, d["property"], d["seed"], d["index"], 1, 120, tmp)
    log(json.dumps(r["failure"], indent=1))
    return 1 if r["failure"] else 0


if __name__ == "__main__":
    sys.exit(main())
