"""
Mechanical extraction of the code under verification: compiles every C++
translation unit of /repo's current tree (plus /verif/contracts/anchors.cpp,
which only instantiates templates and inline functions so that the compiler
emits them) to LLVM bitcode with clang -O0, links the result, and promotes
locals to SSA (sroa, mem2reg; lcssa). No other transformation is applied.

What this drops: bindings.cpp (pybind11 glue), assertions (NDEBUG), logging
statements below the compile-time log level.
"""
import concurrent.futures as cf
import os
import pathlib
import shutil
import subprocess
import tempfile
import fcntl

from builder import REPO, CACHE, tree_hash, BuildError
import hashlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
CLANG = "/usr/bin/clang++-18"
LLVM = "/usr/lib/llvm-18/bin"
FLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-DNDEBUG",
         "-DPYVRP_LOG_LEVEL=6", "-DSPDLOG_USE_STD_FORMAT", "-gline-tables-only",
         "-fno-discard-value-names", "-w", "-Wno-invalid-constexpr", "-Wno-error"]


def _run(cmd):
    r = subprocess.run([str(c) for c in cmd], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(map(str, cmd)) + "\n" + r.stderr[-3000:])
    return r.stdout


def extract():
    """Returns (bitcode path, record layout text path, list of TUs that failed)."""
    CACHE.mkdir(parents=True, exist_ok=True)
    anchors = VERIF / "contracts" / "anchors.cpp"
    h = hashlib.sha256(pathlib.Path(__file__).read_bytes() + anchors.read_bytes())
    key = tree_hash() + "-" + h.hexdigest()[:8]
    final = CACHE / f"ir-{key}"
    lock = open(CACHE / "lock-ir", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not (final / "ok").exists():
            old = sorted(CACHE.glob("ir-*"), key=lambda p: p.stat().st_mtime)
            for p in old[:-3]:
                shutil.rmtree(p, ignore_errors=True)
            tmp = pathlib.Path(tempfile.mkdtemp(prefix="tmpir-", dir=CACHE))
            try:
                _extract(tmp, anchors)
                if final.exists():
                    shutil.rmtree(final)
                tmp.rename(final)
            finally:
                if tmp.exists():
                    shutil.rmtree(tmp, ignore_errors=True)
        failed = (final / "failed").read_text().split("\n") if (final / "failed").exists() else []
        return final / "all.bc", final / "layouts.txt", [f for f in failed if f]
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _extract(tmp, anchors):
    src = REPO / "pyvrp" / "cpp"
    files = [f for f in sorted(src.rglob("*.cpp")) if f.name != "bindings.cpp"]
    files.append(anchors)
    files.sort(key=lambda f: -f.stat().st_size)
    failed = []
    def one(f):
        o = tmp / (f"{'_'.join(f.parts[-3:])}.bc")
        extra = []
        if f == anchors:
            extra = ["-Xclang", "-fdump-record-layouts"]
        try:
            out = _run([CLANG, *FLAGS, *extra, f"-I{src}", f"-I{src}/search", "-c", "-emit-llvm", f, "-o", o])
            if f == anchors:
                (tmp / "layouts.txt").write_text(out)
        except BuildError as e:
            failed.append(f"{f}: {e}")
            return None
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        outs = [o for o in ex.map(one, files) if o]
    if not (tmp / "layouts.txt").exists():
        raise BuildError("anchors did not compile:\n" + "\n".join(failed))
    _run([f"{LLVM}/llvm-link", *outs, "-o", tmp / "linked.bc"])
    _run([f"{LLVM}/opt", "-passes=sroa,mem2reg,function(lcssa)", tmp / "linked.bc", "-o", tmp / "all.bc"])
    for o in outs:
        o.unlink()
    (tmp / "linked.bc").unlink()
    (tmp / "failed").write_text("\n".join(x.replace("\n", " ") for x in failed))
    (tmp / "ok").write_text("ok")


if __name__ == "__main__":
    import time
    t = time.time()
    print(extract(), time.time() - t)
