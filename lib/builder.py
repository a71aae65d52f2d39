"""
Builds the real PyVRP extension modules from /repo's current working tree, out
of tree, into a scratch directory; nothing in /repo is written.

The copy made is: /repo/pyvrp (sources only, no .so/.pyc), /repo/buildtools.
Every .cpp under pyvrp/cpp is compiled with g++ (asserts on, the same language
level and defines as /repo's debug build; no LTO) and linked into the two
extension modules inside the copied package, so that `import pyvrp` from the
scratch directory runs exactly the current working tree.
"""
import concurrent.futures as cf
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import hashlib
import fcntl

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
CACHE = pathlib.Path(os.environ.get("VERIF_CACHE", "/verif/.cache"))


class BuildError(Exception):
    pass


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    for top in ("pyvrp", "buildtools"):
        for p in sorted((repo / top).rglob("*")):
            if p.suffix in (".py", ".cpp", ".h", ".pyi") and p.is_file():
                h.update(str(p.relative_to(repo)).encode())
                h.update(b"\0")
                h.update(hashlib.sha256(p.read_bytes()).digest())
    h.update(pathlib.Path(__file__).read_bytes())
    return h.hexdigest()[:24]


def _env():
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CC", "CXX", "PYTHONPATH"):
        env.pop(k, None)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["CCACHE_DISABLE"] = "1"
    return env


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(map(str, cmd))}\n{r.stderr[-4000:]}")


def copy_sources(dest):
    dest.mkdir(parents=True, exist_ok=True)
    ign = shutil.ignore_patterns("*.so", "*.pyc", "__pycache__")
    shutil.copytree(REPO / "pyvrp", dest / "pyvrp", ignore=ign)
    shutil.copytree(REPO / "buildtools", dest / "buildtools", ignore=ign)


def compile_ext(root, jobs=8):
    src = root / "pyvrp" / "cpp"
    obj = root / "obj"
    obj.mkdir()
    for name, sub in (("pyvrp", ""), ("search", "search")):
        hdrs = sorted(str(p) for p in (src / sub).glob("*.h"))
        _run([PY, "buildtools/extract_docstrings.py", *hdrs, str(obj / f"{name}_docs.h")], root)

    inc = sysconfig.get_paths()["include"]
    out = subprocess.run(
        [PY, "-c", "import sysconfig,pybind11;print(sysconfig.get_paths()['include']);"
         "print(pybind11.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        env=_env(), capture_output=True, text=True)
    pyinc, pbinc, suffix = out.stdout.split()
    flags = ["-std=c++20", "-O0", "-fPIC", "-pipe", "-D_GLIBCXX_ASSERTIONS=1",
             "-D_FILE_OFFSET_BITS=64", "-DPYVRP_LOG_LEVEL=2", "-DSPDLOG_USE_STD_FORMAT",
             f"-I{src}", f"-I{obj}"]
    files = sorted(src.glob("*.cpp")) + sorted((src / "search").glob("*.cpp"))
    # longest first
    files.sort(key=lambda p: (p.name != "bindings.cpp", -p.stat().st_size))
    def one(f):
        rel = f.relative_to(src)
        o = obj / (str(rel).replace("/", "_") + ".o")
        extra = []
        if f.name == "bindings.cpp":
            extra = [f"-I{pyinc}", f"-I{pbinc}", "-fvisibility=hidden"]
        _run(["g++", *flags, *extra, "-c", str(f), "-o", str(o)], root)
        return rel, o
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(one, files))
    core = [str(o) for r, o in objs if r.parent.name == "" and r.name != "bindings.cpp"]
    srch = [str(o) for r, o in objs if r.parent.name == "search" and r.name != "bindings.cpp"]
    bind = {r.parent.name: str(o) for r, o in objs if r.name == "bindings.cpp"}
    def link(args):
        target, os_ = args
        _run(["g++", "-shared", "-fPIC", "-o", str(target), *os_, "-pthread"], root)
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(link, [
            (root / "pyvrp" / f"_pyvrp{suffix}", [bind[""], *core]),
            (root / "pyvrp" / "search" / f"_search{suffix}", [bind["search"], *srch, *core]),
        ]))
    shutil.rmtree(obj)


def build(jobs=8):
    """
    Returns the root of a scratch directory with a built `pyvrp` package for
    the current tree. Results are cached (by content hash) under CACHE so that
    running several checks in a row on one tree builds once.
    """
    CACHE.mkdir(parents=True, exist_ok=True)
    key = tree_hash()
    final = CACHE / f"ext-{key}"
    lock = open(CACHE / "lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if (final / "ok").exists():
            os.utime(final)
            return final
        # Keep at most three old builds.
        old = sorted(CACHE.glob("ext-*"), key=lambda p: p.stat().st_mtime)
        for p in old[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="tmp-", dir=CACHE))
        try:
            copy_sources(tmp)
            compile_ext(tmp, jobs)
            (tmp / "ok").write_text(key)
            if final.exists():
                shutil.rmtree(final)
            tmp.rename(final)
        finally:
            if tmp.exists():
                shutil.rmtree(tmp, ignore_errors=True)
        return final
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(), f"{time.time() - t:.1f}s")
