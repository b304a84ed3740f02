"""Builds cshogi from /repo's current working tree into /verif/.build (git-ignored).

The package is compiled by the repository's own setup.py, in a private copy of the working tree, so /repo and
/opt/vp are never written.  A build is keyed by the contents of everything copied plus the flavour, so an unchanged
tree is not recompiled and a changed one always is."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.join(VERIF, ".build")
PY = "/opt/vp/venv/bin/python"

FLAVOURS = {
    # what a user gets: setup.py's own flags
    "plain": {"CFLAGS": "-O1 -g0 -w -DNDEBUG", "LDFLAGS": ""},
    # the same sources with memory and undefined-behaviour errors made fatal
    "asan": {
        "CFLAGS": "-O1 -w -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,bounds,shift-exponent,bool,null,integer-divide-by-zero,unreachable,return,vla-bound -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
        "LDFLAGS": "-fsanitize=address,undefined",
    },
}

DRIVER = r"""
import os, runpy, sys
from concurrent.futures import ThreadPoolExecutor
import setuptools
from distutils.ccompiler import CCompiler
from distutils.unixccompiler import UnixCCompiler
serial = CCompiler.compile
def par(self, sources, *a, **k):
    big = sorted(sources, key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        jobs = {s: pool.submit(serial, self, [s], *a, **k) for s in big}
    return [o for s in sources for o in jobs[s].result()]
CCompiler.compile = par
sys.argv = ["setup.py", "build_ext", "--inplace", "--force", "--parallel=3", "--build-temp=_bt", "--build-lib=_bl"]
sys.path.insert(0, os.getcwd())
runpy.run_path("setup.py", run_name="__main__")
"""


class BuildError(Exception):
    pass


def _inputs():
    out = []
    for top in ("cshogi", "src"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__",))
            for f in sorted(files):
                if f.endswith((".so", ".pyc", ".o", ".pyd")):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, REPO)
                if rel in ("cshogi/_cshogi.cpp", "cshogi/gym_shogi/envs/shogi_env.cpp",
                           "cshogi/gym_shogi/envs/shogi_vec_env.cpp"):
                    continue
                out.append(rel)
    for f in ("setup.py", "README.md", "pyproject.toml"):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def _digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for rel in files:
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LD_PRELOAD", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    e["PATH"] = "/opt/vp/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LANG"] = "C.UTF-8"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["CC"], e["CXX"] = "gcc", "g++"
    e["CCACHE_DISABLE"] = "1"
    return e


def _prune(keep):
    """Keeps the few most recent builds, so the cache stays small."""
    try:
        ds = [os.path.join(ROOT, d) for d in os.listdir(ROOT) if d.startswith("pkg-")]
    except FileNotFoundError:
        return
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[6:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def build(flavour="plain"):
    """Returns a directory to put on sys.path that holds a freshly built cshogi package."""
    os.makedirs(ROOT, exist_ok=True)
    fl = FLAVOURS[flavour]
    files = _inputs()
    key = _digest(files, "2" + flavour + repr(sorted(fl.items())) + DRIVER)
    dest = os.path.join(ROOT, "pkg-%s-%s" % (flavour, key))
    with open(os.path.join(ROOT, "lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "OK")):
            os.utime(dest)
            return dest
        shutil.rmtree(dest, ignore_errors=True)
        for rel in files:
            t = os.path.join(dest, rel)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, rel), t)
        env = _env()
        env["CFLAGS"] = env["CXXFLAGS"] = fl["CFLAGS"]
        env["LDFLAGS"] = fl["LDFLAGS"]
        r = subprocess.run([PY, "-c", DRIVER], cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode("utf-8", "replace")[-4000:])
        for d in ("_bt", "_bl", "build"):
            shutil.rmtree(os.path.join(dest, d), ignore_errors=True)
        open(os.path.join(dest, "OK"), "w").close()
        _prune(dest)
    return dest


def build_ref():
    """Compiles the reference model (independent of /repo)."""
    os.makedirs(ROOT, exist_ok=True)
    src = os.path.join(VERIF, "lib", "ref.cpp")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(ROOT, "ref-%s.so" % key)
    with open(os.path.join(ROOT, "lock-ref"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            tmp = so + ".tmp%d" % os.getpid()
            subprocess.run(["g++", "-std=c++17", "-O2", "-shared", "-fPIC", "-Wall", "-o", tmp, src], check=True, env=_env())
            os.rename(tmp, so)
    return so


if __name__ == "__main__":
    for f in sys.argv[1:] or ["plain"]:
        print(build_ref() if f == "ref" else build(f))
