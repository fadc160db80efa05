"""Builds lacsap and its runtime libraries from /repo's working tree, in a folder of /verif that git ignores.
A build is found again by the hash of all files that go into it, so a changed tree is always built anew."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("LV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".build")
ARGS = ["USECLANG=1", "M32=1", "NDEBUG=1", "LLVM_DIR=/usr/lib/llvm-18"]


def sources():
    fs = []
    for pat in ("*.cpp", "*.h", "Makefile", "runtime/*.c", "runtime/*.h", "runtime/Makefile"):
        fs += glob.glob(os.path.join(REPO, pat))
    return sorted(fs)


def tree_hash():
    h = hashlib.sha256()
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS", "DEBUG", "CC", "CXX", "MFLAGS"):
        e.pop(k, None)
    e["LANG"] = "C.UTF-8"
    e["CCACHE_DISABLE"] = "1"
    return e


def _objkey(path, headers_hash, extra):
    h = hashlib.sha256()
    h.update(headers_hash.encode() + extra.encode())
    with open(path, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:32]


def build(quiet=True):
    """-> folder with lacsap, libruntime.a, libruntime-m32.a"""
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash()
    out = os.path.join(CACHE, "tree-" + key)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        # keep at most a few old trees
        old = sorted(glob.glob(os.path.join(CACHE, "tree-*")), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "runtime"))
        for f in sources():
            shutil.copy(f, os.path.join(out, os.path.relpath(f, REPO)))
        # reuse objects whose source and headers are unchanged
        hh = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(out, "*.h"))) + [os.path.join(out, "Makefile")]:
            hh.update(os.path.basename(f).encode() + b"\0")
            hh.update(open(f, "rb").read())
        objs = os.path.join(CACHE, "objs")
        os.makedirs(objs, exist_ok=True)
        keys = {}
        # the runtime header may be included by the compiler too
        for f in sorted(glob.glob(os.path.join(out, "runtime", "*.h"))):
            hh.update(open(f, "rb").read())
        hdr = hh.hexdigest()
        for f in glob.glob(os.path.join(out, "*.cpp")):
            keys[f] = _objkey(f, hdr, os.path.basename(f))
        log = open(os.path.join(out, "build.log"), "w")

        def make(*a, cwd=out):
            return subprocess.run(["make", *a], cwd=cwd, env=env(), stdout=log, stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL).returncode

        ok = make(*ARGS, ".depends") == 0
        if ok:
            for f, k in keys.items():
                o = os.path.join(objs, k + ".o")
                if os.path.exists(o):
                    shutil.copy(o, f[:-4] + ".o")
            ok = make("-j8", *ARGS, "lacsap") == 0
        ok = ok and make("-j8", "CC=clang", "M32=1", "libruntime.a", "libruntime-m32.a",
                         cwd=os.path.join(out, "runtime")) == 0
        log.close()
        if not ok:
            sys.stderr.write(open(os.path.join(out, "build.log")).read()[-4000:])
            raise SystemExit("building lacsap from /repo failed")
        for f, k in keys.items():
            o = os.path.join(objs, k + ".o")
            if os.path.exists(f[:-4] + ".o") and not os.path.exists(o):
                shutil.move(f[:-4] + ".o", o)
        allobjs = sorted(glob.glob(os.path.join(objs, "*.o")), key=os.path.getmtime)
        for o in allobjs[:-120]:
            os.unlink(o)
        for n in ("libruntime.a", "libruntime-m32.a"):
            shutil.copy(os.path.join(out, "runtime", n), os.path.join(out, n))
        for f in glob.glob(os.path.join(out, "*.o")):
            os.unlink(f)
        open(os.path.join(out, "ok"), "w").close()
        return out


if __name__ == "__main__":
    print(build())
