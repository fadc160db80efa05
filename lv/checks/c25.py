"""Compiling the same source again, under other circumstances."""
import os
import re

from ..harness import Fail
from ..progcheck import Case, ProgCheck
from ..run import run
from .c16 import whole_language


def damage(s, text):
    """a few changes that usually make the program wrong"""
    toks = re.split(r"(\w+|\s+)", text)
    for _ in range(1 + s.n(3)):
        k = s.n(4)
        i = s.n(len(toks))
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, s.pick([";", "end", " begin ", ")", "(", " x ", ":=", " 1 "]))
        elif k == 2:
            j = s.n(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        else:
            toks[i] = s.pick(["zz", " ", "1.5", "'a'", "procedure", "", "nil"])
        if not toks:
            toks = [" "]
    return "".join(toks)


class CHECK(ProgCheck):
    id = "C25"
    rule = ("programs of the whole language, a third of them damaged, each compiled three times under different environments, working directories and address-space layouts; "
            "generated code, object files, diagnostics and status must be identical; non-trivial: at least 1000 bytes of IR, or a diagnostic")
    quick, thorough = 700, 20000

    def gen(self, src):
        c = Case()
        c.emit = src.pick(["llvm", "llvm", "llvm", "exe", "ast"])
        c.opts = src.pick([("-O0",), (), ("-O2",), ("-m32",), ("-g",), ("-O0", "-g"), ("-Cr",), ("-callgraph",)])
        c.fuzzy = True
        if whole_language(src, c) is None:
            return None
        c.bad = src.n(3) == 0
        if c.bad:
            c.text = damage(src, c.text)
        c.env = [{"A%d" % i: "x" * src.n(3000) for i in range(src.n(20))} for _ in range(3)]
        c.dirs = [src.pick(["a", "some_other_folder", "d/e/f"]) for _ in range(3)]
        c.size = 0
        return c

    def nontrivial(self, c):
        return c.size > 1000 or c.bad

    def judge(self, c, wd, tool):
        first = None
        for i in range(3):
            d = os.path.join(wd, "%d" % i, c.dirs[i])
            os.makedirs(d)
            with open(os.path.join(d, "p.pas"), "wb") as f:
                f.write(c.text.encode("latin1"))
            env = {k: os.environ[k] for k in ("PATH", "HOME", "LANG") if k in os.environ}
            env.update(c.env[i])
            r = run([tool.lacsap, *c.opts, "-emit=" + c.emit, "p.pas"], d, cpu=30, env=env)
            if r.timeout:
                raise Fail("compiler hangs", str(r))
            out = {"status": r.rc, "stdout": r.out, "stderr": r.err}
            for n in sorted(os.listdir(d)):
                if n.endswith((".ll", ".o")):
                    out[n] = open(os.path.join(d, n), "rb").read()
            if c.emit == "ast":
                # the dump names nodes by their address, which is no part of the result
                out["stderr"] = re.sub(rb"0x[0-9a-f]+", b"ADDR", out["stderr"])
                out["stdout"] = re.sub(rb"0x[0-9a-f]+", b"ADDR", out["stdout"])
            c.size = sum(len(x) for x in out.values() if isinstance(x, bytes))
            if first is None:
                first = out
            elif out != first:
                k = [k for k in set(out) | set(first) if out.get(k) != first.get(k)][0]
                a, b = first.get(k), out.get(k)
                if isinstance(a, bytes) and isinstance(b, bytes):
                    n = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                    a, b = a[max(0, n - 100):n + 200], b[max(0, n - 100):n + 200]
                raise Fail("compilation is not deterministic", "%s of the runs 0 and %d differ:\n%r\n%r" % (k, i, a, b))

    def features(self, c):
        return [c.emit, "damaged" if c.bad else "valid"]
