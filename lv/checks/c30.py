"""The LLVM IR that lacsap writes, against the executable."""
import os

from ..build import ARGS
from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare
from ..run import run
from .c16 import whole_language

CLANG = os.path.join([a for a in ARGS if a.startswith("LLVM_DIR=")][0][9:], "bin", "clang")


class CHECK(ProgCheck):
    id = "C30"
    rule = ("programs of the whole language, compiled to an executable and to LLVM IR, which clang compiles and links with the runtime; both runs are compared with the prediction "
            "of the reference; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    quick, thorough = 500, 12000

    def gen(self, src):
        c = Case()
        c.opts = src.pick([(), ("-O0",), ("-O2",), ("-m32",), ("-g",), ("-O0", "-g"), ("-Cr",)])
        c.clang = src.pick(["-O0", "-O1", "-O2"])
        c.fuzzy = True
        return whole_language(src, c)

    def judge(self, c, wd, tool):
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)
        ll = os.path.join(wd, "p.ll")
        if os.path.exists(ll):
            raise Fail("IR file without being asked for", "")
        os.unlink(os.path.join(wd, "p"))
        r = tool.compile(wd, "p", (*c.opts, "-emit=llvm"))
        if r.rc != 0:
            raise Fail("no IR for a valid program", str(r))
        if os.path.exists(os.path.join(wd, "p")):
            raise Fail("executable made though IR was asked for", "")
        if not os.path.exists(ll):
            raise Fail("no IR file", str(r))
        m = ["-m32"] if "-m32" in c.opts else []
        y = run([CLANG, c.clang, *m, "-Wno-override-module", "-x", "ir", "p.ll", "-o", "q", "-L" + tool.tree,
                 "-lruntime" + "".join(m), "-lm"], wd, cpu=60)
        if y.rc != 0:
            raise Fail("IR that clang does not accept", str(y))
        for f in c.files:
            os.unlink(os.path.join(wd, f + ".txt"))
        x = run(["./q"], wd, c.inp)
        compare(c, r, x)
