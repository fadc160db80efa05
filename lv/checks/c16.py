"""The same program under several sets of options."""
from .. import pas
from ..gen import G
from ..progcheck import Case, ProgCheck, compare
from . import c07, c10


def options(s):
    o = [s.pick(["-O0", "-O1", "-O2", "-O3"])]
    if s.n(3) == 0:
        o.append(s.pick(["-m32", "-m64"]))
    for x in ("-g", "-no-memcpy", "-Cr"):
        if s.n(3) == 0:
            o.append(x)
    return s.shuffle(o)


def whole_language(s, c):
    """a program of any family: fills in text, expect, rc, steps, files"""
    c.inp, c.rc, c.files = b"", 0, {}
    k = s.wpick([(6, "g"), (1, "heap"), (1, "write")])
    c.family = k
    if k == "heap":
        g = c07.Gen(s)
        c.text = g.program()
        c.expect, c.steps = "".join(g.out).encode(), g.steps
    elif k == "write":
        g = c10.Gen(s)
        c.text = g.program()
        c.expect, c.steps = g.out["output"].encode("latin1"), 30
        c.files = {f: g.out[f].encode("latin1") for f in g.files}
    else:
        f = dict(stmts=20)
        for x in ("real", "lint", "sets", "strs", "recs", "procparams", "conf", "nest", "with_"):
            if s.n(5) == 0:
                f[x] = 0
        p = G(s, **f).program()
        cx = pas.execute(p, b"", fuzzy=c.fuzzy)
        if cx is None:
            return None
        c.text, c.expect, c.rc, c.steps = p.src(), b"".join(cx.out), cx.rc, cx.steps
    return c


class CHECK(ProgCheck):
    id = "C16"
    rule = ("programs of the whole language (statements, procedures, aggregates, sets, strings, heap histories, formatted output), each compiled under "
            "three random option sets; every run is compared with the prediction of the reference, and so with the others; non-trivial: "
            "at least 30 evaluation steps and 10 bytes of output")
    quick, thorough = 1200, 30000

    def gen(self, src):
        c = Case()
        c.optsets = [options(src) for _ in range(3)]
        c.opts = [" ".join(o) for o in c.optsets]
        c.fuzzy = True
        return whole_language(src, c)

    def sample_full(self, c):
        return c.text + "{ options: %s }\n" % " | ".join(c.opts)

    def judge(self, c, wd, tool):
        for o in c.optsets:
            r, x = tool.build_run(wd, c.text, "p", o, c.inp)
            c.opts = [" ".join(o)]
            compare(c, r, x)
        c.opts = [" ".join(o) for o in c.optsets]

    def features(self, c):
        return [c.family] + sorted({x for o in c.optsets for x in o})
