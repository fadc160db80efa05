"""Checks of whole generated programs: compile, run, compare with the reference interpreter."""
import re

from . import pas
from .gen import G
from .harness import Check, Discard, Fail

# everything the generator can be asked for, off
OFF = dict(bitops=0, pow=0, lint=0, real=0, char=0, enum=0, sub=0, sets=0, strs=0, arrays=0, recs=0, procs=0, nest=0,
           loops=0, case=0, with_=0, shortcircuit=0, builtins=0, calls=0, procparams=0, conf=0, forin=0, strfn=0,
           consts=0, chararr=0)


class Case:
    pass


class ProgCheck(Check):
    feat = {}
    optsets = [()]
    minsteps = 30

    def make(self, src):
        return G(src, **self.feat).program()

    def gen(self, src):
        p = self.make(src)
        c = Case()
        c.inp = b""
        c.opts = src.pick(self.optsets)
        # 32-bit code may keep intermediate reals in 80 bits, so these programs avoid depending on the last bit
        c.fuzzy = self.feat.get("real", 1) > 0 and "-m32" in c.opts
        cx = pas.execute(p, c.inp, fuzzy=c.fuzzy)
        if cx is None:
            return None
        c.text = p.src()
        c.expect = b"".join(cx.out)
        c.rc = cx.rc
        c.steps = cx.steps
        return c

    def nontrivial(self, c):
        return c.steps >= self.minsteps and len(c.expect) > 10

    def sample_full(self, c):
        return c.text + "{ options: %s }\n" % " ".join(c.opts)

    def key(self, c):
        return c.text

    def judge(self, c, wd, tool):
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)


def compare(c, r, x):
    if r.timeout:
        raise Fail("compiler hangs", str(r))
    if r.rc < 0 or r.rc >= 128:
        raise Fail("compiler crash", "opts %s: %s" % (" ".join(c.opts), r.err.decode("latin1")[-1500:]))
    if r.rc != 0 or x is None:
        raise Fail("compiler rejects a valid program",
                   "opts %s: %s" % (" ".join(c.opts), (r.out + r.err).decode("latin1")[:1500]))
    if x.timeout:
        raise Fail("program hangs", str(x))
    if x.rc < 0:
        raise Fail("program crashes", str(x))
    want, got = posz(c.expect), posz(x.out)
    if want != got and not (c.fuzzy and near(want, got)):
        raise Fail("wrong output", "opts %s\n%s" % (" ".join(c.opts), diff(want, got)))
    if x.rc != c.rc:
        raise Fail("wrong exit code", "expected %d, got %d" % (c.rc, x.rc))


def posz(b):
    """the sign of a zero is not compared"""
    return re.sub(rb"-(0\.0+)(?![0-9])", rb"\1", b)


NUM = re.compile(rb"-?[0-9]+\.[0-9]+")


def near(want, got):
    if NUM.sub(b"#", want) != NUM.sub(b"#", got):
        return False
    return all(abs(float(a) - float(b)) <= 1.1e-6 + 1e-9 * abs(float(a))
               for a, b in zip(NUM.findall(want), NUM.findall(got)))


def diff(want, got):
    a, b = want.split(b"\n"), got.split(b"\n")
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return "line %d: expected %r, got %r" % (i + 1, x, y)
    return "same"
