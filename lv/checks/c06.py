from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C06"
    rule = ("random aggregate types with component and whole-value operations; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, arrays=3, longidx=1, recs=3, variants=2, with_=2, char=1, enum=1, sub=2, real=1, lint=1, sets=1, chararr=1, strs=1, loops=1, procs=1, calls=1, depth=3, stmts=26)
    quick, thorough = 1500, 30000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
