from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C26"
    rule = ("random programs with conformant array parameters; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, conf=3, arrays=3, lint=1, longidx=1, procs=3, calls=3, char=1, enum=1, sub=2, real=1, loops=2, nest=1, builtins=1, depth=3, stmts=14)
    quick, thorough = 1500, 30000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
