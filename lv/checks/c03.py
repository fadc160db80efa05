from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C03"
    rule = ("random programs of real expressions with mixed-in integers, conversions and math functions; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, real=6, lint=1, sub=1, builtins=1, consts=1, math=1, pow=1, depth=5, stmts=20)
    quick, thorough = 2500, 50000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
