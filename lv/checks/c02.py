from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C02"
    rule = ("random programs of boolean, comparison and ordinal expressions over every scalar type; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, bitops=1, lint=1, real=1, char=2, enum=2, sub=1, shortcircuit=2, builtins=1, consts=1, calls=1, procs=1, depth=5, stmts=20, bool=4)
    quick, thorough = 2500, 50000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
