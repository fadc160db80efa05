from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C01"
    rule = ("random programs of assignments and writes over 32- and 64-bit integer and subrange expressions; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, bitops=1, pow=1, lint=2, sub=1, builtins=1, consts=1, depth=5, stmts=24)
    quick, thorough = 3000, 60000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
