from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C08"
    rule = ("random set expressions over every base type; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, sets=4, char=2, enum=2, sub=2, bitops=1, forin=1, loops=1, procs=1, calls=1, arrays=1, recs=1, depth=4, stmts=20)
    quick, thorough = 1500, 30000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
