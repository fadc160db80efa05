from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C05"
    rule = ("random call graphs with every parameter mode, nesting, recursion and procedural parameters; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, procs=4, nest=3, calls=4, procparams=2, char=1, enum=1, sub=1, real=1, arrays=1, recs=1, strs=1, loops=1, shortcircuit=1, builtins=1, depth=3, stmts=14)
    quick, thorough = 1500, 30000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
