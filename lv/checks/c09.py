from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C09"
    rule = ("random string expressions and statements; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, strs=5, chararr=2, strfn=2, char=2, sub=1, builtins=1, loops=1, procs=1, calls=1, arrays=1, recs=1, consts=1, depth=4, stmts=20)
    quick, thorough = 1200, 20000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
