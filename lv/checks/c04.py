from ..progcheck import OFF, ProgCheck


class CHECK(ProgCheck):
    id = "C04"
    rule = ("random nestings of control statements with traces; every value is computed by the reference interpreter, and evaluations that would be errors are repaired "
            "before compiling; non-trivial: at least 30 evaluation steps and 10 bytes of output")
    feat = dict(OFF, loops=3, case=2, goto=1, forin=1, char=1, enum=1, sub=1, sets=1, arrays=1, shortcircuit=1, lint=1, builtins=1, depth=3, stmts=20)
    quick, thorough = 2000, 40000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
