"""Generates typed Pascal programs in the model of pas.py from a choice sequence."""
from .pas import *

WORDS = ["alpha", "beta", "gamma", "delta", "omega", "sigma", "kappa", "theta", "zeta", "iota"]
INTS = [0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 1000, 4096, 32767, 32768,
        65535, 65536, 1000000, MAXINT - 1, MAXINT]
LINTS = [MAXINT + 1, 2**32, 2**32 + 1, 3000000000, 10**12, 2**53, 10**15]
REALS = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 0.25, 0.1, 10.0, 3.14159, 100.0, 1e3, 1e-3, 12345.678, 99.99]
STRCH = b"abcdefghABCXYZ0123456789 .,+-*/()'!?_"


class G:
    """feat: weights of language features; see DEFAULT"""
    DEFAULT = dict(depth=3, bitops=1, pow=1, lint=1, real=1, char=1, enum=1, sub=1, sets=1, strs=1, arrays=1, recs=1,
                   procs=1, nest=1, ptrs=0, variants=0, loops=1, case=1, goto=0, with_=1, shortcircuit=1, builtins=1,
                   stmts=12, calls=1, procparams=1, conf=1, forin=1, paren=1, math=0, strfn=1, consts=1, chararr=1, longidx=0)

    def __init__(self, s, **feat):
        self.s = s
        self.f = dict(self.DEFAULT)
        self.f.update(feat)
        self.cnt = 0
        self.prog = Program()
        self.enums, self.subs, self.arrs, self.recs, self.setts = [], [], [], [], []
        self.consts = []
        self.scopes = []  # list of (proc, [VarDecl])
        self.loopdepth = 0
        self.labels = 1
        self.inproc = False
        self.pure = False
        self.withs = []

    def on(self, k):
        return self.f.get(k, 0) > 0

    def name(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    # ---------------------------------------------------------- types
    def gen_types(self):
        s = self.s
        if self.on("enum"):
            for _ in range(1 + s.n(2)):
                n = self.name("e")
                k = 2 + s.n(6)
                self.enums.append(Enum(n, ["%s%s" % (n, w) for w in WORDS[:k]]))
        if self.on("sub"):
            for _ in range(1 + s.n(3)):
                self.subs.append(self.gen_sub())
        self.prog.types += self.enums + self.subs
        if self.on("sets"):
            for _ in range(1 + s.n(2)):
                t = SetT(self.name("st"), self.set_base())
                self.setts.append(t)
                self.prog.types.append(t)
        k = 0
        while k < 4:
            k += 1
            if self.on("arrays") and s.bool(2, 3):
                self.add_arr()
            if self.on("recs") and s.bool(2, 3):
                self.add_rec()

    def set_base(self):
        s = self.s
        c = [(2, "int")]
        if self.on("char"):
            c.append((1, "char"))
        if self.enums:
            c.append((1, "enum"))
        k = s.wpick(c)
        if k == "char":
            return CHAR
        if k == "enum":
            return s.pick(self.enums)
        lo = s.pick([0, 0, 1, -5, 10, 20])
        return Sub(None, INT, lo, lo + s.pick([3, 7, 31, 32, 33, 50, 63, 64, 100]))

    def gen_sub(self):
        s = self.s
        c = [(4, INT)]
        if self.on("char"):
            c.append((1, CHAR))
        if self.enums:
            c.append((1, s.pick(self.enums)))
        if self.on("longidx"):
            c.append((1, LINT))
        b = s.wpick(c)
        if b is LINT:
            lo = s.pick([MAXINT - 2, MAXINT + 1, -MAXINT - 4, -5000000000, 4999999990, 2**32 - 2, -3])
            hi = max(lo + 1 + s.n(9), MAXINT + 1 if lo > 0 else lo + 1)
            if lo == -3:
                lo, hi = -3, 3
                b = INT
        elif b is INT:
            lo = s.pick([0, 1, -3, -10, 5, 100, -100])
            hi = lo + 1 + s.n(12)
        elif b is CHAR:
            lo = s.pick([65, 97, 48])
            hi = lo + 1 + s.n(9)
        else:
            lo = s.n(len(b.names) - 1)
            hi = lo + 1 + s.n(len(b.names) - 1 - lo)
        return Sub(self.name("r"), b, lo, hi)

    def index_type(self):
        s = self.s
        c = [(4, "anon")]
        small = [t for t in self.subs if t.hi - t.lo < 10]
        if small:
            c.append((2, "sub"))
        if self.enums:
            c.append((2, "enum"))
        c.append((1, "bool"))
        k = s.wpick(c)
        if k == "anon":
            lo = s.pick([1, 0, -2, 5])
            return Sub(None, INT, lo, lo + s.n(5))
        if k == "sub":
            return s.pick(small)
        if k == "enum":
            return s.pick(self.enums)
        return BOOL

    def add_arr(self):
        s = self.s
        if self.on("chararr") and self.on("strs") and s.bool(1, 4):
            t = Arr(self.name("ca"), [Sub(None, INT, 1, 2 + s.n(8))], CHAR, True)
        else:
            idx = [self.index_type()]
            while len(idx) < 4 and s.bool(1, 3 if len(idx) == 1 else 2):
                idx.append(self.index_type())
                if prod(t.hi - t.lo + 1 for t in idx) > 80:
                    idx.pop()
            el = self.simple_type()
            cs = [t for t in self.arrs + self.recs if not is_chararr(t)]
            if cs and s.bool(1, 3):
                el = s.pick(cs)
            if size_of(el) * prod(t.hi - t.lo + 1 for t in idx) > 60:
                el = INT
            t = Arr(self.name("a"), idx, el, s.bool(1, 4))
        self.arrs.append(t)
        self.prog.types.append(t)

    def add_rec(self):
        s = self.s
        n = self.name("rec")
        fs = []
        for i in range(1 + s.n(4)):
            t = self.simple_type()
            cs = self.arrs + self.recs
            if cs and s.bool(1, 4):
                c = s.pick(cs)
                if size_of(c) < 30:
                    t = c
            fs.append(("%sf%d" % (n, i), t))
        var = None
        if self.on("variants") and s.bool(1, 2):
            tt = s.pick([BOOL] + self.enums)
            vals = list(range(tt.lo, tt.hi + 1))
            alts = []
            i = 0
            while vals:
                k = 1 + s.n(min(2, len(vals)))
                labs, vals = vals[:k], vals[k:]
                vf = []
                for _ in range(s.n(3) if alts else 1 + s.n(2)):
                    vf.append(("%sv%d" % (n, i), self.simple_type()))
                    i += 1
                alts.append((labs, vf))
            var = (n + "tag", tt, alts)
        t = Rec(n, fs, var)
        self.recs.append(t)
        self.prog.types.append(t)

    def simple_type(self):
        s = self.s
        c = [(6, INT), (2, BOOL)]
        if self.on("lint"):
            c.append((2, LINT))
        if self.on("char"):
            c.append((2, CHAR))
        if self.on("real"):
            c.append((2, REAL))
        if self.enums:
            c.append((2, "enum"))
        if self.subs:
            c.append((2, "sub"))
        if self.setts:
            c.append((1, "set"))
        if self.on("strs"):
            c.append((1, "str"))
        t = s.wpick(c)
        if t == "enum":
            return s.pick(self.enums)
        if t == "sub":
            return s.pick(self.subs)
        if t == "set":
            return s.pick(self.setts)
        if t == "str":
            return Str(s.pick([3, 8, 20, 20, 130, 255]))
        return t

    # ---------------------------------------------------------- variables
    def visible(self):
        for p, vs in self.scopes:
            for d in vs:
                yield p, d

    def readable(self, d, p):
        if d.kind == "loop":
            return d.loopdepth > 0 and p is self.scopes[-1][0]
        return d.kind != "proc"

    def writable(self, d, p):
        if d.kind == "loop" or d.kind == "proc" or d.kind == "fuel" or d.kind == "cnt":
            return False
        if self.pure and (p is not self.scopes[-1][0] or d.kind in ("ref", "confref")):
            return False
        return True

    def paths(self, t, want, depth=3):
        """all access paths below a variable of type t to something wanted: lists of steps"""
        r = []
        if want(t):
            r.append([])
        if depth == 0:
            return r
        if isinstance(t, (Arr, ConfArr)):
            if not (is_chararr(t) and not want(CHAR)):
                r += [[("i", t)] + p for p in self.paths(t.elem, want, depth - 1)]
        elif isinstance(t, Rec):
            for n, ft in t.fields:
                r += [[("f", n, ft, None)] + p for p in self.paths(ft, want, depth - 1)]
            if t.variant:
                for k, (labs, fs) in enumerate(t.variant[2]):
                    for n, ft in fs:
                        r += [[("f", n, ft, k)] + p for p in self.paths(ft, want, depth - 1)]
        elif isinstance(t, Ptr) and t.to is not None:
            r += [[("d",)] + p for p in self.paths(t.to, want, depth - 1)]
        return r

    def lval(self, want, d=1, write=False, whole=False):
        """an access to a variable of a wanted type, or None"""
        cands = []
        for p, v in self.visible():
            if not (self.writable(v, p) if write else self.readable(v, p)):
                continue
            if isinstance(v.t, ConfArr) and whole:
                continue
            for path in ([[]] if whole and want(v.t) else [] if whole else self.paths(v.t, want)):
                cands.append((v, path))
        for w in self.withs:
            for path in self.paths(w[1], want, 2):
                if path and path[0][0] == "f" and path[0][3] is None and not whole:
                    if not write or w[3]:
                        cands.append((w, path))
        if not cands:
            return None
        v, path = self.s.pick(cands)
        if isinstance(v, tuple):
            n = v[0]
            f = path[0]
            n = Field(n, f[1], f[2], bare=True)
            path = path[1:]
        else:
            n = Var(v)
        for st in path:
            if st[0] == "i":
                t = st[1]
                it = t.idx if isinstance(t, Arr) else [t.idxt]
                n = Index(n, [self.index_expr(x, d - 1) for x in it], self.s.n(2) if len(it) > 1 else 0)
            elif st[0] == "f":
                n = Field(n, st[1], st[2])
                n.alt = st[3]
            else:
                n = Deref(n)
        return n

    def index_expr(self, it, d):
        s = self.s
        if d <= 0 or s.bool(1, 2):
            # a loop variable or an in-range variable, else a literal
            def want(t):
                return t.ordinal and t.base is it.base and it.lo <= t.lo and t.hi <= it.hi
            if s.bool(1, 2):
                c = [v for p, v in self.visible() if self.readable(v, p) and v.t.ordinal and v.t.base is it.base
                     and (want(v.t) or v.kind == "loop")]
                if c:
                    return Var(s.pick(c))
            return Lit(it.base, s.rng_range(it.lo, min(it.hi, it.lo + 20)))
        e = self.expr(it.base, min(d, 2))
        if it.base is INT and s.bool():
            n = min(it.hi - it.lo + 1, 50)
            e = Bin("mod", BI("abs", [e], INT), Lit(INT, n), INT)
            if it.lo:
                e = Bin("+", e, Lit(INT, it.lo), INT) if it.lo > 0 else Bin("-", e, Lit(INT, -it.lo), INT)
        return e

    # ---------------------------------------------------------- expressions
    def expr(self, t, d):
        e = self.expr_(t, d)
        if d > 0 and self.on("paren") and self.s.n(12) == 11:
            e = Paren(e)
        return e

    def expr_(self, t, d):
        b = t.base
        if b is INT:
            return self.int_expr(d)
        if b is LINT:
            return self.lint_expr(d)
        if b is BOOL:
            return self.bool_expr(d)
        if b is REAL:
            return self.real_expr(d)
        if b is CHAR or isinstance(b, Enum):
            return self.ord_expr(b, d)
        if isinstance(b, SetT):
            return self.set_expr(b, d)
        if isinstance(b, Str):
            return self.str_expr(d)
        if isinstance(b, Ptr):
            v = self.lval(lambda x: x is b, 1)
            return v or Nil(b)
        if is_chararr(b):
            s = self.s
            if s.bool(1, 2):
                v = self.lval(lambda x: x is b, d)
                if v:
                    return v
            n = b.idx[0].hi - b.idx[0].lo + 1
            return Lit(b, bytes(s.pick(STRCH) for _ in range(n)))
        v = self.lval(lambda x: x is b, 1)
        return v

    def leaf(self, want, mk, d):
        if self.s.bool(2, 3):
            v = self.lval(want, d)
            if v is not None:
                return v
        if self.consts and self.s.bool(1, 4):
            c = [c for c in self.consts if want(c.t)]
            if c:
                return self.s.pick(c)
        return mk()

    def int_lit(self):
        s = self.s
        k = s.n(8)
        if k < 4:
            return Lit(INT, s.n(10))
        if k < 6:
            return Lit(INT, s.pick(INTS))
        if k == 6:
            return Lit(INT, s.n(100000))
        return Lit(INT, -s.n(100) - 1)

    def call(self, t, d):
        """call of a pure function with result of base type t"""
        if not self.on("calls"):
            return None
        fs = [p for p in self.callable() if p.result is not None and p.pure and p.result.base is t
              and not getattr(p, "recursive", False)]
        fs += [v for p, v in self.visible() if v.kind == "proc" and v.t.result is not None and v.t.result.base is t
               and v.t.pure]
        if not fs:
            return None
        f = self.s.pick(fs)
        args = self.args(f, d)
        return None if args is None else Call(f, args, f.result if isinstance(f, Proc) else f.t.result)

    def callable(self):
        r = []
        for p, _ in self.scopes:
            r += [q for q in p.procs if q.body is not None]
        return r

    def args(self, f, d):
        ps = [(x.name, x.t, x.kind) for x in f.params] if isinstance(f, Proc) else f.t.params
        r = []
        for i, (n, t, k) in enumerate(ps):
            if k == "proc":
                c = [p for p in self.callable() if self.matches(p, t)]
                c += [v for p, v in self.visible() if v.kind == "proc" and same_sig(v.t, t)]
                if not c:
                    return None
                r.append(ProcRef(self.s.pick(c)))
            elif isinstance(t, ConfArr):
                v = self.lval(lambda x: (isinstance(x, Arr) and len(x.idx) == 1 and x.elem is t.elem
                                         and x.idx[0].base is t.idxt.base) or
                              (isinstance(x, ConfArr) and x.elem is t.elem and x.idxt is t.idxt),
                              1, write=(k == "confref"))
                if v is None:
                    return None
                r.append(v)
            elif k == "ref":
                v = self.lval(lambda x: x is t or (t.name and x.name == t.name), 1, write=True)
                if v is None or isinstance(v, Field) and v.alt is not None:
                    return None
                r.append(v)
            elif k == "fuel":
                r.append(Lit(INT, self.s.n(7)))
            elif not t.simple or is_chararr(t):
                v = self.lval(lambda x: x is t, 1)
                if v is None:
                    return None
                r.append(v)
            else:
                r.append(self.expr(t, min(d - 1, 2)))
        return r

    def matches(self, p, t):
        return (p.result is t.result and len(p.params) == len(t.params) and (p.pure or not t.pure) and
                not getattr(p, "recursive", False) and
                all(a.t is b[1] and a.kind == b[2] for a, b in zip(p.params, t.params)))

    def int_expr(self, d):
        s = self.s

        def want(t):
            return t is INT or (isinstance(t, Sub) and t.of is INT)
        if d <= 0 or s.n(4) == 0:
            return self.leaf(want, self.int_lit, d)
        k = [(5, "arith"), (3, "divmod"), (1, "neg")]
        if self.on("bitops"):
            k.append((2, "bit"))
        if self.on("builtins"):
            k += [(2, "bi"), (1, "ord")]
        if self.on("pow"):
            k.append((1, "pow"))
        if self.on("calls"):
            k.append((2, "call"))
        if self.on("strs") and self.on("strfn"):
            k.append((1, "str"))
        if self.setts and self.on("builtins"):
            k.append((1, "card"))
        if self.on("real") and self.on("builtins"):
            k.append((1, "real"))
        k = s.wpick(k)
        e = lambda dd=d - 1: self.int_expr(dd)
        if k == "arith":
            return Bin(s.pick("+-*"), e(), e(), INT)
        if k == "divmod":
            return Bin(s.pick(["div", "mod"]), e(), e() if s.bool(1, 3) else Lit(INT, 1 + s.n(20)), INT)
        if k == "neg":
            return Un("-", e(), INT)
        if k == "bit":
            op = s.pick(["and", "or", "xor", "shl", "shr", "not"])
            if op == "not":
                return Un("not", e(), INT)
            if op in ("shl", "shr"):
                return Bin(op, e(), Lit(INT, s.n(32)), INT)
            return Bin(op, e(), e(), INT)
        if k == "pow":
            return self.pow(INT, lambda: self.expr(INT, min(d - 1, 1)), d)
        if k == "bi":
            n = s.pick(["abs", "sqr", "succ", "pred", "min", "max", "sign"])
            a = [e()]
            if n in ("min", "max"):
                a.append(e())
            elif n in ("succ", "pred") and s.bool(1, 3):
                a.append(e(0))
            return BI(n, a, INT)
        if k == "ord":
            c = [BOOL]
            if self.on("char"):
                c.append(CHAR)
            c += self.enums
            return BI("ord", [self.expr(s.pick(c), d - 1)], INT)
        if k == "call":
            c = self.call(INT, d)
            return c or e()
        if k == "str":
            n = s.pick(["length", "index"])
            if n == "length":
                return BI("length", [self.str_expr(d - 1, nochar=True)], INT)
            if s.n(3):
                # beginnings of the wanted string that overlap what was found so far
                hay = bytes(s.pick(b"aab") for _ in range(3 + s.n(10)))
                i = s.n(len(hay) - 1)
                want = hay[i:i + 2 + s.n(3)] if s.n(4) else b"ab" + bytes(s.pick(b"ab") for _ in range(1 + s.n(2)))
                return BI("index", [Lit(Str(255), hay), Lit(Str(255), want)], INT)
            return BI("index", [self.str_expr(d - 1, nochar=True), self.str_expr(0, nochar=True)], INT)
        if k == "card":
            v = self.lval(lambda t: isinstance(t, SetT), d - 1)
            return BI("card", [v], INT) if v else e()
        return BI(s.pick(["trunc", "round"]), [self.real_expr(min(d - 1, 2))], INT)

    def pow(self, t, base, d):
        s = self.s
        k = s.n(6)
        if k == 5:
            # a base of one in size, which may have any exponent
            b = BI("sign", [base()], INT) if s.bool() and t is INT else Un("-", Lit(t, 1), t)
            return Bin("pow", b, self.int_expr(0) if s.bool() else Lit(INT, s.n(14) - 7), t)
        return Bin("pow", base(), Lit(INT, s.n(9) - 3 if k == 4 else s.n(6)), t)

    def lint_expr(self, d):
        s = self.s
        if d <= 0 or s.n(4) == 0:
            return self.leaf(lambda t: t is LINT, lambda: Lit(LINT, s.pick(LINTS)), d)
        k = [(5, "arith"), (3, "divmod"), (1, "neg")]
        if self.on("bitops"):
            k.append((2, "bit"))
        if self.on("calls"):
            k.append((1, "call"))
        if self.on("builtins"):
            k.append((1, "bi"))
        k = s.wpick(k)

        def two():
            w = s.n(4)
            if w == 1:
                return self.int_expr(d - 1), self.lint_expr(d - 1)
            if w == 2:
                return self.lint_expr(d - 1), self.int_expr(d - 1)
            return self.lint_expr(d - 1), self.lint_expr(d - 1)
        if k == "arith":
            a, b = two()
            return Bin(s.pick("+-*"), a, b, LINT)
        if k == "divmod":
            a, b = two()
            return Bin(s.pick(["div", "mod"]), a, b, LINT)
        if k == "neg":
            return Un("-", self.lint_expr(d - 1), LINT)
        if k == "bit":
            op = s.pick(["and", "or", "xor", "shl", "shr", "not"])
            if op == "not":
                return Un("not", self.lint_expr(d - 1), LINT)
            if op in ("shl", "shr"):
                return Bin(op, self.lint_expr(d - 1), Lit(INT, s.n(64)), LINT)
            a, b = two()
            return Bin(op, a, b, LINT)
        if k == "bi":
            n = s.pick(["abs", "sqr", "succ", "pred", "min", "max"])
            a = [self.lint_expr(d - 1)]
            if n in ("min", "max"):
                a.append(self.lint_expr(d - 1))
            elif n in ("succ", "pred") and s.bool(1, 3):
                a.append(self.int_expr(min(d - 1, 1)))
            return BI(n, a, LINT)
        c = self.call(LINT, d)
        return c or self.lint_expr(d - 1)

    def real_expr(self, d):
        s = self.s
        if d <= 0 or s.n(4) == 0:
            return self.leaf(lambda t: t is REAL, lambda: Lit(REAL, s.pick(REALS) * s.pick([1, 1, 1, -1])), d)
        k = [(6, "arith"), (1, "neg"), (2, "mix"), (1, "idiv")]
        if self.on("builtins"):
            k.append((2, "bi"))
        if self.on("math"):
            k.append((2, "math"))
        if self.on("calls"):
            k.append((1, "call"))
        k = s.wpick(k)
        e = lambda: self.real_expr(d - 1)
        if k == "arith":
            return Bin(s.pick("+-*/"), e(), e(), REAL)
        if k == "neg":
            return Un("-", e(), REAL)
        if k == "mix":
            a, b = e(), self.int_expr(d - 1)
            if s.bool():
                a, b = b, a
            return Bin(s.pick("+-*/"), a, b, REAL)
        if k == "idiv":
            return Bin("/", self.int_expr(d - 1), self.int_expr(d - 1), REAL)
        if k == "bi":
            n = s.pick(["abs", "sqr", "sqrt", "min", "max", "int", "frac"])
            a = [e()]
            if n in ("min", "max"):
                a.append(e())
            return BI(n, a, REAL)
        if k == "math":
            return BI(s.pick(["sin", "cos", "exp", "ln", "arctan"]), [e()], REAL)
        c = self.call(REAL, d)
        return c or e()

    def ord_expr(self, t, d):
        s = self.s

        def mk():
            if t is CHAR:
                return Lit(CHAR, s.pick(STRCH))
            return Lit(t, s.n(len(t.names)))
        if d <= 0 or s.n(3) == 0:
            return self.leaf(lambda x: x.base is t and x.ordinal, mk, d)
        k = [(3, "leaf")]
        if self.on("builtins"):
            k += [(2, "sp")]
            if t is CHAR:
                k.append((2, "chr"))
        if self.on("calls"):
            k.append((1, "call"))
        k = s.wpick(k)
        if k == "sp":
            a = [self.ord_expr(t, d - 1)]
            if s.n(3) == 0:
                a.append(Lit(INT, s.rng_range(-3, 3)) if s.n(2) else self.int_expr(d - 1))
            return BI(s.pick(["succ", "pred"]), a, t)
        if k == "chr" and s.bool(1, 3):
            return BI("chr", [Bin("mod", BI("abs", [self.int_expr(d - 1)], INT), Lit(INT, 256), INT)], CHAR)
        if k == "chr" and s.bool(1, 3):
            return BI("chr", [Lit(INT, s.pick([0, 31, 32, 126, 127, 128, 129, 200, 254, 255]))], CHAR)
        if k == "chr":
            return BI("chr", [Bin("+", Bin("mod", BI("abs", [self.int_expr(d - 1)], INT), Lit(INT, 26), INT),
                                   Lit(INT, 65), INT)], CHAR)
        if k == "call":
            c = self.call(t, d)
            if c:
                return c
        return self.leaf(lambda x: x.base is t and x.ordinal, mk, d)

    def bool_expr(self, d):
        s = self.s
        if d <= 0 or s.n(6) == 0:
            return self.leaf(lambda t: t.base is BOOL, lambda: Lit(BOOL, s.n(2)), d)
        k = [(6, "cmp"), (3, "logic"), (2, "not")]
        if self.on("shortcircuit"):
            k.append((2, "sc"))
        if self.on("bitops"):
            k.append((1, "xor"))
        if self.on("builtins"):
            k.append((1, "odd"))
        if self.setts:
            k += [(2, "in"), (1, "setcmp")]
        if self.on("strs"):
            k.append((1, "strcmp"))
        if self.on("calls"):
            k.append((1, "call"))
        k = s.wpick(k)
        e = lambda: self.bool_expr(d - 1)
        if k == "cmp":
            return self.compare(d)
        if k == "logic":
            return Bin(s.pick(["and", "or"]), e(), e(), BOOL)
        if k == "sc":
            return Bin(s.pick(["and_then", "or_else"]), e(), e(), BOOL)
        if k == "xor":
            return Bin("xor", e(), e(), BOOL)
        if k == "not":
            return Un("not", e(), BOOL)
        if k == "odd":
            return BI("odd", [self.int_expr(d - 1)], BOOL)
        if k == "in":
            t = s.pick(self.setts)
            return self.in_expr(t, d)
        if k == "setcmp":
            t = s.pick(self.setts)
            return self.settle(Bin(s.pick(["=", "<>", "<=", ">="]), self.set_expr(t, d - 1), self.set_expr(t, d - 1),
                                   BOOL), t)
        if k == "strcmp":
            if self.on("strfn") and s.bool(1, 4):
                return BI(s.pick(["eq", "ne", "lt", "le", "gt", "ge"]),
                          [self.str_expr(d - 1, nochar=True), self.str_expr(d - 1, nochar=True)], BOOL)
            return StrCmp(s.pick(["=", "<>", "<", "<=", ">", ">="]), self.str_expr(d - 1, nochar=True),
                          self.str_expr(d - 1, nochar=True))
        c = self.call(BOOL, d)
        return c or e()

    def in_expr(self, t, d):
        of = t.of
        x = self.expr(of.base, d - 1) if of.base is not INT else self.index_expr(of, d - 1)
        return self.settle(Bin("in", x, self.set_expr(t, d - 1), BOOL), t)

    def settle(self, e, t):
        """a set of integers none of whose operands has a declared type holds what is written as a literal, or
        values from 0 to the largest set size"""
        if t.of.base is not INT or t.of.lo >= 0 and t.of.hi < 256:
            return e
        ctors = []

        def typed(x):
            if isinstance(x, SetCtor):
                ctors.append(x)
                return False
            if isinstance(x, Bin):
                a = typed(x.l)
                return typed(x.r) or a
            return True
        if not (typed(e.r) if e.op == "in" else typed(e.l) | typed(e.r)):
            for c in ctors:
                c.items = [(a, b) for a, b in c.items if isinstance(a, Lit) and (b is None or isinstance(b, Lit))]
        return e

    def compare(self, d):
        s = self.s
        k = [(5, INT), (1, BOOL)]
        if self.on("lint"):
            k.append((2, LINT))
        if self.on("real"):
            k.append((2, REAL))
        if self.on("char"):
            k.append((1, CHAR))
        if self.enums:
            k.append((1, s.pick(self.enums)))
        t = s.wpick(k)
        op = s.pick(["=", "<>", "<", "<=", ">", ">="])
        a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        if t in (LINT, REAL) and s.bool(1, 3):
            b = self.int_expr(d - 1)
            if s.bool():
                a, b = b, a
        return Bin(op, a, b, BOOL)

    def set_expr(self, t, d):
        s = self.s
        if d <= 0 or s.n(3) == 0:
            if s.bool(1, 2):
                v = self.lval(lambda x: x is t, d)
                if v:
                    return v
            return self.set_ctor(t, d)
        return Bin(s.pick(["+", "-", "*", "><"] if self.on("bitops") else ["+", "-", "*"]),
                   self.set_expr(t, d - 1), self.set_expr(t, d - 1), t)

    def set_ctor(self, t, d):
        s = self.s
        of = t.of
        items = []
        for _ in range(s.n(4)):
            if s.bool(2, 3):
                lo = s.rng_range(of.lo, of.hi)
                if s.bool(1, 3):
                    items.append((Lit(of.base, lo), Lit(of.base, s.rng_range(lo, of.hi))))
                else:
                    items.append((Lit(of.base, lo), None))
            else:
                a = self.index_expr(of, d)
                items.append((a, self.index_expr(of, d) if s.bool(1, 4) else None))
        return SetCtor(items, t)

    def str_expr(self, d, nochar=False):
        s = self.s

        def mk():
            n = s.n(6)
            if nochar and n == 1:
                n = 2
            if s.n(14) == 0:
                # long, and often the beginning of another long one
                n = s.pick([40, 63, 64, 100, 127, 128, 129, 150, 200, 240, 254, 255])
                return Lit(Str(255), (s.pick([b"x", b"xy"]) * 256)[:n])
            return Lit(Str(255), bytes(s.pick(STRCH) for _ in range(n)))
        if d <= 0 or s.n(3) == 0:
            return self.leaf(lambda t: isinstance(t, Str) or (not nochar and t is CHAR), mk, d)
        k = [(3, "cat")]
        if self.on("strfn"):
            k += [(2, "copy"), (1, "trim")]
        k = s.wpick(k)
        if k == "cat":
            return Bin("+", self.str_expr(d - 1), self.str_expr(d - 1, nochar=True), Str(255))
        if k == "trim":
            return BI("trim", [self.str_expr(d - 1, nochar=True)], Str(255))
        a = [self.str_expr(d - 1, nochar=True), Lit(INT, 1 + s.n(4))]
        n = s.pick(["copy", "substr"])
        if n == "copy" or s.bool(2, 3):
            a.append(Lit(INT, s.n(5)))
        return BI(n, a, Str(255))

    # ---------------------------------------------------------- statements
    def block(self, n, d):
        ss = []
        for _ in range(n):
            x = self.stmt(d)
            if x is not None:
                ss.append(x)
        return Block(ss)

    def stmt(self, d):
        s = self.s
        k = [(8, "assign"), (3, "write")]
        if self.pure:
            k = [(8, "assign")]
        if d > 0:
            k += [(3, "if")]
            if self.on("case"):
                k.append((2, "case"))
            if self.on("loops"):
                k += [(3, "for"), (2, "while"), (1, "repeat")]
            if self.on("forin") and self.setts:
                k.append((1, "forin"))
            if self.on("with_") and self.recs:
                k.append((1, "with"))
            if self.on("goto") and not self.pure:
                k.append((2, "goto"))
        if self.on("builtins"):
            k.append((1, "inc"))
        if self.on("calls") and not self.pure:
            k.append((3, "call"))
        if self.on("variants"):
            k.append((3, "tag"))
        if self.on("ptrs"):
            k.append((2, "ptr"))
        k = s.wpick(k)
        return getattr(self, "s_" + k)(d)

    def s_assign(self, d):
        v = self.lval(lambda t: True, 2, write=True)
        if v is None:
            return None
        e = self.expr(v.t, self.s.n(self.f["depth"]) + 1)
        if e is None:
            return None
        return Assign(v, e)

    def printable(self):
        s = self.s
        k = [(4, INT), (1, BOOL)]
        if self.on("lint"):
            k.append((1, LINT))
        if self.on("char"):
            k.append((1, CHAR))
        if self.on("real"):
            k.append((1, REAL))
        if self.enums:
            k.append((1, s.pick(self.enums)))
        if self.on("strs"):
            k.append((1, Str(255)))
        return s.wpick(k)

    def s_write(self, d):
        s = self.s
        items = [(b"w%d:" % self.cnt, None, None)]
        self.cnt += 1
        for _ in range(1 + s.n(2)):
            t = self.printable()
            e = self.expr(t, s.n(self.f["depth"]) + 1)
            items.append((b" ", None, None))
            items.append((e, None, 6 if t is REAL else None) if t is not REAL else (e, 1, 6))
        return W(items)

    def s_if(self, d):
        s = self.s
        return If(self.bool_expr(1 + s.n(self.f["depth"])), self.sub(d), self.sub(d) if s.bool() else None)

    def sub(self, d):
        s = self.s
        if s.bool(1, 4):
            x = self.stmt(d - 1)
            if x is not None:
                return x
        return self.block(1 + s.n(3), d - 1)

    def s_case(self, d):
        s = self.s
        c = [(4, INT)]
        if self.on("char"):
            c.append((1, CHAR))
        if self.enums:
            c.append((2, s.pick(self.enums)))
        t = s.wpick(c)
        e = self.expr(t, 1 + s.n(2))
        if t is INT and s.bool(2, 3):
            e = Bin("mod", e, Lit(INT, 2 + s.n(9)), INT)
        pool = {INT: (-10, 12), CHAR: (65, 110)}.get(t) or (0, t.hi)
        wide = t in (INT, CHAR) and s.bool(1, 3)
        if wide:
            # ranges around the size from which on they are compared instead of listed
            pool = (-60, 400) if t is INT else (65, 122)
            if t is INT:
                e = Bin("+" if s.bool() else "-", Bin("mod", self.int_expr(1), Lit(INT, s.pick([40, 70, 150, 400])), INT),
                        Lit(INT, s.pick([0, 5, 10, 50])), INT)
        arms = []
        cur = pool[0]
        while cur <= pool[1] and len(arms) < 6:
            labs = []
            for _ in range(1 + s.n(2)):
                lo = cur + s.n(3)
                hi = lo + (s.n(4) if s.bool(1, 3) else 0)
                if wide and s.bool(1, 2):
                    hi = lo + s.pick([30, 31, 32, 33, 34, 50, 100])
                if hi > pool[1]:
                    break
                labs.append((lo, hi))
                cur = hi + 1
            if not labs:
                break
            arms.append((s.shuffle(labs), self.sub(d)))
        if not arms:
            arms = [([(pool[0], pool[0])], self.sub(d))]
        c = Case(e, arms, self.block(1 + s.n(2), d - 1) if s.bool(2, 3) else None)
        c.word = s.pick(["otherwise", "else"])
        return c

    def loopvar(self, t):
        d = VarDecl(self.name("i"), t, self.scopes[-1][0].level, "loop")
        self.scopes[-1][1].append(d)
        self.scopes[-1][0].locals.append(d)
        return d

    def s_for(self, d):
        s = self.s
        c = [(5, INT)]
        if self.on("char"):
            c.append((1, CHAR))
        if self.enums:
            c.append((2, s.pick(self.enums)))
        if self.subs:
            c.append((2, s.pick(self.subs)))
        if self.on("lint"):
            c.append((1, LINT))
        t = s.wpick(c)
        v = self.free_loopvar(t)
        down = s.bool(1, 3)
        if t is LINT:
            a = Lit(LINT, s.pick([-3, 0, MAXINT - 1, MAXINT, -MAXINT - 1, -MAXINT - 3, 2**32 - 1, 10**12]))
            b = Lit(LINT, a.v + s.pick([0, 1, 2, 3, 4, -1]))
            if s.bool(1, 6):
                a = Lit(INT, s.n(9) - 3)
                b = self.int_expr(1)
        elif t.base is INT:
            lo, hi = max(t.lo, -3), min(t.hi, 12)
            if lo > hi:
                lo, hi = t.lo, t.hi
            a = Lit(INT, s.rng_range(lo, hi))
            b = Lit(INT, max(t.lo, min(t.hi, a.v + s.pick([0, 1, 2, 3, 4, -1]))))
            if s.bool(1, 4):
                b = self.int_expr(1)
            if s.bool(1, 6):
                a = self.int_expr(1)
        elif t is CHAR:
            a = Lit(CHAR, s.rng_range(97, 104))
            b = Lit(CHAR, a.v + s.n(5))
        else:
            a, b = Lit(t.base, s.rng_range(t.lo, t.hi)), Lit(t.base, s.rng_range(t.lo, t.hi))
            if s.bool(1, 4) and t.base is t:
                b = self.ord_expr(t, 1)
        if down:
            a, b = b, a
        v.loopdepth = 1
        body = self.sub(d)
        v.loopdepth = 0
        return For(v, a, b, down, body)

    def free_loopvar(self, t):
        c = [v for v in self.scopes[-1][1] if v.kind == "loop" and v.loopdepth == 0 and v.t is t]
        return c[0] if c and self.s.bool() else self.loopvar(t)

    def s_forin(self, d):
        s = self.s
        t = s.pick(self.setts)
        e = self.set_expr(t, 1)
        if not isinstance(e, LV):
            e = self.lval(lambda x: x is t, 1)
            if e is None:
                return None
        v = self.free_loopvar(t.of.base)
        v.loopdepth = 1
        body = self.sub(d)
        v.loopdepth = 0
        return ForIn(v, e, body)

    def counter(self):
        d = VarDecl(self.name("c"), INT, self.scopes[-1][0].level, "cnt")
        self.scopes[-1][1].append(d)
        self.scopes[-1][0].locals.append(d)
        return d

    def s_while(self, d):
        s = self.s
        c = self.counter()
        v = Var(c)
        lim = Bin("<", v, Lit(INT, 1 + s.n(4)), BOOL)
        cond = lim
        if s.bool():
            o = self.bool_expr(2)
            cond = Bin(s.pick(["and", "and_then"] if self.on("shortcircuit") else ["and"]),
                       *s.pick([(lim, o), (o, lim)]), BOOL)
        body = self.block(1 + s.n(3), d - 1)
        body.ss.insert(s.n(len(body.ss) + 1), Assign(v, Bin("+", v, Lit(INT, 1), INT)))
        return Block([Assign(v, Lit(INT, 0)), While(cond, body)])

    def s_repeat(self, d):
        s = self.s
        c = self.counter()
        v = Var(c)
        cond = Bin(">=", v, Lit(INT, 1 + s.n(4)), BOOL)
        if s.bool():
            cond = Bin(s.pick(["or", "or_else"] if self.on("shortcircuit") else ["or"]), cond, self.bool_expr(2), BOOL)
        body = self.block(1 + s.n(3), d - 1)
        body.ss.insert(s.n(len(body.ss) + 1), Assign(v, Bin("+", v, Lit(INT, 1), INT)))
        return Block([Assign(v, Lit(INT, 0)), Repeat(body, cond)])

    def s_with(self, d):
        t = self.s.pick(self.recs)
        v = self.lval(lambda x: x is t, 1)
        if v is None or any(w[1] is t for w in self.withs):
            return None
        # the record must be a writable one for its fields to be assigned
        base = v
        while not isinstance(base, Var):
            if isinstance(base, Field) and base.bare:
                break
            base = base.b
        wr = isinstance(base, Var) and any(x is base.d and self.writable(x, p) for p, x in self.visible())
        if not fixed_path(v):
            return None
        self.withs.append((v, t, None, wr))
        body = self.sub(d)
        self.withs.pop()
        return With([v], body)

    def s_inc(self, d):
        v = self.lval(lambda t: t in (INT,), 1, write=True)
        if v is None:
            return None
        return IncDec(self.s.pick(["inc", "dec"]), v)

    def s_call(self, d):
        s = self.s
        fs = [p for p in self.callable() if not getattr(p, "recursive", False) or not self.inproc]
        fs += [v for p, v in self.visible() if v.kind == "proc" and not v.t.pure]
        if not fs:
            return None
        f = s.pick(fs)
        args = self.args(f, 2)
        if args is None:
            return None
        res = f.result if isinstance(f, Proc) else f.t.result
        if res is None:
            return CallS(Call(f, args))
        v = self.lval(lambda t: t is res, 1, write=True, whole=True)
        if v is None:
            return None
        return Assign(v, Call(f, args, res))

    def s_tag(self, d):
        rs = [t for t in self.recs if t.variant]
        if not rs:
            return None
        t = self.s.pick(rs)
        v = self.lval(lambda x: x is t, 1, write=True)
        if v is None or not fixed_path(v):
            return None
        tag, tt, alts = t.variant
        k = self.s.n(len(alts))
        ss = [TagAssign(Field(v, tag, tt), t, self.s.pick(alts[k][0]), k)]
        for n, ft in alts[k][1]:
            f = Field(v, n, ft)
            f.alt = k
            ss.append(Assign(f, self.expr(ft, 2)))
        return Block(ss)

    def s_goto(self, d):
        s = self.s
        p = self.scopes[-1][0]
        n = 10 + len(p.labels)
        p.labels.append(n)
        if s.bool():
            # forward, out of nested statements
            inner = self.block(1 + s.n(2), d - 1)
            g = Goto(n)
            inner.ss.append(If(self.bool_expr(2), g) if s.bool(2, 3) else g)
            b = self.block(1 + s.n(2), d - 1)
            st = inner if s.bool() else If(self.bool_expr(1), inner)
            return Block([st] + b.ss + [Label(n)] + self.block(1, d - 1).ss)
        c = self.counter()
        v = Var(c)
        body = self.block(1 + s.n(2), d - 1)
        return Block([Assign(v, Lit(INT, 0)), Label(n)] + body.ss +
                     [Assign(v, Bin("+", v, Lit(INT, 1), INT)),
                      If(Bin("<", v, Lit(INT, 1 + s.n(4)), BOOL), Goto(n))])

    # ---------------------------------------------------------- procedures
    def gen_proc(self, level, depth):
        s = self.s
        isf = s.bool(1, 2)
        rec = s.bool(1, 4)
        res = self.simple_scalar() if isf else None
        pure = isf and s.bool(2, 3)
        p = Proc(self.name("f" if isf else "q"), level, [], res)
        p.pure = pure
        p.recursive = rec
        if rec:
            p.params.append(VarDecl(self.name("n"), INT, level, "fuel"))
        for _ in range(s.n(4)):
            p.params.append(self.gen_param(level, pure))
        if self.on("procparams") and s.bool(1, 5):
            p.params.append(self.gen_procparam(level, pure))
        parent = self.scopes[-1][0]
        for _ in range(1 + s.n(3)):
            t = self.any_type()
            p.locals.append(VarDecl(self.name("v"), t, level))
        save = (self.pure, self.inproc, self.withs)
        self.pure, self.inproc, self.withs = False, True, []
        ownvars = list(p.params)
        for d in p.params:
            if isinstance(d.t, ConfArr):
                ownvars += [VarDecl(d.t.loname, d.t.idxt, level, "cnt"), VarDecl(d.t.hiname, d.t.idxt, level, "cnt")]
        self.scopes.append((p, ownvars + p.locals[:]))
        if self.on("nest") and depth > 0 and s.bool(1, 3):
            for _ in range(1 + s.n(2)):
                p.procs.append(self.gen_proc(level + 1, depth - 1))
        self.pure = pure
        ss = self.inits(p.locals[:])
        if isf:
            ss.append(ResAssign(p, self.expr(res, 1)))
        body = self.block(1 + s.n(4), 2).ss
        if rec:
            fuel = p.params[0]
            args = self.recargs(p, fuel)
            if args is not None:
                call = Call(p, args, res)
                if isf:
                    body.append(ResAssign(p, self.combine(call, res)))
                else:
                    body.append(CallS(call))
                if s.bool(1, 3):
                    body += self.block(1, 1).ss
            ss.append(If(Bin(">", Var(fuel), Lit(INT, 0), BOOL), Block(body)))
        else:
            ss += body
        if isf and s.bool():
            ss.append(ResAssign(p, self.expr(res, self.f["depth"])))
        p.body = Block(ss)
        self.scopes.pop()
        self.pure, self.inproc, self.withs = save
        p.parent = parent
        p.forward = s.bool(1, 8) and not any(d.kind == "proc" or isinstance(d.t, ConfArr) for d in p.params)
        return p

    def combine(self, call, res):
        if res is INT or res is LINT or res is REAL:
            if self.s.bool():
                return Bin(self.s.pick("+-"), call, self.expr(res, 1), res)
        if res is BOOL and self.s.bool():
            return Un("not", call, BOOL)
        return call

    def recargs(self, p, fuel):
        r = [Bin("-", Var(fuel), Lit(INT, 1), INT)]
        rest = self.args(p, 2)
        if rest is None:
            return None
        return r + rest[1:]

    def simple_scalar(self):
        s = self.s
        c = [(5, INT), (2, BOOL)]
        if self.on("lint"):
            c.append((1, LINT))
        if self.on("char"):
            c.append((1, CHAR))
        if self.on("real"):
            c.append((1, REAL))
        if self.enums:
            c.append((1, s.pick(self.enums)))
        return s.wpick(c)

    def any_type(self):
        s = self.s
        c = self.arrs + self.recs
        if c and s.bool(1, 3):
            return s.pick(c)
        return self.simple_type()

    def gen_param(self, level, pure):
        s = self.s
        if self.on("conf") and self.on("arrays") and s.n(12) < self.f["conf"]:
            c = [a for a in self.arrs if len(a.idx) == 1 and a.idx[0].base is not BOOL and a.elem.simple
                 and not isinstance(a.elem, SetT)]
            a = s.pick(c) if c and s.bool(2, 3) else None
            t = ConfArr(self.name("lo"), self.name("hi"), a.idx[0].base if a else INT, a.elem if a else INT)
            return VarDecl(self.name("x"), t, level, "confref" if not pure and s.bool() else "conf")
        t = self.any_type()
        kind = "ref" if not pure and s.bool(1, 3) else "val"
        if isinstance(t, Str) and kind == "ref":
            kind = "val"
        return VarDecl(self.name("x"), t, level, kind)

    def gen_procparam(self, level, pure):
        s = self.s
        # prefer the signature of something that exists
        c = [p for p in self.callable() if not getattr(p, "recursive", False) and (p.pure or not pure)
             and all(x.kind in ("val", "ref") and x.t.name and x.t.simple and not isinstance(x.t, (Str, SetT)) for x in p.params)]
        if c and s.bool(3, 4):
            p = s.pick(c)
            t = ProcT([(self.name("y"), x.t, x.kind) for x in p.params], p.result)
            t.pure = p.pure
        else:
            t = ProcT([(self.name("y"), INT, "val")], INT if s.bool() or pure else None)
            t.pure = t.result is not None
        return VarDecl(self.name("g"), t, level, "proc")

    # ---------------------------------------------------------- whole programs
    def inits(self, ds):
        r = []
        for d in ds:
            r += self.init(Var(d), d.t)
        return r

    def init(self, lv, t):
        s = self.s
        if isinstance(t, Arr) and not is_chararr(t):
            r = []

            def go(idx, rest):
                if not rest:
                    r.extend(self.init(Index(lv, [Lit(x.base, v) for x, v in zip(t.idx, idx)]), t.elem))
                    return
                for v in range(rest[0].lo, rest[0].hi + 1):
                    go(idx + [v], rest[1:])
            go([], t.idx)
            return r
        if isinstance(t, Rec):
            r = []
            for n, ft in t.fields:
                r += self.init(Field(lv, n, ft), ft)
            if t.variant:
                tag, tt, alts = t.variant
                k = s.n(len(alts))
                r.append(TagAssign(Field(lv, tag, tt), t, s.pick(alts[k][0]), k))
                for n, ft in alts[k][1]:
                    f = Field(lv, n, ft)
                    f.alt = k
                    r += self.init(f, ft)
            return r
        if isinstance(t, Ptr):
            return [New(lv)] + self.init(Deref(lv), t.to)
        return [Assign(lv, self.init_value(t), init=True)]

    def init_value(self, t):
        s = self.s
        b = t.base
        if t.ordinal:
            if b is INT:
                return Lit(INT, s.rng_range(t.lo, t.hi) if isinstance(t, Sub) else s.pick(INTS[:20]) * s.pick([1, 1, -1]))
            if b is LINT:
                return Lit(LINT, s.pick(LINTS) * s.pick([1, -1]))
            if b is CHAR:
                return Lit(CHAR, s.pick(STRCH) if t is CHAR else s.rng_range(t.lo, t.hi))
            return Lit(b, s.rng_range(t.lo, t.hi))
        if b is REAL:
            return Lit(REAL, s.pick(REALS) * s.pick([1, -1]))
        if isinstance(b, Str):
            return Lit(b, bytes(s.pick(STRCH) for _ in range(s.n(min(b.n, 8) + 1))))
        if isinstance(b, SetT):
            return self.set_ctor(b, 0)
        if is_chararr(b):
            return Lit(b, bytes(s.pick(STRCH) for _ in range(b.idx[0].hi - b.idx[0].lo + 1)))
        raise AssertionError(b)

    def dump(self, lv, t):
        """statements which print everything in a variable"""
        if isinstance(t, Arr) and not is_chararr(t):
            r = []

            def go(idx, rest):
                if not rest:
                    r.extend(self.dump(Index(lv, [Lit(x.base, v) for x, v in zip(t.idx, idx)]), t.elem))
                    return
                for v in range(rest[0].lo, rest[0].hi + 1):
                    go(idx + [v], rest[1:])
            go([], t.idx)
            return r
        if isinstance(t, Rec):
            r = []
            for n, ft in t.fields:
                r += self.dump(Field(lv, n, ft), ft)
            if t.variant:
                r += self.dump(Field(lv, t.variant[0], t.variant[1]), t.variant[1])
                for k, (labs, fs) in enumerate(t.variant[2]):
                    for n, ft in fs:
                        f = Field(lv, n, ft)
                        f.alt = k
                        r += self.dump(f, ft)
            return r
        if isinstance(t, Ptr):
            return self.dump(Deref(lv), t.to)
        if isinstance(t, SetT):
            return [DumpSet(lv, t)]
        if t is REAL:
            return [W([(lv, 1, 6)])]
        return [W([(lv, None, None)])]

    def gen_consts(self):
        s = self.s
        if not self.on("consts"):
            return
        for _ in range(s.n(4)):
            t = self.simple_scalar()
            if isinstance(t, Enum):
                t = INT
            e = self.init_value(t)
            if t is LINT and INT.lo <= e.v <= INT.hi:
                t = INT  # a named constant has the smaller type that holds it
            n = self.name("k")
            self.prog.consts.append((n, e.src()))
            self.consts.append(Const(n, t, e.v))

    def program(self):
        s = self.s
        self.gen_types()
        self.gen_consts()
        m = self.prog.main
        for _ in range(2 + s.n(5)):
            m.locals.append(VarDecl(self.name("v"), self.any_type(), 0))
        # some of each that calls can use
        m.locals.append(VarDecl(self.name("v"), INT, 0))
        globs = m.locals[:]
        self.scopes.append((m, globs))
        if self.on("procs"):
            for _ in range(s.n(5)):
                m.procs.append(self.gen_proc(1, 2))
        ss = self.inits(globs[:])
        for _ in range(2 + s.n(self.f["stmts"])):
            x = self.stmt(3)
            if x is not None:
                ss.append(x)
        for d in globs:
            if d.kind == "var":
                ss += self.dump(Var(d), d.t)
        m.body = Block(ss)
        return self.prog


class StrCmp(Bin):
    """comparison of strings: bytes, char arrays and chars"""

    def __init__(self, op, l, r):
        Bin.__init__(self, op, l, r, BOOL)

    def ev(self, fr):
        if self.op == "left":
            return Bin.ev(self, fr)
        fr.cx.step()
        a, b = self.sval(self.l.ev(fr)), self.sval(self.r.ev(fr))
        return int(cmpop(self.op, a, b))


class DumpSet(Stmt):
    def __init__(self, lv, t):
        self.lv, self.t = lv, t

    def src_(self):
        lo, hi = self.t.of.lo, self.t.of.hi
        b = self.t.of.base
        if b is BOOL or isinstance(b, Enum):
            vals = range(lo, hi + 1)
        else:
            vals = range(lo, hi + 1) if hi - lo < 12 else sorted({lo, hi, *range(lo, hi, max(1, (hi - lo) // 9))})
        self.vals = list(vals)
        return "writeln(" + ", ".join("%s in %s" % (lit_src(b, v), self.lv.src(P_ADD)) for v in self.vals) + ")"

    def ex_(self, fr):
        fr.cx.step()
        v = self.lv.ev(fr)
        self.src_()
        fr.cx.out.append(b"".join(b"TRUE" if x in v else b"FALSE" for x in self.vals) + b"\n")


def fixed_path(v):
    """the access does not depend on anything that can change"""
    while True:
        if isinstance(v, Var):
            return True
        if isinstance(v, Index):
            if not all(isinstance(i, Lit) for i in v.idx):
                return False
        elif isinstance(v, Deref):
            return False
        v = v.b


def same_sig(a, b):
    return a.result is b.result and a.pure == b.pure and len(a.params) == len(b.params) and all(
        x[1] is y[1] and x[2] == y[2] for x, y in zip(a.params, b.params))


def size_of(t):
    if isinstance(t, Arr):
        return size_of(t.elem) * prod(i.hi - i.lo + 1 for i in t.idx)
    if isinstance(t, Rec):
        return sum(size_of(ft) for _, ft in t.fields) + (2 if t.variant else 0)
    return 1


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r
