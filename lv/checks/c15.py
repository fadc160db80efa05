"""Constant expressions, in all places that take them."""
import math

from ..progcheck import Case, ProgCheck

ENUM = ["aa", "bb", "cc", "dd", "ee", "ff"]
I32 = 2 ** 31 - 1
I62 = 2 ** 62
PREC = {"+": 1, "-": 1, "or": 1, "xor": 1, "*": 2, "/": 2, "div": 2, "mod": 2, "and": 2, "shl": 2, "shr": 2, "pow": 3, "**": 3}


class E:
    """source, precedence, value; exact: whether the last bit of a real is known"""

    def __init__(self, src, prec, v, exact=True):
        self.src, self.prec, self.v, self.exact = src, prec, v, exact


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def low(e):
    """an expression that may start a type: a parenthesis there begins an enumeration"""
    return E("0 + " + e.src, 1, e.v) if e.src.startswith("(") and isinstance(e.v, int) else e


class Consts:
    def __init__(self, s):
        self.s = s
        self.env = {k: [] for k in ("int", "real", "char", "bool", "enum", "str", "set")}
        self.decl, self.cnt, self.ops = [], 0, set()

    def wrap(self, e, prec, right=False):
        if e.prec < prec or (right and e.prec == prec) or self.s.n(10) == 0:
            return "(%s)" % e.src
        return e.src

    def binop(self, op, a, b, v, exact=True):
        p = PREC[op]
        self.ops.add(op)
        # an operand of ** and pow is a single term
        return E("%s %s %s" % (self.wrap(a, p, p == 3), op, self.wrap(b, p, True)), p, v, exact and a.exact and b.exact)

    def unary(self, op, a, v):
        self.ops.add("unary" if op != "not" else "not")
        src = self.wrap(a, 4)
        return E((op + " " + src) if op == "not" or self.s.bool() else op + src, 3.5, v, a.exact)

    def call(self, f, a, v, exact=True, arg2=None):
        self.ops.add(f)
        return E("%s(%s%s)" % (f, a.src, ", " + arg2 if arg2 else ""), 5, v, exact and a.exact)

    def gen(self, t, d):
        return getattr(self, t)(d)

    def known(self, t):
        if self.env[t] and self.s.bool():
            n, v, exact = self.s.pick(self.env[t])
            return E(n, 5, v, exact)
        return None

    def int(self, d):
        for _ in range(20):
            e = self.int1(d)
            if e is not None and abs(e.v) < I62:
                return e
        return E("1", 5, 1)

    def int1(self, d):
        s = self.s
        if d <= 0 or s.n(5) == 0:
            e = self.known("int")
            if e:
                return e
            k = s.n(8)
            if k == 0:
                return E("maxint", 5, I32)
            if k == 1:
                v = s.n(65536)
                return E("$%X" % v, 5, v)
            if k == 2:
                v = s.pick([2 ** 31, 2 ** 32, 2 ** 40 + 1, 10 ** 15])
                return E(str(v), 5, v)
            v = s.pick([0, 1, 2, 3, 7, 10, 100, 255, 256, 1000, s.n(10 ** 6)])
            return E(str(v), 5, v)
        k = s.wpick([(6, "bin"), (3, "divmod"), (2, "bits"), (1, "shift"), (1, "pow"), (2, "neg"), (1, "not"), (1, "ord"), (2, "succ"), (1, "trunc"), (1, "len")])
        if k == "bin":
            a, b = self.int(d - 1), self.int(d - 1)
            op = s.pick("+-*")
            v = a.v + b.v if op == "+" else a.v - b.v if op == "-" else a.v * b.v
            return self.binop(op, a, b, v) if abs(v) < I62 else None
        if k == "divmod":
            a, b = self.int(d - 1), self.int(d - 1)
            if b.v == 0:
                return None
            q = tdiv(a.v, b.v)
            return self.binop("div", a, b, q) if s.bool() else self.binop("mod", a, b, a.v - q * b.v)
        if k == "bits":
            a, b = self.int(d - 1), self.int(d - 1)
            op = s.pick(["and", "or", "xor"])
            return self.binop(op, a, b, a.v & b.v if op == "and" else a.v | b.v if op == "or" else a.v ^ b.v)
        if k == "shift":
            a, n = self.int(d - 1), s.pick([0, 1, 2, 5, 16, 31])
            b = E(str(n), 5, n)
            if s.bool() and 0 <= a.v << n < (2 ** 31 if a.v < 2 ** 31 else I62):
                return self.binop("shl", a, b, a.v << n)
            m = 2 ** 32 - 1 if -2 ** 31 <= a.v < 2 ** 31 else 2 ** 64 - 1
            v = (a.v & m) >> n
            # the sign bit only disappears when there is a shift
            return self.binop("shr", a, b, v) if n and v < I62 else None
        if k == "pow":
            a, n = self.int(d - 1), s.pick([0, 1, 2, 3, 5, 10, 31, -1, -2, -3])
            if n < 0:
                if a.v == 0:
                    return None
                v = 1 if a.v == 1 else (-1) ** n if a.v == -1 else 0
                return self.binop("pow", a, self.unary("-", E(str(-n), 5, -n), n), int(v))
            v = a.v ** n
            return self.binop("pow", a, E(str(n), 5, n), v) if abs(v) < I62 else None
        if k == "neg":
            a = self.int(d - 1)
            return self.unary("-", a, -a.v) if s.n(4) else self.unary("+", a, a.v)
        if k == "not":
            a = self.int(d - 1)
            return self.unary("not", a, ~a.v)
        if k == "ord":
            t = s.pick(["char", "bool", "enum", "int"])
            a = self.gen(t, d - 1)
            return self.call("ord", a, a.v)
        if k == "succ":
            return self.succ(self.int(d - 1), lambda v: abs(v) < I62)
        if k == "trunc":
            a = self.real(d - 1)
            if abs(a.v) > 1e15 or (not a.exact and abs(a.v * 2 - round(a.v * 2)) < 1e-6):
                return None
            if s.bool():
                return E(self.call("trunc", a, 0).src, 5, int(a.v))
            return E(self.call("round", a, 0).src, 5, int(math.floor(abs(a.v) + 0.5)) * (1 if a.v >= 0 else -1))
        a = self.str(d - 1) if s.n(3) else self.char(d - 1)
        return self.call("length", a, len(a.v) if isinstance(a.v, str) else 1)

    def succ(self, a, ok):
        s = self.s
        n = s.pick([None, None, 1, 2, 3])
        v = a.v + (n or 1)
        f = "succ"
        if s.bool():
            f, v = "pred", a.v - (n or 1)
        return self.call(f, a, v, arg2=str(n) if n else None) if ok(v) else a

    def real(self, d):
        for _ in range(20):
            e = self.real1(d)
            if e is not None and e.v == e.v and abs(e.v) < 1e9 and (e.v == 0 or abs(e.v) > 1e-9):
                return e
        return E("0.5", 5, 0.5)

    def real1(self, d):
        s = self.s
        if d <= 0 or s.n(4) == 0:
            e = self.known("real")
            if e:
                return e
            v = s.pick([0.5, 1.25, 2.0, 3.75, 0.1, 100.001, s.n(10 ** 6) / 1000, 1e5])
            return E(repr(v) if s.n(6) else "%.6E" % v, 5, float(repr(v)) if "." in repr(v) else v)
        k = s.wpick([(6, "bin"), (2, "div"), (2, "neg"), (2, "fn"), (1, "pow"), (1, "power")])
        if k in ("bin", "div"):
            ts = s.pick([("real", "real"), ("real", "int"), ("int", "real")]) if k == "bin" else s.pick([("real", "real"), ("int", "int"), ("int", "real"), ("real", "int")])
            a, b = self.gen(ts[0], d - 1), self.gen(ts[1], d - 1)
            if max(abs(a.v), abs(b.v)) > 2 ** 53:
                return None
            x, y = float(a.v), float(b.v)
            if k == "div":
                return self.binop("/", a, b, x / y) if abs(y) > 1e-6 else None
            op = s.pick("+-*")
            return self.binop(op, a, b, x + y if op == "+" else x - y if op == "-" else x * y)
        if k == "neg":
            a = self.real(d - 1)
            return self.unary("-", a, -a.v) if s.n(4) else self.unary("+", a, a.v)
        a = self.real(d - 1) if s.n(4) else self.int(d - 1)
        if abs(a.v) > 2 ** 53:
            return None
        x = float(a.v)
        if k == "pow":
            a = self.real(d - 1)
            n = s.pick([0, 1, 2, 3, -1, -2])
            if n < 0 and abs(a.v) < 1e-3:
                return None
            b = E(str(n), 5, n) if n >= 0 else self.unary("-", E(str(-n), 5, -n), n)
            return self.binop("pow", a, b, a.v ** n, False)
        if k == "power":
            b = self.real(d - 1)
            if not (1e-3 < x < 1e3 and abs(b.v) < 3):
                return None
            return self.binop("**", a, b, x ** b.v, False)
        f = s.pick(["sin", "cos", "ln", "exp", "frac", "int"])
        if f in ("sin", "cos"):
            return self.call(f, a, getattr(math, f)(x), False) if abs(x) < 1000 else None
        if f == "ln":
            return self.call(f, a, math.log(x), False) if x > 1e-6 else None
        if f == "exp":
            return self.call(f, a, math.exp(x), False) if abs(x) < 15 else None
        if not a.exact and abs(x - round(x)) < 1e-6:
            return None
        a = a if isinstance(a.v, float) else self.real(0)
        x = a.v
        if not a.exact and abs(x - round(x)) < 1e-6:
            return None
        return self.call(f, a, x - math.trunc(x) if f == "frac" else float(math.trunc(x)))

    def char(self, d):
        s = self.s
        e = self.known("char")
        if e:
            return e
        if d > 0 and s.bool():
            if s.bool():
                v = s.pick([0, 32, 65, 97, 127, 128, 200, 255])
                return self.call("chr", E(str(v), 5, v), v)
            return self.succ(self.char(d - 1), lambda v: 0 <= v <= 255)
        v = s.pick([32, 48, 65, 90, 97, 122, 43])
        return E("'%c'" % v, 5, v)

    def bool(self, d):
        s = self.s
        e = self.known("bool")
        if e:
            return e
        if d > 0 and s.n(4):
            k = s.n(6)
            if k == 0:
                a = self.bool(d - 1)
                return self.unary("not", a, 1 - a.v)
            if k == 1:
                a = self.int(d - 1)
                return self.call("odd", a, a.v & 1)
            if k == 2:
                return self.succ(self.bool(d - 1), lambda v: 0 <= v <= 1)
            a, b = self.bool(d - 1), self.bool(d - 1)
            op = s.pick(["and", "or", "xor"])
            return self.binop(op, a, b, a.v & b.v if op == "and" else a.v | b.v if op == "or" else a.v ^ b.v)
        v = s.n(2)
        return E(("false", "true")[v], 5, v)

    def enum(self, d):
        s = self.s
        e = self.known("enum")
        if e:
            return e
        if d > 0 and s.bool():
            return self.succ(self.enum(d - 1), lambda v: 0 <= v < len(ENUM))
        v = s.n(len(ENUM))
        return E(ENUM[v], 5, v)

    def str(self, d):
        s = self.s
        e = self.known("str")
        if e:
            return e
        if d > 0 and s.bool():
            a = self.str(d - 1) if s.n(3) else self.char(d - 1)
            b = self.str(d - 1) if s.n(3) or isinstance(a.v, int) and s.n(3) else self.char(d - 1)
            t = lambda e: e.v if isinstance(e.v, str) else chr(e.v)
            v = t(a) + t(b)
            if len(v) <= 200 and "\0" not in v:
                return self.binop("+", a, b, v)
        v = "".join(s.pick("abc xyz'09") for _ in range(2 + s.n(8)))
        return E("'%s'" % v.replace("'", "''"), 5, v)

    def small(self, d, lo, hi):
        """an integer expression with a value in a range"""
        for _ in range(12):
            e = self.int(d)
            if lo <= e.v <= hi:
                return e
        v = lo + self.s.n(hi - lo + 1)
        a = self.int(1)
        if abs(a.v) < I32 // 2 and abs(v - a.v) < I32:
            w = v - a.v
            return E("%s %s %d" % (self.wrap(a, 1), "-" if w < 0 else "+", abs(w)), 1, v)
        return E(str(v), 5, v) if v >= 0 else E("-%d" % -v, 3.5, v)

    def set(self, d):
        s = self.s
        t = s.pick(["int", "char", "enum"])
        vals, src = set(), []
        for _ in range(s.n(4)):
            g = lambda: self.small(d - 1, 0, 60) if t == "int" else self.gen(t, d - 1)
            a = g()
            if s.n(3) == 0:
                b = g()
                src.append("%s..%s" % (a.src, b.src))
                vals |= set(range(a.v, b.v + 1))
            else:
                src.append(a.src)
                vals.add(a.v)
        return E("[%s]" % ", ".join(src), 5, (t, vals) if src else (t, vals))

    def define(self):
        s = self.s
        t = s.wpick([(6, "int"), (3, "real"), (2, "char"), (2, "bool"), (2, "enum"), (2, "str"), (1, "set")])
        e = self.gen(t, s.pick([1, 2, 3, 4]))
        self.cnt += 1
        n = "k%d" % self.cnt
        self.decl.append("  %s = %s;" % (n, e.src))
        self.env[t].append((n, e.v, e.exact))
        return n, t, e


class CHECK(ProgCheck):
    id = "C15"
    rule = ("random constant definitions (integer, real, char, boolean, enumeration, string, set) that use operators, functions and earlier constants, and constant "
            "expressions as array bounds, subrange bounds, string sizes, case labels and set members; an exact evaluator predicts what the program prints; "
            "non-trivial: at least four operators or functions")
    quick, thorough = 2200, 60000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-Cr",)]

    def gen(self, s):
        c = Case()
        k = Consts(s)
        body, out, types, vars_ = [], [], [], []

        def e(t, o):
            body.append("  " + t)
            out.append(o + "\n")
        for _ in range(1 + s.n(14)):
            n, t, x = k.define()
            if t == "real":
                if x.exact and x.v:
                    e("writeln(%s:25);" % n, ("% .18E" % x.v).rjust(25))
                else:
                    e("writeln(%s:1:6);" % n, "%.6f" % x.v)
            elif t == "char":
                e("writeln(ord(%s));" % n, "%d" % x.v)
            elif t == "bool":
                e("writeln(%s);" % n, ("FALSE", "TRUE")[x.v])
            elif t == "enum":
                e("writeln(%s);" % n, ENUM[x.v])
            elif t == "set":
                st, vals = x.v
                if x.src == "[]":
                    continue
                body.append("  writeln;")
                out.append("\n")
                for _ in range(3):
                    v = s.pick(sorted(vals)) if vals and s.bool() else s.n(60) if st == "int" else 32 + s.n(90) if st == "char" else s.n(len(ENUM))
                    lit = str(v) if st == "int" else "chr(%d)" % v if st == "char" else ENUM[v]
                    e("writeln(%s in %s);" % (lit, n), ("FALSE", "TRUE")[v in vals])
            elif t == "str":
                e("st := %s; writeln(length(st), ' ', st);" % n, "%d %s" % (len(x.v), x.v))
            else:
                e("writeln(%s);" % n, "%d" % x.v)
                if s.n(4) == 0:
                    e("l := %s; writeln(l - 1);" % n, "%d" % (x.v - 1))
                if s.n(4) == 0 and abs(x.v) < 2 ** 30:
                    e("i := 1000; writeln(i + %s);" % n, "%d" % (x.v + 1000))
        for j in range(s.n(4)):
            u = s.pick(["array", "case", "sub", "string", "enumarr"])
            k.ops.add(u)
            if u == "array":
                a = low(k.small(3, -50, 50))
                b = k.small(2, a.v, a.v + 40)
                vars_.append("  a%d: array [%s..%s] of integer;" % (j, a.src, b.src))
                e("a%d[%d] := 7; a%d[%d] := 8; writeln(sizeof(a%d), ' ', a%d[%d]);" % (j, a.v, j, b.v, j, j, a.v), "%d %d" % (4 * (b.v - a.v + 1), 8 if a.v == b.v else 7))
            elif u == "sub":
                a = low(k.small(2, -100, 100))
                b = k.small(2, a.v, a.v + 90)
                types.append("  t%d = %s..%s;" % (j, a.src, b.src))
                vars_.append("  b%d: array [t%d] of char;" % (j, j))
                e("writeln(sizeof(b%d));" % j, "%d" % (b.v - a.v + 1))
            elif u == "string":
                a = k.small(2, 1, 200)
                vars_.append("  s%d: array [1..4] of string[%s];" % (j, a.src))
                vars_.append("  q%d: array [1..4] of string[%d];" % (j, a.v))
                e("writeln(sizeof(s%d) = sizeof(q%d));" % (j, j), "TRUE")
            elif u == "enumarr":
                a, b = k.enum(2), k.enum(2)
                if a.v > b.v:
                    a, b = b, a
                if a.src.startswith("("):
                    a = E(ENUM[a.v], 5, a.v)
                vars_.append("  e%d: array [%s..%s] of boolean;" % (j, a.src, b.src))
                e("writeln(sizeof(e%d));" % j, "%d" % (b.v - a.v + 1))
            else:
                t = s.pick(["int", "char", "enum"])
                labels, used = [], set()
                for m in range(1 + s.n(5)):
                    g = lambda: k.small(2, -60, 60) if t == "int" else k.gen(t, 2)
                    a = g()
                    b = g() if s.n(3) == 0 else a
                    r = set(range(a.v, b.v + 1))
                    if not r or r & used:
                        continue
                    used |= r
                    labels.append((a.src if a is b else "%s..%s" % (a.src, b.src), r))
                if not labels:
                    continue
                v = s.pick(sorted(used)) if s.n(4) else s.n(50)
                if t == "enum":
                    v %= len(ENUM)
                sel = {"int": "i := %d; case i of" % v, "char": "ch := chr(%d); case ch of" % (v % 256), "enum": "en := %s; case en of" % ENUM[v % len(ENUM)]}[t]
                if t == "char":
                    v %= 256
                hit = next((m for m, (_, r) in enumerate(labels) if v in r), None)
                e("%s %s otherwise writeln('none') end;" % (sel, " ".join("%s: writeln(%d);" % (x[0], m) for m, x in enumerate(labels))), "none" if hit is None else "%d" % hit)
        t = ["program p(output);", "type e = (%s);" % ", ".join(ENUM), "const"] + k.decl
        if types:
            t += ["type"] + types
        t += ["var", "  i: integer; l: longint; ch: char; en: e; st: string;"] + vars_ + ["begin"] + body
        c.text = "\n".join(t + ["end."]) + "\n"
        c.inp, c.expect, c.rc, c.steps = b"", "".join(out).encode("latin1"), 0, len(k.ops)
        c.opts, c.fuzzy = s.pick(self.optsets), True
        c.ops = sorted(k.ops)
        return c

    def nontrivial(self, c):
        return len(c.ops) >= 4

    def features(self, c):
        return c.ops
