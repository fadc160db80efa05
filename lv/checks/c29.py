"""Complex expressions, against Python's complex arithmetic with a running error bound."""
import cmath
import math

from ..progcheck import Case, ProgCheck


class Bad(Exception):
    pass


class V:
    """a value, a bound on its error, and whether it is exact"""

    def __init__(self, v, err=0.0, exact=True):
        if v != v or abs(v) > 1e5 or err > 3e-7:
            raise Bad()
        self.v, self.err, self.exact = v, err, exact


def part(x):
    return x.real if isinstance(x, complex) else float(x)


EPS = 3e-16


def spread(f, a, extra=0.0):
    """f at a and around it"""
    try:
        v = f(a.v)
        d = max(a.err, EPS * abs(a.v), 1e-12)
        near = [f(a.v + d * k) for k in ((1, -1, 1j, -1j) if isinstance(a.v, complex) else (1, -1))]
    except (ValueError, ZeroDivisionError, OverflowError):
        raise Bad()
    return V(v, max(abs(x - v) for x in near) * 2 + 4 * EPS * abs(v) + extra, False)


def cut(z, exact):
    """too close to the negative real axis, where the argument jumps"""
    if isinstance(z, complex) and (z.real < 1e-3 and abs(z.imag) < 1e-4) and not exact:
        raise Bad()
    if abs(z) < 1e-2:
        raise Bad()


class N:
    """a node: source template, type, children, evaluation"""

    def __init__(self, src, t, kids, f, prec=9, op=None):
        self.src, self.t, self.kids, self.f, self.prec, self.op = src, t, kids, f, prec, op

    def eval(self, env):
        return self.f(env, *[k.eval(env) for k in self.kids])

    def ops(self):
        r = {self.op} if self.op else set()
        for k in self.kids:
            r |= k.ops()
        return r


class Gen:
    def __init__(self, s):
        self.s = s
        self.vars = {"c": [], "r": [], "i": []}
        self.funcs = []

    def lit(self, t):
        s = self.s
        if t == "i":
            v = s.n(10)
            return N(str(v), "i", [], lambda env: V(v))
        if t == "r":
            v = s.pick([0.5, 1.0, 2.0, 0.25, 3.75, 10.0, s.n(4000) / 1000])
            return N(repr(v), "r", [], lambda env: V(v, 0, v * 8 == int(v * 8)))
        a, b = self.signed(), self.signed()
        return N("cmplx(%s, %s)" % (a[0], b[0]), "c", [], lambda env: V(complex(a[1], b[1]), EPS, (a[1] * 8).is_integer() and (b[1] * 8).is_integer()), op="cmplx")

    def signed(self):
        s = self.s
        v = s.pick([0.0, 1.0, 2.0, 0.5, 3.0, 1.25, s.n(5000) / 1000])
        sign = s.n(3) == 0 and v
        src = repr(v) if not v.is_integer() or s.bool() else str(int(v))
        return ("-" + src, -v) if sign else (src, v)

    def leaf(self, t):
        s = self.s
        if self.vars[t] and s.n(4):
            n = s.pick(self.vars[t])
            return N(n, t, [], lambda env: env[n])
        return self.lit(t)

    def w(self, n, prec, right=False):
        return "(%s)" % n.src if n.prec < prec or (right and n.prec == prec) or self.s.n(12) == 0 else n.src

    def expr(self, t, d):
        s = self.s
        if d <= 0 or s.n(6) == 0:
            return self.leaf(t)
        if t == "i":
            return self.leaf(t)
        if t == "r":
            k = s.pick(["re", "im", "abs", "arg", "arith", "leaf"])
            if k == "leaf":
                return self.leaf("r")
            if k == "arith":
                a, b = self.expr(s.pick("ri"), d - 1), self.expr("r", d - 1)
                return self.arith(s.pick("+-*"), a, b, "r")
            a = self.expr("c", d - 1)
            if k == "arg":
                def f(env, x):
                    cut(x.v, False)
                    return spread(cmath.phase, x)
            elif k == "abs":
                f = lambda env, x: V(abs(x.v), x.err + 4 * EPS * abs(x.v) + (1e-9 if abs(x.v) < 1e-3 else 0), False)
            else:
                f = lambda env, x, k=k: V(x.v.real if k == "re" else x.v.imag, x.err, x.exact)
            return N("%s(%s)" % (k, a.src), "r", [a], f, op=k)
        k = s.wpick([(8, "arith"), (2, "neg"), (5, "fn"), (2, "pow"), (2, "power"), (1, "cmplx"), (1, "polar")] + ([(2, "call")] if self.funcs else []))
        if k == "arith":
            ts = s.pick([("c", "c"), ("c", "c"), ("c", "c"), ("c", "r"), ("r", "c"), ("c", "i"), ("i", "c")])
            return self.arith(s.pick("+-*/"), self.expr(ts[0], d - 1), self.expr(ts[1], d - 1), "c")
        if k == "neg":
            a = self.expr("c", d - 1)
            return N("-" + self.w(a, 4), "c", [a], lambda env, x: V(-x.v, x.err, x.exact), 1, "neg")
        if k == "call":
            n, ps, body = s.pick(self.funcs)
            args = [self.expr(t if s.n(3) else s.pick("ri") if t == "c" else "i" if t == "r" else t, d - 1) for _, t in ps]

            def f(env, *xs):
                e = dict(env)
                for (p, t), x in zip(ps, xs):
                    e[p] = V(complex(x.v), x.err, x.exact) if t == "c" else V(float(x.v), x.err, x.exact)
                return body.eval(e)
            return N("%s(%s)" % (n, ", ".join(a.src for a in args)), "c", args, f, op="call")
        if k in ("cmplx", "polar"):
            a, b = self.expr(s.pick("rri"), d - 1), self.expr(s.pick("rri"), d - 1)
            if k == "cmplx":
                f = lambda env, x, y: V(complex(x.v, y.v), x.err + y.err, x.exact and y.exact)
            else:
                f = lambda env, x, y: V(cmath.rect(x.v, y.v), x.err + abs(x.v) * (y.err + EPS * abs(y.v)) + 8 * EPS * abs(x.v), False)
            return N("%s(%s, %s)" % (k, a.src, b.src), "c", [a, b], f, op=k)
        if k == "pow":
            a, n = self.expr("c", d - 1), s.pick([0, 1, 2, 3, 5, -1, -2, 4])

            def f(env, x):
                cut(x.v, True)
                return spread(lambda z: z ** n, x, 1e-13 * (1 + abs(x.v) ** n))
            return N("%s pow %s" % (self.w(a, 4), n if n >= 0 else "(%d)" % n), "c", [a], f, 3, "pow")
        if k == "power":
            a, b = self.expr("c", d - 1), self.expr(s.pick("rri"), d - 2)

            def f(env, x, y):
                cut(x.v, False)
                if abs(y.v) > 6:
                    raise Bad()
                p = spread(lambda z: cmath.exp(cmath.log(z) * y.v), x, 1e-12)
                q = spread(lambda e: cmath.exp(cmath.log(x.v) * e), y, 1e-12)
                return V(p.v, p.err + q.err + 1e-13 * abs(p.v), False)
            return N("%s ** %s" % (self.w(a, 4), self.w(b, 4)), "c", [a, b], f, 3, "**")
        fn = s.pick(["sqr", "sqrt", "exp", "ln", "sin", "cos", "arctan", "tan"])
        a = self.expr("c", d - 1)

        def f(env, x):
            z = x.v
            if fn == "sqr":
                return V(z * z, 2 * abs(z) * x.err + 4 * EPS * abs(z * z), x.exact and abs(z) < 100)
            if fn == "sqrt":
                cut(z, False)
                return spread(cmath.sqrt, x, 2e-8 * math.sqrt(abs(z)))
            if fn == "ln":
                cut(z, False)
                return spread(cmath.log, x)
            if fn == "arctan":
                if abs(z - 1j) < 0.1 or abs(z + 1j) < 0.1 or (abs(z.real) < 1e-3 and abs(z.imag) >= 0.99):
                    raise Bad()
                return spread(cmath.atan, x, 1e-14)
            if abs(z.imag) > 8 or abs(z.real) > 50 or (fn == "exp" and z.real > 8):
                raise Bad()
            if fn == "tan" and abs(cmath.cos(z)) < 0.05:
                raise Bad()
            return spread(getattr(cmath, fn), x, 1e-14)
        return N("%s(%s)" % (fn, a.src), "c", [a], f, op=fn)

    def arith(self, op, a, b, t):
        def f(env, x, y):
            e = x.exact and y.exact
            if op in "+-":
                v = x.v + y.v if op == "+" else x.v - y.v
                return V(v, x.err + y.err + EPS * abs(v), e and abs(v) < 1000)
            if op == "*":
                v = x.v * y.v
                return V(v, abs(x.v) * y.err + abs(y.v) * x.err + 4 * EPS * abs(x.v) * abs(y.v), e and abs(v) < 100)
            if abs(y.v) < 1e-2:
                raise Bad()
            v = x.v / y.v
            return V(v, (x.err + abs(v) * y.err) / abs(y.v) + 8 * EPS * abs(v), False)
        p = 1 if op in "+-" else 2
        return N("%s %s %s" % (self.w(a, p), op, self.w(b, p, True)), t, [a, b], f, p, op + ("" if a.t == b.t else "mixed"))

    def good(self, t, d, env):
        for _ in range(12):
            n = self.expr(t, d)
            try:
                return n, n.eval(env)
            except Bad:
                pass
        n = self.lit(t)
        return n, n.eval(env)


class CHECK(ProgCheck):
    id = "C29"
    rule = ("random straight-line programs over complex, real and integer variables, record fields, array elements, pointers and functions with complex parameters and results; "
            "expected values from Python's cmath with a running error bound, values too close to a pole, a branch cut or the bound are avoided; "
            "non-trivial: at least six different operations")
    quick, thorough = 2000, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0")]
    HOLD = ["c1", "c2", "c3", "r.z", "a[1]", "a[3]", "q^", "m[2, 1].z"]

    def gen(self, s):
        c = Case()
        g = Gen(s)
        env, body, out, ops, procs = {}, [], [], set(), []
        for j in range(s.n(3)):
            ps = [("p%d" % i, s.pick("ccr")) for i in range(1 + s.n(3))]
            saved, g.vars = g.vars, {"c": [p for p, t in ps if t == "c"], "r": [p for p, t in ps if t == "r"], "i": []}
            b = g.expr("c", 2)
            g.vars = saved
            n = "f%d" % j
            src = "function %s(%s): complex; " % (n, "; ".join("%s: %s" % (p, {"c": "complex", "r": "real"}[t]) for p, t in ps))
            procs.append(src + ("begin %s := %s end;" % (n, b.src) if s.bool() else "var t: complex; begin t := %s; %s := t end;" % (b.src, n)))
            g.funcs.append((n, ps, b))
            ops |= b.ops()
        for n in s.shuffle(self.HOLD)[:2 + s.n(5)]:
            x, v = g.good("c", 0, env)
            body.append("%s := %s;" % (n, x.src))
            env[n] = v
            g.vars["c"].append(n)
        for n in ["x", "y"]:
            x, v = g.good("r", 0, env)
            body.append("%s := %s;" % (n, x.src))
            env[n] = v
            g.vars["r"].append(n)
        v = s.n(10)
        body.append("i := %d;" % v)
        env["i"] = V(v)
        g.vars["i"].append("i")

        def show(fmt, vals):
            body.append(fmt)
            out.append(" ".join(vals) + "\n")
        f6 = lambda x: "%.6f" % x
        for _ in range(2 + s.n(14)):
            k = s.wpick([(6, "assign"), (2, "real"), (2, "cmp"), (1, "direct"), (1, "proc"), (1, "mixed"), (1, "copy")])
            if k == "real":
                n, v = g.good("r", 4, env)
                t = s.pick(["x", "y"])
                body.append("%s := %s;" % (t, n.src))
                env[t] = v
                show("writeln(%s:1:6);" % t, [f6(v.v)])
            elif k == "cmp":
                a, va = g.good("c", 2, env)
                b, vb = g.good(s.pick("cccri"), 2, env)
                if s.n(4) == 0 and a.t == b.t:
                    b, vb = a, va
                if not (va.exact and vb.exact) and abs(va.v - vb.v) < 1e-5 and not (a is b and not {"call"} & a.ops() and a.kids == []):
                    continue
                if s.bool() and b.t == "c":
                    a, va, b, vb = b, vb, a, va
                op = s.pick(["=", "<>"])
                eq = va.v == vb.v
                show("writeln(%s %s %s);" % (g.w(a, 2), op, g.w(b, 2)), ["TRUE" if eq == (op == "=") else "FALSE"])
                ops |= {op} | a.ops() | b.ops()
                continue
            elif k == "direct":
                n, v = g.good("c", 4, env)
                f = s.pick(["re", "im"])
                show("writeln(%s(%s):1:6);" % (f, n.src), [f6(v.v.real if f == "re" else v.v.imag)])
            elif k == "copy":
                # whole records and arrays are copied
                body.append(s.pick(["b := a; a := b;", "r2 := r; r := r2;", "m[1] := m[2]; m[2] := m[1];"]))
                continue
            else:
                t = s.pick(self.HOLD)
                n, v = g.good(s.pick("ri") if k == "mixed" else "c", 4, env)
                v = V(complex(v.v), v.err, v.exact)
                if k == "proc":
                    body.append("%s(%s, %s);" % (s.pick(["store", "keep"]), t, n.src))
                else:
                    body.append("%s := %s;" % (t, n.src))
                env[t] = v
                if t not in g.vars["c"]:
                    g.vars["c"].append(t)
                show("writeln(re(%s):1:6, ' ', im(%s):1:6);" % (t, t), [f6(v.v.real), f6(v.v.imag)])
            ops |= n.ops()
        for t in g.vars["c"]:
            show("writeln(re(%s):1:6, ' ', im(%s):1:6);" % (t, t), [f6(env[t].v.real), f6(env[t].v.imag)])
        c.text = "\n".join(["program p(output);", "type rz = record t: char; z: complex end;", "var c1, c2, c3: complex; r, r2: rz; a, b: array [1..3] of complex; q: ^complex;",
                            "  m: array [1..2] of array [1..2] of rz; x, y: real; i: integer;",
                            "procedure store(var d: complex; v: complex); begin d := v end;",
                            "procedure keep(var d: complex; v: complex); var t: complex; begin t := v; v := 0; d := t; t := v end;"] + procs + ["begin", "  new(q);"]
                           + ["  " + b for b in body] + ["end."]) + "\n"
        c.inp, c.expect, c.rc, c.steps, c.fuzzy = b"", "".join(out).encode(), 0, len(out), True
        c.opts = s.pick(self.optsets)
        c.ops = sorted(ops)
        return c

    def nontrivial(self, c):
        return len(c.ops) >= 6

    def features(self, c):
        return c.ops
