"""Array accesses with and without an index that is out of range, under -Cr."""
from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare, diff

COLORS = ["red", "green", "blue", "white", "black"]


class Idx:
    """an index type: kind, bounds as ordinal numbers"""

    def __init__(self, s):
        self.kind = s.wpick([(5, "int"), (2, "char"), (2, "enum"), (1, "bool"), (1, "long"), (1, "anychar")])
        k = self.kind
        if k == "int":
            self.lo = s.pick([0, 1, -3, 5, 100, -200, 2147483640, -2147483647])
            self.hi = self.lo + s.n(8)
        elif k == "char":
            self.lo = s.pick([48, 65, 97, 33])
            self.hi = self.lo + s.n(9)
        elif k == "anychar":
            self.lo, self.hi = 0, 255
        elif k == "enum":
            self.lo = s.n(4)
            self.hi = self.lo + s.n(5 - self.lo)
        elif k == "bool":
            self.lo, self.hi = 0, 1
        else:
            self.lo = s.pick([5000000000, -5000000000, 4294967295, -1])
            self.hi = self.lo + s.n(6) + (4294967296 if self.lo == -1 and False else 0)
            if self.lo == -1:
                self.lo = 4294967290
                self.hi = 4294967290 + s.n(12)

    def lit(self, v):
        k = self.kind
        if k in ("int", "long"):
            return str(v)
        if k in ("char", "anychar"):
            return "'%c'" % v if 32 < v < 127 and v != 39 else "chr(%d)" % v
        return COLORS[v] if k == "enum" else ("false", "true")[v]

    def decl(self):
        if self.kind == "anychar":
            return "char"
        if self.kind == "bool":
            return "boolean"
        if self.kind == "enum" and (self.lo, self.hi) == (0, 4):
            return "color"
        return "%s..%s" % (self.lit(self.lo), self.lit(self.hi))

    def var(self):
        """the type of a variable that can hold values outside the range"""
        return {"int": "integer", "char": "char", "anychar": "char", "enum": "color", "bool": "boolean", "long": "longint"}[self.kind]

    def all(self):
        return {"int": (-2**31 + 1, 2**31 - 1), "char": (0, 255), "anychar": (0, 255), "enum": (0, 4), "bool": (0, 1),
                "long": (-2**63 + 1, 2**63 - 1)}[self.kind]

    def inside(self, s):
        return s.pick([self.lo, self.hi, self.lo + s.n(self.hi - self.lo + 1)])

    def outside(self, s):
        a, b = self.all()
        c = [self.hi + 1, self.lo - 1, self.hi + 2 + s.n(40), self.lo - 2 - s.n(40)]
        if self.kind in ("int", "long"):
            c += [a, b, 0]
        if self.kind == "long":
            c += [self.lo + 4294967296, self.lo - 4294967296, self.lo & 0x7fffffff]
        c = [x for x in c if a <= x <= b and not self.lo <= x <= self.hi]
        return s.pick(c) if c else None


class Gen:
    def __init__(self, s):
        self.s = s
        self.arrs = []
        for k in range(1 + s.n(4)):
            dims = [Idx(s)]
            while len(dims) < 3 and s.bool(1, 3) and dims[0].kind != "anychar":
                d = Idx(s)
                if d.kind != "anychar":
                    dims.append(d)
            self.arrs.append((k, dims, s.pick(["integer", "char", "boolean"]), s.pick(["var", "rec", "ptr", "arr", "var"])))
        self.val = {}
        self.out = []
        self.lines = []
        self.err = None
        self.bad_at = None

    def e(self, ind, t):
        self.lines.append("  " * ind + t)

    def lit(self, t, v):
        return str(v) if t == "integer" else "'%s'" % v if t == "char" else "true" if v else "false"

    def value(self, t):
        s = self.s
        return s.n(1000) - 500 if t == "integer" else s.pick("abcxyz") if t == "char" else bool(s.n(2))

    def name(self, a):
        k, dims, t, where = a
        return {"var": "a%d", "rec": "q.a%d", "ptr": "p%d^", "arr": "w[2].a%d"}[where] % k

    def access(self, a, bad):
        """-> source of an access with index variables set by a statement before it, and the indexes"""
        s = self.s
        k, dims, t, where = a
        ix = [d.inside(s) for d in dims]
        wrong = None
        if bad:
            j = s.n(len(dims))
            v = dims[j].outside(s)
            if v is not None:
                ix[j] = v
                wrong = (dims[j], v)
        parts = []
        for j, d in enumerate(dims):
            v = ix[j]
            form = s.n(6)
            inside = d.lo <= v <= d.hi
            lo, hi = d.all()
            if form == 0 and inside:
                parts.append(d.lit(v))
            elif form == 1 and lo < v and d.kind in ("int", "long", "char", "enum"):
                parts.append("succ(x%d%d)" % (k, j))
                v -= 1
            elif form == 2 and d.kind in ("int", "long"):
                n = s.n(9) if v < 0 else -s.n(9)
                if lo <= v + n <= hi:
                    parts.append("x%d%d %s %d" % (k, j, "-" if n >= 0 else "+", abs(n)))
                    v += n
                else:
                    parts.append("x%d%d" % (k, j))
            elif form == 3:
                parts.append("id%s(x%d%d)" % (d.var(), k, j))
            else:
                parts.append("x%d%d" % (k, j))
            self.e(1, "x%d%d := %s;" % (k, j, d.lit(v)))
        if len(parts) > 1 and s.bool():
            src = self.name(a) + "".join("[%s]" % p for p in parts)
        else:
            src = self.name(a) + "[" + ", ".join(parts) + "]"
        return src, tuple(ix), wrong

    def step(self, bad):
        s = self.s
        a = s.pick(self.arrs)
        k, dims, t, where = a
        if not bad and s.n(6) == 0 and len(dims) == 1 and dims[0].kind != "anychar":
            d = dims[0]
            v = self.value(t)
            self.e(1, "for x%d0 := %s to %s do" % (k, d.lit(d.lo), d.lit(d.hi)) if d.kind != "long" else
                   "x%d0 := %d; while x%d0 <= %d do begin" % (k, d.lo, k, d.hi))
            self.e(2, "%s[x%d0] := %s%s" % (self.name(a), k, self.lit(t, v),
                                            ";" if d.kind != "long" else "; x%d0 := x%d0 + 1 end;" % (k, k)))
            for i in range(d.lo, d.hi + 1):
                self.val[k, (i,)] = v
            return
        src, ix, wrong = self.access(a, bad)
        self.err = wrong
        key = (k, ix)
        form = s.n(5)
        if len(dims) == 1 and dims[0].kind != "long" and where == "var" and form == 4:
            # through a conformant parameter
            i = src[src.index("[") + 1:-1]
            if s.bool() or wrong or key not in self.val:
                v = self.value(t)
                self.e(1, "put%d(a%d, %s, %s);" % (k, k, i, self.lit(t, v)))
                self.bad_line = ("put", k)
                if not wrong:
                    self.val[key] = v
            else:
                self.e(1, "get%d(a%d, %s);" % (k, k, i))
                self.show(t, self.val[key])
            return
        self.bad_line = len(self.lines)
        if form == 0 or not wrong and key not in self.val:
            v = self.value(t)
            self.e(1, "%s := %s;" % (src, self.lit(t, v)))
            if not wrong:
                self.val[key] = v
        elif form == 1:
            self.e(1, "set%s(%s);" % (t, src))
            if not wrong:
                self.val[key] = {"integer": 77, "char": "V", "boolean": True}[t]
        elif form == 2:
            self.e(1, "if %s = %s then writeln('same') else writeln('differs');" % (src, self.lit(t, self.val.get(key, self.value(t)))))
            if not wrong:
                self.out.append("same\n")
        else:
            self.e(1, "writeln(%s);" % src)
            if not wrong:
                self.show(t, self.val[key])

    def show(self, t, v):
        self.out.append(("TRUE" if v is True else "FALSE" if v is False else str(v)) + "\n")

    def program(self):
        s = self.s
        steps = 3 + s.n(30)
        bad = s.n(steps) if s.bool(2, 3) else -1
        for i in range(steps):
            self.err = None
            self.step(i == bad)
            if self.err:
                self.e(1, "writeln('not reached');")
                break
            if s.n(8) == 0:
                self.e(1, "writeln('step %d');" % i)
                self.out.append("step %d\n" % i)
        h = ["program p(input, output);", "type", "  color = (red, green, blue, white, black);"]
        for k, dims, t, where in self.arrs:
            h.append("  t%d = array [%s] of %s;" % (k, ", ".join(d.decl() for d in dims), t))
        for k, a in enumerate(self.arrs):
            if a[3] == "ptr":
                h.append("  tp%d = ^t%d;" % (k, k))
        for w in ("rec", "arr"):
            f = ["a%d: t%d" % (a[0], a[0]) for a in self.arrs if a[3] == w]
            if f:
                h.append("  r%s = record n: char; %s; z: integer end;" % (w, "; ".join(f)))
        h.append("var")
        for k, dims, t, where in self.arrs:
            if where in ("var", "ptr"):
                h.append("  %s: t%d;" % ("a%d" % k, k) if where == "var" else "  p%d: tp%d;" % (k, k))
            for j, d in enumerate(dims):
                h.append("  x%d%d: %s;" % (k, j, d.var()))
        if any(a[3] == "rec" for a in self.arrs):
            h.append("  q: rrec;")
        if any(a[3] == "arr" for a in self.arrs):
            h.append("  w: array [1..3] of rarr;")
        for t in ("integer", "char", "color", "boolean", "longint"):
            h.append("function id%s(x: %s): %s; begin id%s := x end;" % (t, t, t, t))
        for t, v in (("integer", "77"), ("char", "'V'"), ("boolean", "true")):
            h.append("procedure set%s(var x: %s); begin x := %s end;" % (t, t, v))
        at = {}
        for k, dims, t, where in self.arrs:
            if len(dims) == 1 and dims[0].kind != "long" and where == "var":
                it = dims[0].var()
                h.append("procedure put%d(var z: array [l..h: %s] of %s; i: %s; v: %s);" % (k, it, t, it, t))
                h.append("begin z[i] := v end;")
                at["put", k] = len(h)
                h.append("procedure get%d(var z: array [l..h: %s] of %s; i: %s);" % (k, it, t, it))
                h.append("begin writeln(z[i]) end;")
                at["get", k] = len(h)
        h.append("begin")
        for a in self.arrs:
            if a[3] == "ptr":
                h.append("  new(p%d);" % a[0])
        if self.err:
            self.line = at[self.bad_line] if isinstance(self.bad_line, tuple) else len(h) + self.bad_line + 1
        return "\n".join(h + self.lines + ["end."]) + "\n"


class CHECK(ProgCheck):
    id = "C17"
    rule = ("programs of array accesses over random index types, dimensions and access forms, two thirds of them with one access out of "
            "range; a bounds model predicts the output, the message and the exit status; non-trivial: an out-of-range access, "
            "or at least 8 lines of output")
    quick, thorough = 2000, 50000
    optsets = [("-Cr",), ("-Cr", "-O0"), ("-Cr", "-O2"), ("-Cr", "-m32"), ("-Cr", "-g"), ()]

    def gen(self, src):
        c = Case()
        c.opts = src.pick(self.optsets)
        g = Gen(src)
        c.text = g.program()
        if g.err and "-Cr" not in c.opts:
            c.opts = ("-Cr",)
        c.inp, c.fuzzy, c.rc = b"", False, 12 if g.err else 0
        c.expect = "".join(g.out).encode()
        c.msg = b""
        if g.err:
            d, v = g.err
            c.msg = b"p.pas:%d: Out of range [expected: %d..%d, got %d]\n" % (g.line, d.lo, d.hi, v)
        return c

    def nontrivial(self, c):
        return bool(c.msg) or c.expect.count(b"\n") >= 8

    def judge(self, c, wd, tool):
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)
        if x.err != c.msg:
            raise Fail("wrong message", diff(c.msg, x.err))

    def features(self, c):
        return ["out of range" if c.msg else "in range"]
