"""Variables, types, fields and components with initial values; structured constants."""
from ..progcheck import Case, ProgCheck

ENUM = ["aa", "bb", "cc", "dd", "ee"]


class Ty:
    default = None

    def __init__(self, name):
        self.name = name

    def leaves(self, path, v):
        if v is not None:
            yield path, self.show(path), self.text(v)

    def change(self, s, path):
        return "%s := %s" % (path, self.lit(self.value(s)))

    def init(self, s, v):
        return self.lit(v)

    def base(self):
        return None


class Int(Ty):
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi

    def value(self, s):
        return s.pick([self.lo, self.hi, self.lo + s.n(self.hi - self.lo + 1), min(max(0, self.lo), self.hi)])

    def lit(self, v):
        return str(v)

    def init(self, s, v):
        k = s.n(6)
        if k == 0:
            return "%d + %d" % (v - 3, 3) if abs(v) < 10 ** 9 else str(v)
        if k == 1 and v == 7:
            return "seven"
        if k == 2 and v == -7:
            return "-seven"
        return str(v)

    def show(self, p):
        return p

    def text(self, v):
        return str(v)


class Real(Ty):
    def value(self, s):
        return s.pick([0.0, 1.5, -2.25, 1e10, 0.001, 42.0, s.n(10 ** 6) / 64])

    def lit(self, v):
        return repr(v).replace("e+", "e")

    def init(self, s, v):
        return str(int(v)) if v.is_integer() and abs(v) < 1e9 and s.bool() else self.lit(v)

    def show(self, p):
        return p + ":24"

    def text(self, v):
        return ("% .17E" % v).rjust(24)


class Char(Ty):
    def value(self, s):
        return s.pick([65, 90, 97, 32, 48, 0, 128, 255, 33 + s.n(6)])

    def lit(self, v):
        return "'%c'" % v if 32 <= v < 127 and v != 39 else "chr(%d)" % v

    def show(self, p):
        return "ord(%s)" % p

    def text(self, v):
        return str(v)


class Named(Ty):
    def __init__(self, name, names):
        self.name, self.names = name, names

    def value(self, s):
        return s.n(len(self.names))

    def lit(self, v):
        return self.names[v]

    def show(self, p):
        return p

    def text(self, v):
        return self.names[v] if self.names is ENUM else self.names[v].upper()


class Str(Ty):
    def __init__(self, name, cap):
        self.name, self.cap = name, cap

    def value(self, s):
        return "".join(s.pick("abcXYZ 019") for _ in range(s.pick([0, 1, s.n(self.cap + 1), self.cap])))

    def lit(self, v):
        return "'%s'" % v

    def show(self, p):
        return "length(%s), '[', %s, ']'" % (p, p)

    def text(self, v):
        return "%d[%s]" % (len(v), v)


class Chars(Ty):
    def __init__(self, name, n):
        self.name, self.n = name, n

    def value(self, s):
        return "".join(s.pick("abcXYZ019") for _ in range(1 + s.n(self.n)))

    def lit(self, v):
        return "'%s'" % v.ljust(self.n)

    def init(self, s, v):
        return "'%s'" % v

    def show(self, p):
        return "'[', %s, ']'" % p

    def text(self, v):
        return "[%s]" % v.ljust(self.n)


class Set(Ty):
    def __init__(self, name, hi, names=None):
        self.name, self.hi, self.names = name, hi, names

    def value(self, s):
        v = set(s.n(self.hi + 1) for _ in range(s.n(4)))
        if s.n(3) == 0:
            a = s.n(self.hi + 1)
            v |= set(range(a, min(self.hi, a + s.n(40)) + 1))
        return frozenset(v)

    def m(self, x):
        return self.names[x] if self.names else str(x)

    def lit(self, v):
        out, xs = [], sorted(v)
        while xs:
            n = 1
            while n < len(xs) and xs[n] == xs[0] + n:
                n += 1
            out.append(self.m(xs[0]) if n == 1 else "%s..%s" % (self.m(xs[0]), self.m(xs[n - 1])))
            xs = xs[n:]
        return "[%s]" % ", ".join(out)

    def probe(self):
        return sorted({0, self.hi, self.hi // 2, min(31, self.hi), min(32, self.hi)})

    def show(self, p):
        return "card(%s), ' ', %s" % (p, ", ".join("%s in %s" % (self.m(x), p) for x in self.probe()))

    def text(self, v):
        return "%d %s" % (len(v), "".join(("FALSE", "TRUE")[x in v] for x in self.probe()))


class Ptr(Ty):
    def value(self, s):
        return "nil"

    def lit(self, v):
        return "nil"

    def show(self, p):
        return p + " = nil"

    def text(self, v):
        return "TRUE"

    def change(self, s, path):
        return "new(%s)" % path


def complete(v):
    """Nothing in the value is undefined."""
    if isinstance(v, list):
        return all(complete(x) for x in v)
    return v is not None


class Arr(Ty):
    def __init__(self, name, idx, elem):
        """idx: index sources"""
        self.name, self.idx, self.elem = name, idx, elem

    def value(self, s):
        if complete(self.elem.default) and s.n(3) == 0:
            return [self.elem.default] * len(self.idx)
        pool = [self.elem.value(s) for _ in range(1 + s.n(3))]
        if s.n(4) == 0:
            return [self.elem.value(s) for _ in self.idx] if len(self.idx) < 20 else [s.pick(pool) for _ in self.idx]
        out = []
        while len(out) < len(self.idx):
            out += [s.pick(pool)] * (1 + s.n(len(self.idx)))
        return out[:len(self.idx)]

    def init(self, s, v):
        common = max(v, key=v.count) if s.bool() else None
        parts, i = [], 0
        order = []
        while i < len(v):
            j = i
            if common is not None and v[i] == common:
                i += 1
                continue
            while j + 1 < len(v) and v[j + 1] == v[i] and s.n(5):
                j += 1
            order.append((i, j))
            i = j + 1
        if s.n(3) == 0:
            order = s.shuffle(order)
        for i, j in order:
            k = self.idx[i] if i == j and s.n(4) else "%s..%s" % (self.idx[i], self.idx[j])
            parts.append("%s: %s" % (k, self.elem.init(s, v[i])))
        t = s.pick(["; ", ", "]).join(parts)
        if common is not None:
            t += " otherwise " + self.elem.init(s, common)
        return "[%s]" % t

    def leaves(self, path, v):
        if v is None:
            return
        for i, x in zip(self.idx, v):
            yield from self.elem.leaves("%s[%s]" % (path, i), x)

    def change(self, s, path):
        return self.elem.change(s, "%s[%s]" % (path, s.pick(self.idx)))


class Rec(Ty):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def value(self, s):
        return [t.value(s) for _, t in self.fields]

    def init(self, s, v):
        order = s.shuffle(list(range(len(v)))) if s.n(3) == 0 else list(range(len(v)))
        parts = []
        while order:
            i = order.pop(0)
            d = self.fields[i][1].default
            if (parts or order) and complete(d) and v[i] == d and s.n(3):
                continue  # left out: it has the value its type says
            names, t = [self.fields[i][0]], self.fields[i][1]
            while order and self.fields[order[0]][1] is t and v[order[0]] == v[i] and s.bool():
                names.append(self.fields[order.pop(0)][0])
            parts.append("%s: %s" % (", ".join(names), t.init(s, v[i])))
        return "[%s]" % "; ".join(parts)

    def leaves(self, path, v):
        if v is None:
            return
        for (n, t), x in zip(self.fields, v):
            yield from t.leaves("%s.%s" % (path, n), x)

    def change(self, s, path):
        n, t = s.pick(self.fields)
        return t.change(s, path + "." + n)


class Gen:
    def __init__(self, s):
        self.s, self.decl, self.types, self.n, self.ops = s, [], [], 0, set()
        self.scalars = [Int("integer", -2 ** 31 + 1, 2 ** 31 - 1), Int("longint", -2 ** 62, 2 ** 62), Real("real"), Char("char"), Named("boolean", ["false", "true"]), Named("en", ENUM)]

    def name(self):
        self.n += 1
        return "t%d" % self.n

    def any(self):
        s = self.s
        return s.pick(self.types) if self.types and s.n(4) else s.pick(self.scalars)

    def make(self):
        s = self.s
        n = self.name()
        k = s.wpick([(2, "sub"), (2, "str"), (2, "chars"), (2, "set"), (1, "ptr"), (6, "arr"), (6, "rec"), (1, "alias"), (1, "arr2")])
        self.ops.add(k)
        if k == "sub":
            lo = s.pick([0, 1, -5, -1000, -8])
            t = Int(n, lo, lo + s.pick([0, 3, 15, 300, 70000]))
            d = "%d..%d" % (t.lo, t.hi)
        elif k == "str":
            t = Str(n, s.pick([1, 2, 7, 30, 100, 255]))
            d = "string[%d]" % t.cap
        elif k == "chars":
            t = Chars(n, s.pick([1, 2, 3, 10, 64]))
            d = "packed array [1..%d] of char" % t.n
            if t.n == 1:
                t, d = Char(n), "char"
        elif k == "set":
            t = Set(n, 4, ENUM) if s.n(3) == 0 else Set(n, s.pick([5, 31, 32, 63, 100, 255]))
            d = "set of en" if t.names else "set of 0..%d" % t.hi
        elif k == "ptr":
            t, d = Ptr(n), s.pick(["^integer", "^real", "^en"])
        elif k in ("arr", "arr2"):
            ix, isrc = self.index()
            e = self.any()
            if k == "arr2":
                # two dimensions at once
                jx, jsrc = self.index()
                if len(ix) * len(jx) > 150:
                    jx, jsrc = ["1", "2"], "1..2"
                inner = Arr(None, jx, e)
                t = Arr(n, ix, inner)
                d = "array [%s, %s] of %s" % (isrc, jsrc, e.name)
                if e.default is not None:
                    inner.default = [e.default] * len(jx)
                    t.default = [inner.default] * len(ix)
            else:
                t = Arr(n, ix, e)
                d = "array [%s] of %s" % (isrc, e.name)
                if e.default is not None:
                    t.default = [e.default] * len(ix)
        elif k == "alias":
            t0 = self.any()
            t = object.__new__(type(t0))
            t.__dict__.update(t0.__dict__)
            t.name = n
            d = t0.name
        else:
            fs, txt = [], []
            for i in range(1 + s.n(4)):
                ft = self.any()
                names = ["f%d" % (len(fs) + 1)]
                if s.n(3) == 0:
                    names.append("f%d" % (len(fs) + 2))
                src = "%s: %s" % (", ".join(names), ft.name)
                if s.n(3) == 0:
                    # a field with a value of its own
                    self.ops.add("fieldvalue")
                    v = ft.value(s)
                    src += " value " + ft.init(s, v)
                    f2 = object.__new__(type(ft))
                    f2.__dict__.update(ft.__dict__)
                    f2.default = v
                    ft = f2
                for x in names:
                    fs.append((x, ft))
                txt.append(src)
            t = Rec(n, fs)
            d = "record %s end" % "; ".join(txt)
            if any(f.default is not None for _, f in fs):
                t.default = [f.default for _, f in fs]
        if sum(1 for _ in t.leaves("x", t.value(s))) > 400:
            return
        if s.n(3) == 0:
            v = t.value(s)
            self.ops.add("typevalue")
            if isinstance(t, (Arr, Rec)) and k not in ("arr2", "rec", "arr") and s.bool():
                d += t.init(s, v)
            else:
                d += " value " + t.init(s, v)
            t.default = v
        self.decl.append("  %s = %s;" % (n, d))
        self.types.append(t)

    def index(self):
        s = self.s
        k = s.n(5)
        if k == 0:
            return ENUM, "en"
        if k == 1:
            return ["false", "true"], "boolean"
        if k == 2:
            return ["'%s'" % x for x in "bcdef"], "'b'..'f'"
        lo = s.pick([0, 1, -2, 100])
        hi = lo + s.pick([0, 1, 2, 4, 9, 33])
        return [str(x) for x in range(lo, hi + 1)], "%d..%d" % (lo, hi)


class CHECK(ProgCheck):
    id = "C27"
    rule = ("random declarations of initial values on types, fields, variables and structured constants of nested types (ranges, otherwise, several names at once), global, local, "
            "nested and recursive; every component is printed on entry to its block, then changed, and printed again on the next activation; "
            "non-trivial: at least 12 components printed and a structured type")
    quick, thorough = 2000, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0"), ("-Cr",)]

    def gen(self, s):
        c = Case()
        g = Gen(s)
        for _ in range(1 + s.n(9)):
            g.make()
        consts, clist = [], []
        for j in range(s.n(3)):
            ts = [t for t in g.types if isinstance(t, (Arr, Rec))]
            if ts:
                t = s.pick(ts)
                v = t.value(s)
                clist.append(("k%d" % j, t, v))
                consts.append("  k%d = %s%s;" % (j, t.name, t.init(s, v)))
                g.ops.add("const")
        steps = [0]

        def variables(pre, n):
            """-> (declarations, [(name, type, value)])"""
            ds, vs = [], []
            for j in range(n):
                t = g.any()
                names = ["%s%d" % (pre, j)] + (["%s%dx" % (pre, j)] if s.n(3) == 0 else [])
                src = "%s: %s" % (", ".join(names), t.name)
                v = t.default
                same = [k for k in clist if k[1] is t]
                if same and s.bool():
                    src += " value " + same[0][0]
                    v = same[0][2]
                    g.ops.add("byconst")
                elif s.n(3) or v is None:
                    v = t.value(s)
                    src += " value " + t.init(s, v)
                    g.ops.add("varvalue")
                else:
                    g.ops.add("inherited")
                ds.append("  %s;" % src)
                vs += [(x, t, v) for x in names]
            return ds, vs

        def show(vs):
            src, out = [], []
            for n, t, v in vs:
                ls = list(t.leaves(n, v))
                if len(ls) > 40:
                    ls = [ls[0], ls[-1]] + [s.pick(ls) for _ in range(20)]
                for i in range(0, len(ls), 4):
                    part = ls[i:i + 4]
                    src.append("writeln(%s);" % ", ' ', ".join(x[1] for x in part))
                    out.append(" ".join(x[2] for x in part) + "\n")
                    steps[0] += len(part)
            return src, out

        def change(vs):
            return [t.change(s, n) + ";" for n, t, _ in vs for _ in range(1 + s.n(2))]
        gd, gv = variables("g", 1 + s.n(4))
        out, procs, main = [], [], []
        src, o = show(gv)
        main += src
        out += o
        for n, t, v in clist:
            src, o = show([(n, t, v)])
            main += src
            out += o
            if s.bool():
                gd.append("  h%s: %s;" % (n, t.name))
                src, o = show([("h" + n, t, v)])
                main += ["h%s := %s;" % (n, n)] + src
                out += o
        main += change(gv)
        for j in range(s.n(3)):
            ld, lv = variables("l", 1 + s.n(3))
            src, o = show(lv)
            kind = s.pick(["plain", "twice", "rec", "nested", "func"])
            g.ops.add(kind)
            b = src + change(lv)
            if kind == "nested":
                procs.append("procedure p%d;\n  procedure q;\n  var\n%s\n  begin\n    %s\n  end;\nbegin q; q end;" % (j, "\n".join(ld), "\n    ".join(b)))
                main.append("p%d;" % j)
                out += o * 2
            elif kind == "rec":
                procs.append("procedure p%d(n: integer);\nvar\n%s\nbegin\n  %s\n  if n > 0 then p%d(n - 1)\nend;" % (j, "\n".join(ld), "\n  ".join(b), j))
                d = 1 + s.n(3)
                main.append("p%d(%d);" % (j, d))
                out += o * (d + 1)
            elif kind == "func":
                procs.append("function p%d: integer;\nvar\n%s\nbegin\n  %s\n  p%d := 1\nend;" % (j, "\n".join(ld), "\n  ".join(b), j))
                main.append("if p%d + p%d <> 2 then writeln('BAD');" % (j, j))
                out += o * 2
            else:
                procs.append("procedure p%d;\nvar\n%s\nbegin\n  %s\nend;" % (j, "\n".join(ld), "\n  ".join(b)))
                m = 2 if kind == "twice" else 1
                main.append("p%d;" % j if m == 1 else "for loop := 1 to 2 do p%d;" % j)
                out += o * m
        t = ["program p(output);", "const seven = 7;", "type", "  en = (%s);" % ", ".join(ENUM)] + g.decl
        if consts:
            t += ["const"] + consts
        t += ["var", "  loop: integer;"] + gd + procs + ["begin"] + ["  " + m for m in main] + ["end."]
        c.text = "\n".join(t) + "\n"
        c.inp, c.expect, c.rc, c.steps, c.fuzzy = b"", "".join(out).encode("latin1"), 0, steps[0], False
        c.opts = s.pick(self.optsets)
        c.ops = sorted(g.ops)
        return c

    def nontrivial(self, c):
        return c.steps >= 12 and {"arr", "rec", "arr2"} & set(c.ops)

    def features(self, c):
        return c.ops
