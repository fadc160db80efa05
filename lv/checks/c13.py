"""Histories of sequential and direct access on typed files."""
import os
import struct

from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare

ENUM = ["aa", "bb", "cc", "dd", "ee"]


def char_src(v):
    return "'%c'" % v if 48 <= v < 58 or 65 <= v < 91 or 97 <= v < 123 else "chr(%d)" % v


class Typ:
    """name, declaration; value(s) -> a value; assign(var, value) -> statements; show(var) -> argument of write; text(value)"""

    def __init__(self, name, decl, lit=None):
        self.name, self.decl = name, decl
        if lit:
            self.lit = lit

    def assign(self, var, v):
        return "%s := %s" % (var, self.lit(v))

    def show(self, var):
        return var

    def parts(self):
        return []


class Int(Typ):
    def __init__(self, name, decl, vals, fmt=None, convertible=None):
        super().__init__(name, decl, str)
        self.vals, self.fmt, self.convertible = vals, fmt, convertible

    def value(self, s):
        return self.vals(s)

    def text(self, v):
        return str(v)

    def bytes(self, v):
        return struct.pack(self.fmt, v) if self.fmt else None


class Real(Typ):
    def value(self, s):
        return s.pick([0.0, 1.5, -2.25, 1e100, 12345.678, s.n(10 ** 6) / 64 - 5000])

    def lit(self, v):
        return repr(v).replace("e+", "e")

    def show(self, var):
        return var + ":24"

    def text(self, v):
        return ("% .17E" % v).rjust(24)

    def bytes(self, v):
        return struct.pack("<d", v)


class Named(Typ):
    def __init__(self, name, decl, names, fmt):
        super().__init__(name, decl)
        self.names, self.fmt = names, fmt

    def value(self, s):
        return s.n(len(self.names))

    def lit(self, v):
        return self.names[v]

    def text(self, v):
        return self.names[v] if self.names is ENUM else self.names[v].upper()

    def bytes(self, v):
        return struct.pack(self.fmt, v)


class Char(Typ):
    def value(self, s):
        return s.pick([0, 10, 32, 65, 97, 127, 128, 255, 26, s.n(256)])

    def lit(self, v):
        return char_src(v)

    def show(self, var):
        return "ord(%s)" % var

    def text(self, v):
        return str(v)

    def bytes(self, v):
        return bytes([v])


class Str(Typ):
    def __init__(self, name, cap):
        super().__init__(name, "string[%d]" % cap)
        self.cap = cap

    def value(self, s):
        return "".join(s.pick("abcxyz 019") for _ in range(s.n(self.cap + 1)))

    def lit(self, v):
        return "'%s'" % v

    def show(self, var):
        return "length(%s), '[', %s, ']'" % (var, var)

    def text(self, v):
        return "%d[%s]" % (len(v), v)

    def bytes(self, v):
        return None


class Set(Typ):
    def __init__(self, name, lo, hi):
        super().__init__(name, "set of %d..%d" % (lo, hi))
        self.lo, self.hi = lo, hi

    def value(self, s):
        return frozenset(s.pick([self.lo, self.hi, self.lo + s.n(self.hi - self.lo + 1)]) for _ in range(s.n(6)))

    def lit(self, v):
        return "[%s]" % ", ".join(str(x) for x in sorted(v))

    def show(self, var):
        return "card(%s), ' ', %s" % (var, ", ".join("%d in %s" % (x, var) for x in (self.lo, (self.lo + self.hi) // 2, self.hi)))

    def text(self, v):
        return "%d %s" % (len(v), "".join(("FALSE", "TRUE")[x in v] for x in (self.lo, (self.lo + self.hi) // 2, self.hi)))

    def bytes(self, v):
        return None


class Arr(Typ):
    def __init__(self, name, lo, hi, elem):
        super().__init__(name, "array [%d..%d] of %s" % (lo, hi, elem.name))
        self.lo, self.hi, self.elem = lo, hi, elem

    def value(self, s):
        return [self.elem.value(s) for _ in range(self.hi - self.lo + 1)]

    def assign(self, var, v):
        return "; ".join(self.elem.assign("%s[%d]" % (var, self.lo + i), x) for i, x in enumerate(v))

    def show(self, var):
        return ", ',', ".join(self.elem.show("%s[%d]" % (var, i)) for i in range(self.lo, self.hi + 1))

    def text(self, v):
        return ",".join(self.elem.text(x) for x in v)

    def bytes(self, v):
        b = [self.elem.bytes(x) for x in v]
        return None if None in b else b"".join(b)

    def parts(self):
        return [("[%d]" % (self.lo + i), i, self.elem) for i in range(self.hi - self.lo + 1)]


class Big(Typ):
    """an array too large to be spelled out: filled by a loop, shown as a checksum"""

    def __init__(self, name, n, elem, m):
        super().__init__(name, "array [1..%d] of %s" % (n, elem))
        self.n, self.elem, self.m = n, elem, m
        self.func = "function sum%s(x: %s): longint; var i: integer; t: longint; begin t := 1; for i := 1 to %d do t := (t * 31 + %s) mod 1000003; sum%s := t end;" % (
            name, name, n, "ord(x[i])" if elem == "char" else "x[i]", name)

    def value(self, s):
        return (s.n(1000), s.pick([0, 1, 7, 100]))

    def assign(self, var, v):
        e = "(j * %d + %d) mod %d" % (v[1], v[0], self.m)
        return "for j := 1 to %d do %s[j] := %s" % (self.n, var, "chr(%s)" % e if self.elem == "char" else e)

    def items(self, v):
        return [(j * v[1] + v[0]) % self.m for j in range(1, self.n + 1)]

    def show(self, var):
        return "sum%s(%s)" % (self.name, var)

    def text(self, v):
        t = 1
        for x in self.items(v):
            t = (t * 31 + x) % 1000003
        return str(t)

    def bytes(self, v):
        return struct.pack("<%d%s" % (self.n, {"char": "B", "integer": "i", "longint": "q"}[self.elem]), *self.items(v))


class Rec(Typ):
    def __init__(self, name, fields):
        super().__init__(name, "record %s end" % "; ".join("%s: %s" % (n, t.name) for n, t in fields))
        self.fields = fields

    def value(self, s):
        return [t.value(s) for _, t in self.fields]

    def assign(self, var, v):
        return "; ".join(t.assign("%s.%s" % (var, n), x) for (n, t), x in zip(self.fields, v))

    def show(self, var):
        return ", '/', ".join(t.show("%s.%s" % (var, n)) for n, t in self.fields)

    def text(self, v):
        return "/".join(t.text(x) for (_, t), x in zip(self.fields, v))

    def bytes(self, v):
        return None

    def parts(self):
        return [("." + n, i, t) for i, (n, t) in enumerate(self.fields)]


INT = Int("integer", None, lambda s: s.pick([0, 1, -1, 255, 256, 2147483647, -2147483647, s.n(10 ** 6) - 500000]), "<i")
LONG = Int("longint", None, lambda s: s.pick([0, -1, 2 ** 32, -2 ** 40, 2 ** 63 - 1, s.n(2 ** 60)]), "<q")


def make_type(s, decls, depth=0):
    k = s.wpick([(3, "int"), (2, "long"), (2, "real"), (2, "bool"), (2, "char"), (2, "enum"), (2, "sub"), (2, "str"), (2, "set")]
                + ([(5, "rec"), (3, "arr")] if depth < 2 else []) + ([(2, "big")] if depth == 0 else []))
    if k == "int":
        return INT
    if k == "long":
        return LONG
    if k == "real":
        return Real("real", None)
    if k == "bool":
        return Named("boolean", None, ["false", "true"], "<B")
    if k == "char":
        return Char("char", None)
    n = "ty%d" % (len(decls) + 1)
    if k == "enum":
        t = Named("en", None, ENUM, "<i")
        return t
    if k == "sub":
        lo = s.pick([0, 1, -5, -1000])
        hi = lo + s.pick([3, 100, 300, 70000])
        t = Int(n, "%d..%d" % (lo, hi), lambda s: s.pick([lo, hi, lo + s.n(hi - lo + 1)]), "<i")
    elif k == "str":
        t = Str(n, s.pick([1, 7, 30, 255]))
    elif k == "set":
        lo = s.pick([0, 0, 1, 30])
        t = Set(n, lo, lo + s.pick([5, 31, 32, 100, 200]))
    elif k == "big":
        elem, m = s.pick([("char", 256), ("integer", 1000), ("longint", 1000)])
        t = Big(n, max(2, s.pick([64, 128, 256, 512, 1024, 4096]) // s.pick([1, 1, 4, 8]) + s.pick([0, 0, -1, 1])), elem, m)
    elif k == "arr":
        lo = s.pick([0, 1, -2])
        e = make_type(s, decls, depth + 1)
        n = "ty%d" % (len(decls) + 1)
        t = Arr(n, lo, lo + s.n(5), e)
    else:
        fs = []
        for i in range(1 + s.n(4)):
            fs.append(("f%d" % (i + 1), make_type(s, decls, depth + 1)))
        n = "ty%d" % (len(decls) + 1)
        t = Rec(n, fs)
    decls.append("  %s = %s;" % (n, t.decl))
    return t


class File:
    def __init__(self, var, typ):
        self.var, self.typ = var, typ
        self.mode, self.pos, self.vals = None, 0, None
        self.seekable = False

    def eof(self):
        return self.pos >= len(self.vals)


class History:
    def __init__(self, s):
        self.s = s
        self.body, self.out, self.steps, self.ops = [], [], 0, set()

    def e(self, t):
        self.body.append("  " + t)
        self.steps += 1

    def show(self, typ, var, v):
        self.e("writeln(%s);" % typ.show(var))
        self.out.append(typ.text(v) + "\n")

    def put(self, f, v):
        f.vals[f.pos:f.pos + 1] = [v]
        f.pos += 1

    def state(self, f):
        s = self.s
        items = []
        for k in s.shuffle(["position(%s)", "lastposition(%s)", "empty(%s)", "eof(%s)"])[:1 + s.n(4)]:
            if k[0] == "e" and k[1] == "o" and f.mode == "w" and not f.eof():
                continue
            v = f.pos if k[0] == "p" else len(f.vals) if k[0] == "l" else not f.vals if k[1] == "m" else f.eof()
            items.append((k % f.var, str(v).upper()))
        if items:
            self.ops.add("state")
            self.e("writeln(%s);" % ", ' ', ".join(x[0] for x in items))
            self.out.append(" ".join(x[1] for x in items) + "\n")

    def index(self, n):
        s = self.s
        k = s.n(5)
        if k == 0:
            self.e("i := %d;" % n)
            return "i"
        if k == 1:
            self.e("l := %d;" % n)
            return "l"
        if k == 2 and n:
            self.e("i := %d;" % (n - 1))
            return "i + 1"
        return str(n)

    def step(self, f):
        s = self.s
        if f.mode and s.n(5) == 0:
            return self.state(f)
        if f.mode and f.seekable and s.n(6) == 0:
            n = len(f.vals)
            p = s.pick([0, n, max(n - 1, 0), f.pos, s.n(n + 1)])
            k = s.pick(["seekread", "seekwrite", "seekupdate"])
            i = self.index(p)
            self.e("%s(%s, %s);" % (k, f.var, i))
            f.pos, f.mode = p, {"seekread": "r", "seekwrite": "w", "seekupdate": "u"}[k]
            self.ops.add(k)
            return
        if f.mode and s.n(9) == 0:
            self.e("close(%s);" % f.var)
            f.mode = None
            self.ops.add("close")
            return
        if f.mode == "w" and s.n(12):
            return self.write(f)
        if f.mode in ("r", "u") and s.n(12):
            if f.eof():
                if s.bool() or f.mode == "r":
                    self.e("writeln(eof(%s));" % f.var)
                    self.out.append("TRUE\n")
                    return
                return self.write(f)
            return self.read(f)
        k = s.wpick([(2, "rewrite"), (5, "reset"), (2, "append")])
        if k != "rewrite" and f.vals is None:
            k = "rewrite"
        if k == "append" and not f.named:
            k = "reset"
        self.ops.add(k)
        self.e("%s(%s);" % (k, f.var))
        f.seekable = k != "append"
        if k == "rewrite":
            f.vals, f.pos, f.mode = [], 0, "w"
        elif k == "reset":
            f.pos, f.mode = 0, "r"
        else:
            f.pos, f.mode = len(f.vals), "w"

    def write(self, f):
        s = self.s
        t = f.typ
        v = t.value(s)
        k = s.wpick([(3, "var"), (3, "buffer"), (2, "expr"), (1, "proc"), (1, "loop")])
        if k == "expr" and type(t) not in (Int, Real, Named, Char, Str, Set):
            k = "var"
        if k == "loop" and t not in (INT, LONG) and type(t) is not Real:
            k = "buffer"
        if f.mode == "u":
            k = "buffer"
        self.ops.add("write" if k != "buffer" else "put")
        if k == "var":
            self.e("%s; write(%s, v%s);" % (t.assign("v" + f.id, v), f.var, f.id))
        elif k == "buffer":
            self.e("%s; put(%s);" % (t.assign(f.var + "^", v), f.var))
        elif k == "expr":
            if type(t) is Real and s.bool():
                v = float(s.n(1000) - 500)
                self.e("write(%s, %d);" % (f.var, int(v)))
            else:
                self.e("write(%s, %s);" % (f.var, t.lit(v)))
        elif k == "proc":
            self.e("%s; store%s(%s, v%s);" % (t.assign("v" + f.id, v), f.id, f.var, f.id))
        else:
            m = s.pick([3, 10, 200, 1030])
            self.e("for i := 1 to %d do write(%s, i);" % (m, f.var))
            for i in range(1, m + 1):
                self.put(f, float(i) if type(t) is Real else i)
            self.steps += m
            return
        self.put(f, v)

    def read(self, f):
        s = self.s
        t = f.typ
        v = f.vals[f.pos]
        if f.mode == "u" and s.bool():
            self.ops.add("update")
            ps = t.parts()
            if ps and s.bool():
                # one part of the component is replaced
                src, i, pt = s.pick(ps)
                n = pt.value(s)
                self.e("%s; put(%s);" % (pt.assign(f.var + "^" + src, n), f.var))
                v = list(v)
                v[i] = n
                self.put(f, v)
            else:
                self.write(f)
            return
        k = s.wpick([(5, "read"), (3, "look"), (2, "get"), (1, "loop"), (1, "part"), (1, "proc")])
        if k == "loop" and t not in (INT, LONG):
            k = "read"
        self.ops.add(k)
        if k == "read":
            f.pos += 1
            if t is INT and s.n(3) == 0:
                # converted
                self.ops.add("convert")
                if s.bool():
                    self.e("read(%s, l); writeln(l);" % f.var)
                    self.out.append("%d\n" % v)
                else:
                    self.e("read(%s, x); writeln(x:1:1);" % f.var)
                    self.out.append("%d.0\n" % v)
                return
            if s.n(3) == 0:
                self.e("read(%s, w%s.a[2]);" % (f.var, f.id))
                return self.show(t, "w%s.a[2]" % f.id, v)
            self.e("read(%s, v%s);" % (f.var, f.id))
            self.show(t, "v" + f.id, v)
        elif k == "look":
            self.show(t, f.var + "^", v)
        elif k == "get":
            self.e("get(%s);" % f.var)
            f.pos += 1
        elif k == "part":
            ps = t.parts()
            if not ps:
                self.e("v%s := %s^;" % (f.id, f.var))
                return self.show(t, "v" + f.id, v)
            src, i, pt = s.pick(ps)
            self.show(pt, f.var + "^" + src, v[i])
        elif k == "proc":
            self.e("fetch%s(%s, v%s);" % (f.id, f.var, f.id))
            f.pos += 1
            self.show(t, "v" + f.id, v)
        else:
            h = 7
            while not f.eof():
                h = (h * 31 + abs(f.vals[f.pos] % 1000)) % 10007
                f.pos += 1
                self.steps += 1
            self.e("h := 7; while not eof(%s) do begin l := %s^ mod 1000; if l < 0 then l := l + 1000; h := (h * 31 + l) mod 10007; get(%s) end; writeln(h);"
                   % (f.var, f.var, f.var))
            self.out.append("%d\n" % h)


class CHECK(ProgCheck):
    id = "C13"
    rule = ("random histories of rewrite, append, write, put, reset, read, get, the buffer variable, seekread, seekwrite, seekupdate, position, lastposition, empty, eof "
            "and close on files of random component types; a list with a cursor per file predicts the output, and the bytes on disk for simple components; "
            "non-trivial: at least 15 steps, of five kinds, with reading and writing")
    quick, thorough = 2200, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0"), ("-Cr",)]

    def gen(self, s):
        c = Case()
        h = History(s)
        decls, files = [], []
        vars_, procs = [], []
        for j in range(1 + s.n(3)):
            t = files[0].typ if files and s.n(4) == 0 else make_type(s, decls)
            holder = s.n(4)
            i = str(j)
            ft = "file of " + t.name
            var = ["f" + i, "r%s.f" % i, "a%s[2]" % i, "q%s^.f" % i][holder]
            f = File(var, t)
            f.id = i
            decls.append("  ft%s = %s;" % (i, ft))
            if holder == 0:
                vars_.append("  f%s: ft%s;" % (i, i))
            elif holder == 1:
                vars_.append("  r%s: record c: char; f: ft%s end;" % (i, i))
            elif holder == 2:
                vars_.append("  a%s: array [1..3] of ft%s;" % (i, i))
            else:
                decls.append("  qr%s = record c: char; f: ft%s end;" % (i, i))
                vars_.append("  q%s: ^qr%s;" % (i, i))
                h.e("new(q%s);" % i)
            vars_.append("  v%s: %s;" % (i, t.name))
            vars_.append("  w%s: record c: char; a: array [1..2] of %s end;" % (i, t.name))
            procs += ["procedure store%s(var f: ft%s; v: %s);" % (i, i, t.name), "begin write(f, v) end;",
                      "procedure fetch%s(var f: ft%s; var v: %s);" % (i, i, t.name), "begin v := f^; get(f) end;"]
            f.named = s.n(4) > 0
            if f.named:
                h.e("assign(%s, 'file%s.dat');" % (var, i))
            files.append(f)
        for _ in range(s.pick([5, 12, 25, 50])):
            h.step(s.pick(files))
        for f in files:
            if f.mode and s.bool():
                h.e("close(%s);" % f.var)
        t = ["program p(output);", "type", "  en = (%s);" % ", ".join(ENUM)] + decls + ["var", "  i, j: integer;", "  l, h: longint;", "  x: real;"] + vars_ + [f.typ.func for j, f in enumerate(files) if type(f.typ) is Big and f.typ not in [g.typ for g in files[:j]]] + procs + ["begin"] + h.body
        c.text = "\n".join(t + ["end."]) + "\n"
        c.inp, c.expect, c.rc, c.steps = b"", "".join(h.out).encode("latin1"), 0, h.steps
        c.opts, c.fuzzy = s.pick(self.optsets), False
        c.ops = sorted(h.ops)
        c.kinds = sorted({type(f.typ).__name__ for f in files})
        c.disk = {}
        for f in files:
            if f.named and f.vals is not None:
                bs = [f.typ.bytes(v) for v in f.vals]
                if None not in bs:
                    c.disk["file%s.dat" % f.id] = b"".join(bs)
        return c

    def judge(self, c, wd, tool):
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)
        for n, want in c.disk.items():
            p = os.path.join(wd, n)
            got = open(p, "rb").read() if os.path.exists(p) else None
            if got != want:
                raise Fail("wrong file contents", "opts %s, %s: expected %r, got %r" % (" ".join(c.opts), n, want[:200], got and got[:200]))

    def nontrivial(self, c):
        return c.steps >= 15 and len(c.ops) >= 5 and {"write", "put"} & set(c.ops) and {"read", "look", "get", "loop", "proc", "part"} & set(c.ops)

    def features(self, c):
        return c.ops + c.kinds
