"""What write and writeln make of values, widths and precisions."""
from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare, diff

NAMES = ["ab", "red", "zebra", "x1", "alongername", "n" * 40, "m" * 140]
TEXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;!?()[]{}+-*/=<>@#$%^&_~|\""


def quote(t):
    return "'" + t.replace("'", "''") + "'"


class Gen:
    def __init__(self, s):
        self.s = s
        self.decl, self.init, self.body = [], [], []
        self.consts, self.funcs = [], []
        self.out = {"output": "", "f": "", "g": ""}
        self.cnt = 0
        self.kinds = set()
        names = s.shuffle(list(NAMES))
        self.enum = names[:1 + s.n(len(names))]
        self.maxw = 0

    def new(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    # a value held in some way; -> source
    def held(self, typ, lit, ext=True):
        s = self.s
        k = s.n(6)
        if k == 0 and ext:
            n = self.new("f")
            self.funcs.append("function %s: %s; begin %s := %s end;" % (n, typ, n, lit))
            return n
        n = self.new("v")
        if k == 1 and ext:
            self.decl.append("%s: array [3..5] of %s;" % (n, typ))
            self.init.append("%s[4] := %s;" % (n, lit))
            return n + "[4]"
        if k == 2 and ext:
            self.decl.append("%s: record a: char; b: %s end;" % (n, typ))
            self.init.append("%s.b := %s;" % (n, lit))
            return n + ".b"
        self.decl.append("%s: %s;" % (n, typ))
        self.init.append("%s := %s;" % (n, lit))
        return n

    def width(self):
        """-> (source or None, value)"""
        s = self.s
        k = s.wpick([(4, "none"), (6, "lit"), (2, "var"), (1, "sub"), (1, "expr")])
        if k == "none":
            return None, 0
        w = s.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 20, 25, 40, 100, s.n(200), 300])
        if self.maxw and w > self.maxw:
            w = s.n(self.maxw) + 1
        if k == "lit":
            return str(w), w
        if k == "var":
            return self.held("integer", str(w)), w
        if k == "sub":
            return self.held("width", str(w)), w
        return "%s + %d" % (self.held("integer", str(w)), 0) if w == 0 else "%d + %s" % (w - 1, self.held("integer", "1")), w

    def text(self, n):
        s = self.s
        return "".join(s.pick(TEXT) for _ in range(n))

    def item(self, room):
        """-> (source, text), the text being no longer than room"""
        for _ in range(20):
            d, i, f, c = len(self.decl), len(self.init), len(self.funcs), len(self.consts)
            src, t = self.item1()
            if len(t) <= room:
                return src, t
            del self.decl[d:], self.init[i:], self.funcs[f:], self.consts[c:]
        return "'.'", "."

    def item1(self):
        s = self.s
        k = s.pick(["int", "int", "long", "char", "bool", "enum", "lit", "chars", "str", "real", "real", "sub"])
        self.kinds.add(k)
        ws, w = self.width()
        fmt = lambda src: src + (":" + ws if ws else "")
        if k in ("int", "sub"):
            v = s.pick([0, 1, -1, 9, 10, -10, 99, 2147483647, -2147483647, 12345, s.n(2000000) - 1000000, -2147483647 - 1])
            if k == "sub":
                v = s.n(300)
                return fmt(self.held("width", str(v))), str(v).rjust(w)
            lit = str(v) if v > -2147483648 else "-2147483647 - 1"
            src = self.held("integer", lit)
            if s.n(4) == 0 and v > -2147483648:
                src = lit
            elif s.n(4) == 0 and v < 2147483647:
                src, v = src + " + 1", v + 1
            return fmt(src), str(v).rjust(w)
        if k == "long":
            v = s.pick([0, -1, 2147483648, -2147483649, 4294967296, 9223372036854775807, -9223372036854775807, 10**18,
                        s.n(10**9) * s.n(10**9) - 10**17])
            return fmt(self.held("longint", str(v))), str(v).rjust(w)
        if k == "char":
            v = s.pick([32, 65, 122, 39, 0, 1, 9, 127, 128, 200, 255, 13])
            lit = quote(chr(v)) if 32 <= v < 127 else "chr(%d)" % v
            src = lit if s.n(4) == 0 else self.held("char", lit)
            return fmt(src), chr(v).rjust(max(w, 1))
        if k == "bool":
            v = s.n(2)
            lit = ("false", "true")[v]
            src = lit if s.n(4) == 0 else self.held("boolean", lit)
            if s.n(4) == 0:
                src, v = "not " + src, 1 - v
            return fmt(src), ("FALSE", "TRUE")[v].rjust(w)
        if k == "enum":
            v = s.n(len(self.enum))
            src = self.enum[v] if s.n(3) == 0 else self.held("en", self.enum[v])
            t = self.enum[v]
            return fmt(src), t[:w].rjust(w) if w else t
        if k == "lit":
            n = s.pick([2, 3, 5, 10, 40, 2 + s.n(150)])
            t = self.text(n)
            if s.n(4) == 0:
                t = t[:1] + "'" + t[2:]
            src = quote(t)
            if s.n(3) == 0:
                c = self.new("k")
                self.consts.append("%s = %s;" % (c, src))
                src = c
            return fmt(src), t[:w].rjust(w) if w else t
        if k == "chars":
            n = s.pick([2, 3, 5, 10, 2 + s.n(100), 2 + s.n(300)])
            t = self.text(n)
            v = self.new("v")
            self.decl.append("%s: packed array [1..%d] of char;" % (v, n))
            if n < 240:
                self.init.append("%s := %s;" % (v, quote(t)))
            else:
                self.init.append("for i := 1 to %d do %s[i] := chr(48 + i mod 70);" % (n, v))
                t = "".join(chr(48 + i % 70) for i in range(1, n + 1))
            if s.bool(1, 3):
                i, c = 1 + s.n(n), s.pick([0, 10, 128, 255, 39])
                self.init.append("%s[%d] := chr(%d);" % (v, i, c))
                t = (t[:i - 1] + chr(c) + t[i:]).split("\0")[0]  # a chr(0) ends it
            return fmt(v), t[:w].rjust(w) if w else t
        if k == "str":
            n = s.pick([0, 1, 2, 5, 10, s.n(100), s.n(240)])
            t = self.text(n)
            cap = s.pick([n + 1, 255, n + 10])
            nm = self.new("t")
            self.strs = getattr(self, "strs", []) + ["%s = string[%d];" % (nm, min(cap, 255))]
            v = self.held(nm, quote(t) if n != 1 else quote(t), True)
            if n and s.bool(1, 4) and v.isalnum() and v[0] == "v":
                i, c = 1 + s.n(n), s.pick([0, 10, 128, 255])
                self.init.append("%s[%d] := chr(%d);" % (v, i, c))
                t = t[:i - 1] + chr(c) + t[i:]
            return fmt(v), t
        v = s.pick([0.0, 1.0, -1.0, 0.5, 2.5, 3.14159265, -0.001, 1e10, 1e-10, 123456.789, 9.9999999, 0.05, 99.995, -1e100, 1e-300, 0.1,
                    s.n(10**6) / 1000 - 500, 1e15])
        src = self.held("real", repr(v).replace("e+", "e"))
        if ws and s.bool(3, 4):
            p = s.pick([0, 1, 2, 3, 6, 10, 15, 20])
            pv = self.held("integer", str(p)) if s.n(4) == 0 else str(p)
            return "%s:%s:%s" % (src, ws, pv), ("%.*f" % (p, v)).rjust(w)
        if w == 0:
            w = 13
        p = w - 7 if w > 8 else 1
        return fmt(src), ("% .*E" % (p, v)).rjust(w)

    def step(self):
        s = self.s
        k = s.wpick([(6, "output"), (3, "f"), (1, "g"), (4, "str")])
        if k == "str":
            self.maxw = 60
            items, total = [], ""
            for _ in range(1 + s.n(5)):
                if len(total) == 255:
                    break
                src, t = self.item(255 - len(total))
                items.append(src)
                total += t
            self.maxw = 0
            v = "st" if s.bool() else "ss.b"
            self.body.append("writestr(%s, %s);" % (v, ", ".join(items)))
            self.body.append("writeln(length(%s), ' ', %s);" % (v, v))
            self.out["output"] += "%d %s\n" % (len(total), total)
            return
        self.used.add(k)
        items, total = [], ""
        for _ in range(s.n(6)):
            src, t = self.item(10**6)
            items.append(src)
            total += t
        ln = s.bool() or not items
        if k != "output" or s.n(4) == 0:
            items.insert(0, k)
        self.body.append("write%s%s;" % ("ln" if ln else "", "(" + ", ".join(items) + ")" if items else ""))
        self.out[k] += total + ("\n" if ln else "")

    def program(self):
        self.used = set()
        for _ in range(2 + self.s.n(10)):
            self.step()
        t = ["program p(input, output);"]
        if self.consts:
            t += ["const"] + ["  " + c for c in self.consts]
        t += ["type", "  en = (%s);" % ", ".join(self.enum), "  width = 0..300;"] + ["  " + x for x in getattr(self, "strs", [])]
        t += ["var", "  i: integer;", "  st: string;", "  ss: record a: char; b: string[255]; c: char end;"]
        files = sorted(self.used - {"output"})
        t += ["  %s: text;" % f for f in files]
        t += ["  " + d for d in self.decl] + self.funcs + ["begin"]
        for f in files:
            t += ["  assign(%s, '%s.txt');" % (f, f), "  rewrite(%s);" % f]
        t += ["  " + x for x in self.init + self.body]
        t += ["  close(%s);" % f for f in files]
        self.files = files
        return "\n".join(t + ["end."]) + "\n"


class CHECK(ProgCheck):
    id = "C10"
    rule = ("programs of write, writeln and writestr statements over values of every writable type, widths and precisions, to standard output, text files and "
            "strings; an independent formatter predicts every byte; non-trivial: at least 40 bytes written and two kinds of values")
    quick, thorough = 2500, 60000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O2")]

    def gen(self, src):
        c = Case()
        c.opts = src.pick(self.optsets)
        g = Gen(src)
        c.text = g.program()
        c.inp, c.fuzzy, c.rc = b"", False, 0
        c.expect = g.out["output"].encode("latin1")
        c.files = {f: g.out[f].encode("latin1") for f in g.files}
        c.kinds = sorted(g.kinds)
        return c

    def nontrivial(self, c):
        return len(c.kinds) >= 2 and len(c.expect) + sum(map(len, c.files.values())) >= 40

    def features(self, c):
        return c.kinds + ["file"] * bool(c.files)

    def judge(self, c, wd, tool):
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)
        for f, want in c.files.items():
            try:
                got = open("%s/%s.txt" % (wd, f), "rb").read()
            except OSError:
                raise Fail("file missing", f)
            if got != want:
                raise Fail("wrong file contents", diff(want, got))
