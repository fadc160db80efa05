"""Values written to strings and read back from them."""
from .. import textio
from ..progcheck import Case, ProgCheck

HOLD = ["sa", "sb", "r.s", "t[2]", "q^"]


class Strings(textio.Prog):
    def __init__(self, s):
        super().__init__(s)
        self.ops = set()
        self.held = {}

    def value(self):
        """-> (kind, source, text at a width)"""
        s = self.s
        k = s.pick(["int", "int", "long", "bool", "real", "char", "word"])
        w = s.pick([None, None, 1, 5, 12, 25])
        f = lambda src: src + (":%d" % w if w else "")
        if k == "int":
            v = s.pick([0, 1, -1, 10, 99999, 2147483647, -2147483647, s.n(10 ** 6) - 500000, s.n(101)])
            src = str(v)
            if s.bool():
                self.e("i2 := %d;" % v) if not self.once("i2") else None
                src = "i2" if self.body[-1].strip() == "i2 := %d;" % v else src
            return f(src), b"%*d" % (w or 0, v)
        if k == "long":
            v = s.pick([2 ** 31, -2 ** 40, 2 ** 63 - 1, s.n(2 ** 62), -s.n(2 ** 50) - 2 ** 33])
            return f(str(v)), b"%*d" % (w or 0, v)
        if k == "bool":
            v = s.n(2)
            return f(("false", "true")[v]), (b"FALSE", b"TRUE")[v].rjust(w or 0)
        if k == "real":
            v = s.pick([0.0, 1.5, -2.25, 1e10, 123.456, s.n(10 ** 6) / 1024 - 300])
            if s.bool():
                p = s.n(7)
                return "%r:%d:%d" % (v, w or 1, p), (b"%.*f" % (p, v)).rjust(w or 1) if "e" not in repr(v) else (b"%.*f" % (p, v)).rjust(w or 1)
            return "%r:25" % v, (b"% .18E" % v).rjust(25)
        if k == "char":
            c = s.pick("abXY.-+*")
            return f("'%s'" % c), c.encode().rjust(w or 1)
        t = "".join(s.pick("abcXYZ") for _ in range(2 + s.n(6)))
        return "'%s'" % t, t.encode()

    def once(self, v):
        # one variable cannot have two values in one statement
        return v in self.taken or self.taken.add(v)

    def fill(self, var, cap):
        """puts some text in a string variable"""
        s = self.s
        if s.bool():
            self.taken = set()
            items, text = [], b""
            for _ in range(1 + s.n(5)):
                src, t = self.value()
                sep = s.pick([b" ", b" ", b"  "])
                if len(text) + len(t) + len(sep) > cap:
                    break
                items += [src] + (["'%s'" % sep.decode()] if s.n(8) else [])
                text += t + (sep if len(items) > 1 and items[-1] == "'%s'" % sep.decode() else b"")
            if not items:
                return
            self.ops.add("writestr")
            self.e("writestr(%s, %s);" % (var, ", ".join(items)))
        else:
            text = textio.line(s, False).replace(b"'", b"").replace(b"\t", b" ")[:cap]
            if len(text) < 2:
                return
            self.ops.add("text")
            self.e("%s := '%s';" % (var, text.decode()))
        self.held[var] = text
        if s.bool():
            self.e("writeln(%s, '|', length(%s));" % (var, var))
            self.p(text + b"|%d\n" % len(text))

    def readback(self, var):
        s = self.s
        text = self.held[var]
        src = textio.Source(text)
        items, order = [], []
        for _ in range(1 + s.n(6)):
            it = self.one(src)
            if it is None:
                break
            items = [x for x in items if x[1] != it[1]] + [it]
            order.append(it[1])
        if not items:
            return
        self.ops.add("readstr")
        how = s.n(5)
        if how == 0 and order[0][0] == "i" and len(order) == 1:
            self.e("fromvar(%s, %s);" % (var, order[0]))
        else:
            self.e("readstr(%s, %s);" % (var, ", ".join(order)))
        self.e("writeln(%s);" % ", '|', ".join(self.show(x[0], x[1]) for x in items))
        self.p(b"|".join(x[2] for x in items) + b"\n")
        if s.bool():
            # what was read from is as it was
            self.e("writeln(%s);" % var)
            self.p(text + b"\n")

    def val(self):
        s = self.s
        k = s.pick(["int", "long", "real"])
        if k == "int":
            v = s.pick([0, 1, -1, 2147483647, -2147483648, s.n(10 ** 6)])
            t, shown, dst = str(v), b"%d" % v, s.pick(["i0", "z[3]", "rv.i", "p^"])
        elif k == "long":
            v = s.pick([2 ** 31, -2 ** 63, 2 ** 63 - 1, s.n(2 ** 60), 7])
            t, shown, dst = str(v), b"%d" % v, s.pick(["l0", "rv.l"])
        else:
            t = textio.real(s).decode()[:100]
            try:
                v = float(t)
            except ValueError:
                return
            if abs(v) > 1e300:
                return
            shown, dst = b"% 25.18E" % v, s.pick(["x0", "rv.x"])
        if s.n(4) == 0 and t[0] != "+" and t[0] != "-":
            t = "+" + t
        if s.n(4) == 0:
            t = " " * (1 + s.n(3)) + t
        self.ops.add("val")
        if len(t) == 1 or s.n(3):
            var = s.pick(["sb", "r.s", "full"])
            if var == "full" and len(t) != 8:
                var = "sb"
            self.held.pop(var, None)
            if var == "r.s" and len(t) > 80:
                var = "sb"
                self.held.pop(var, None)
            self.e("%s := '%s'; val(%s, %s);" % (var, t, var, dst))
        else:
            i = s.n(len(t))
            self.e("val('%s', %s);" % (t, dst) if i < 2 or i > len(t) - 2 else "sa := '%s'; val(sa + '%s', %s);" % (t[:i], t[i:], dst))
            self.held.pop("sa", None)
        self.e("writeln(%s, guard);" % (dst + ":25" if k == "real" else dst))
        self.p(shown + b"#" + b"\n")


class CHECK(ProgCheck):
    id = "C14"
    rule = ("strings filled by writestr of random values at random widths, or with random text, and then read by readstr into random lists of variables, and by val; "
            "a character-level model of the text predicts what is read; non-trivial: at least 8 statements, two kinds of variables read")
    quick, thorough = 2200, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0"), ("-Cr",)]

    def gen(self, s):
        c = Case()
        h = Strings(s)
        caps = {"sa": 255, "sb": 255, "r.s": 80, "t[2]": 30, "q^": 255}
        for _ in range(3 + s.n(25)):
            k = s.wpick([(4, "fill"), (5, "read"), (2, "val")])
            if k == "fill":
                var = s.pick(HOLD)
                h.fill(var, caps[var])
            elif k == "read" and h.held:
                h.readback(s.pick(sorted(h.held)))
            elif k == "val":
                h.val()
        t = ["program p(output);", "type s255 = string[255];", "var"] + h.variables()
        t += ["  sa: string[255]; sb: s255;", "  full: string[8];", "  guard: char;", "  r: record a: char; s: string[80]; b: char end;",
              "  t: array [1..3] of string[30];", "  q: ^s255;", "  p: ^integer;", "  rv: record i: integer; l: longint; x: real end;"]
        t += ["procedure fromvar(var s: s255; var v: integer);", "begin readstr(s, v) end;"]
        t = [x for x in t]
        body = [x.replace("fromvar(%s," % v, "readstr(%s," % v) if v in ("sa", "r.s", "t[2]") else x for x in h.body for v in [next((w for w in HOLD if "fromvar(%s," % w in x), "")]]
        c.text = "\n".join(t + ["begin", "  new(q); new(p); guard := '#';"] + body + ["end."]) + "\n"
        c.inp, c.expect, c.rc, c.steps = b"", b"".join(h.out), 0, h.steps
        c.opts, c.fuzzy = s.pick(self.optsets), False
        c.ops, c.kinds = sorted(h.ops), sorted(h.kinds)
        return c

    def nontrivial(self, c):
        return c.steps >= 8 and len(c.kinds) >= 2

    def features(self, c):
        return c.ops + c.kinds
