"""Text data and programs that read it: a model of text files at the level of single characters."""
import re

WS = b" \t\n\v\f\r"
INT_RE = re.compile(rb"[+-]?\d+")
REAL_RE = re.compile(rb"[+-]?\d+(\.\d+)?([eE][+-]?\d+)?")
BOOL_RE = re.compile(rb"(?i)(true|false)(?=[ \t\n\v\f\r]|\Z)")


def integer(s):
    k = s.wpick([(4, 0), (2, 1), (1, 2)])
    v = s.n(2000) - 1000 if k == 0 else s.pick([0, 1, 9, 10, 255, 256, 32767, 32768, 65536, 2147483647, -2147483648, -1, -2147483647, 99999]) if k == 1 \
        else s.n(2 ** 31) - s.n(2 ** 31)
    return number(s, v)


def longint(s):
    v = s.pick([2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 10 ** 18, -10 ** 15, 2 ** 53 + 1, s.n(2 ** 60), -s.n(2 ** 45)])
    return number(s, v)


def number(s, v):
    t = b"%d" % abs(v)
    if s.n(6) == 0:
        t = b"0" * (1 + s.n(3)) + t
    return (b"-" if v < 0 else b"+" if s.n(5) == 0 else b"") + t


def real(s):
    t = b"-" if s.n(4) == 0 else b"+" if s.n(6) == 0 else b""
    t += b"%d" % s.pick([0, 1, 2, 3, 12, 99, 1234, 10 ** 9, s.n(10 ** 15)])
    if s.n(4):
        t += b"." + b"".join(b"%d" % s.n(10) for _ in range(1 + s.pick([0, 1, 2, 5, 16, 20])))
    if s.n(3) == 0:
        t += s.pick([b"e", b"E"]) + s.pick([b"", b"+", b"-"]) + b"%d" % s.pick([0, 1, 2, 3, 10, 22, 23, 40, 150, 280])
    return t


WORD = b"abcdeXYZ.,;:'()_-+*#0"


def word(s, any_byte):
    w = bytes(s.pick(WORD) for _ in range(1 + s.n(6)))
    if any_byte and s.n(5) == 0:
        w += bytes([s.pick([255, 128, 200, 1, 127, 26, 4, 160, 254])])
    return w


def line(s, any_byte=True):
    r = b""
    sep = s.n(5)
    for _ in range(s.pick([0, 1, 1, 2, 3, 5])):
        r += s.wpick([(6, integer), (2, longint), (4, real), (2, lambda s: s.pick([b"true", b"FALSE", b"False", b"True", b"tRUE"])),
                      (3, lambda s: word(s, any_byte))])(s)
        if sep or s.n(4):
            r += s.pick([b" ", b" ", b" ", b"  ", b"\t", b"   ", b" \t "])
    if s.n(3) == 0:
        r = s.pick([b" ", b"  ", b"\t"]) + r
    if s.n(3):
        r = r.rstrip(b" \t")
    return r


def text(s, any_byte=True):
    ls = [line(s, any_byte) for _ in range(s.pick([0, 1, 2, 3, 5, 8, 12]))]
    if s.n(6) == 0 and ls:
        # around the size of the read buffer
        i = s.n(len(ls))
        before = sum(len(x) + 1 for x in ls[:i])
        want = s.pick([1024, 1024, 2048, 4096]) + s.n(5) - 2 - before
        if want > 0:
            w = word(s, any_byte) + b" 12 x"
            ls[i] = (w * (want // len(w) + 1))[:want]
    r = b"".join(x + b"\n" for x in ls)
    if s.n(5) == 0:
        r = r[:-1]
    return r


class Source:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def eof(self):
        return self.pos >= len(self.data)

    def eoln(self):
        return self.eof() or self.data[self.pos] == 10

    def skip_line(self):
        i = self.data.find(b"\n", self.pos)
        self.pos = len(self.data) if i < 0 else i + 1

    def after_ws(self):
        p = self.pos
        while p < len(self.data) and self.data[p] in WS:
            p += 1
        return p


class Prog:
    """statements, with what they must print"""

    STRN = [1, 5, 20, 255]
    ARRN = [1, 4, 8]

    def __init__(self, s):
        self.s = s
        self.body, self.out, self.ind, self.steps = [], [], 1, 0
        self.kinds = set()

    def e(self, text):
        self.body.append("  " * self.ind + text)
        self.steps += 1

    def p(self, b):
        self.out.append(b)

    # what is readable next: list of (kind, variable, end, statement that shows the value, what that shows)
    def readable(self, src):
        d, p = src.data, src.after_ws()
        r = []
        m = INT_RE.match(d, p)
        if m:
            v = int(m.group())
            if -2 ** 31 <= v < 2 ** 31:
                r.append((5, "int", "i%d" % self.s.n(3), m.end(), b"%d" % v))
                if 0 <= v <= 100:
                    r.append((2, "sub", "u%d" % self.s.n(2), m.end(), b"%d" % v))
            if -2 ** 63 <= v < 2 ** 63:
                r.append((2, "long", "l%d" % self.s.n(2), m.end(), b"%d" % v))
        m = REAL_RE.match(d, p)
        if m:
            nxt = d[m.end():m.end() + 1]
            # "1.x" and "1ex" are not numbers
            if not (nxt == b"." and b"." not in m.group() and b"e" not in m.group().lower()) and not (nxt.lower() == b"e" and b"e" not in m.group().lower()):
                v = float(m.group())
                if abs(v) < 1e300:
                    r.append((4, "real", "x%d" % self.s.n(2), m.end(), b"% 25.18E" % v))
        m = BOOL_RE.match(d, p)
        if m:
            r.append((5, "bool", "b%d" % self.s.n(2), m.end(), b"TRUE" if m.group().lower() == b"true" else b"FALSE"))
        if not src.eoln():
            r.append((2, "char", "c%d" % self.s.n(2), src.pos + 1, b"%d" % d[src.pos]))
        end = d.find(b"\n", src.pos)
        end = len(d) if end < 0 else end
        if not src.eof():
            k = self.s.n(len(self.STRN))
            q = min(end, src.pos + self.STRN[k])
            t = d[src.pos:q]
            r.append((1, "str", "s%d" % k, q, b"%d[%s]" % (len(t), t)))
            k = self.s.n(len(self.ARRN))
            n = self.ARRN[k]
            if end - src.pos >= n and b"\0" not in d[src.pos:src.pos + n]:
                r.append((1, "chars", "a%d" % k, src.pos + n, b"[" + d[src.pos:src.pos + n] + b"]"))
        return r

    def show(self, kind, var):
        if kind == "real":
            return "%s:25" % var
        if kind == "char":
            return "ord(%s)" % var
        if kind == "str":
            return "length(%s), '[', %s, ']'" % (var, var)
        if kind == "chars":
            return "'[', %s, ']'" % var
        return var

    def one(self, src):
        """chooses one readable item and moves on -> (kind, var, shown) or None"""
        c = self.readable(src)
        if not c:
            return None
        kind, var, end, shown = self.s.wpick([(x[0], x[1:]) for x in c])
        src.pos = end
        self.kinds.add(kind)
        return kind, var, shown

    def read(self, src, f):
        """emits one operation on the text that f names ('' is input)"""
        s = self.s
        a = f + ", " if f else ""
        o = "(%s)" % f if f else ""
        g = f or "input"
        k = s.wpick([(8, "read"), (5, "readln"), (2, "state"), (2, "look"), (1, "get"), (2, "line"), (1, "skip"), (1, "copy"), (2, "array"),
                     (2, "func"), (1, "index"), (1, "words")])
        if src.eof():
            self.e("writeln(eof%s, ' ', eoln%s);" % (o, o) if s.bool() or not src.data else "writeln(eof%s);" % o)
            self.p(b"TRUE TRUE\n" if "eoln" in self.body[-1] else b"TRUE\n")
            return False
        if k in ("read", "readln"):
            items = []
            for _ in range(s.pick([1, 1, 2, 3])):
                if k == "readln" and src.eoln() and s.bool():
                    break
                it = self.one(src)
                if it is None or any(x[1] == it[1] for x in items):
                    if it is not None:
                        # the same variable again: only the last value is left
                        items = [x for x in items if x[1] != it[1]]
                        self.order.append(it[1])
                        items.append(it)
                        continue
                    break
                if not items:
                    self.order = []
                self.order.append(it[1])
                items.append(it)
            if not items:
                if k == "read":
                    return self.state(src, o)
                self.order = []
            if k == "readln":
                src.skip_line()
            self.e("%s%s;" % (k, "(%s%s)" % (a, ", ".join(self.order)) if items else o))
            if items:
                self.e("writeln(%s);" % ", '|', ".join(self.show(x[0], x[1]) for x in items))
                self.p(b"|".join(x[2] for x in items) + b"\n")
        elif k == "state":
            self.state(src, o)
        elif k == "look":
            if src.eoln():
                return self.state(src, o)
            self.kinds.add("buffer")
            self.e("writeln(ord(%s^));" % g)
            self.p(b"%d\n" % src.data[src.pos])
        elif k == "get":
            self.kinds.add("get")
            self.e("get(%s);" % g)
            src.pos += 1
        elif k == "line":
            n = h = 0
            while not src.eoln():
                h = (h * 31 + src.data[src.pos]) % 10007
                n += 1
                src.pos += 1
            self.steps += n
            if s.bool():
                self.e("n := 0; h := 0; while not eoln%s do begin read(%sc0); h := (h * 31 + ord(c0)) mod 10007; n := n + 1 end;" % (o, a))
            else:
                self.e("n := 0; h := 0; while not eoln%s do begin h := (h * 31 + ord(%s^)) mod 10007; get(%s); n := n + 1 end;" % (o, g, g))
            self.e("writeln(n, ' ', h);")
            self.p(b"%d %d\n" % (n, h))
        elif k == "skip":
            self.e("readln%s;" % o)
            src.skip_line()
        elif k == "copy":
            m = 1 + s.n(4)
            self.e("n := 0; while not eof%s and (n < %d) do if eoln%s then begin readln%s; writeln('$'); n := n + 1 end else begin read(%sc1); write(c1) end;"
                   % (o, m, o, o, a))
            self.e("writeln;")
            n = 0
            while not src.eof() and n < m:
                if src.eoln():
                    src.skip_line()
                    self.p(b"$\n")
                    n += 1
                else:
                    self.p(src.data[src.pos:src.pos + 1])
                    src.pos += 1
            self.p(b"\n")
        elif k == "array":
            vs = []
            while len(vs) < 5:
                p = src.after_ws()
                m = INT_RE.match(src.data, p)
                if not m or not -2 ** 31 <= int(m.group()) < 2 ** 31:
                    break
                vs.append(int(m.group()))
                src.pos = m.end()
            if not vs:
                return self.state(src, o)
            self.kinds.add("array")
            self.e("for j := 1 to %d do read(%sz[j]);" % (len(vs), a))
            self.e("for j := %d downto 1 do write(z[j], ' ');" % len(vs))
            self.e("writeln;")
            self.p(b"".join(b"%d " % v for v in vs[::-1]) + b"\n")
        elif k == "func":
            p = src.after_ws()
            m = INT_RE.match(src.data, p)
            if not m or not -2 ** 31 <= int(m.group()) < 2 ** 31:
                return self.state(src, o)
            self.kinds.add("func")
            src.pos = m.end()
            self.e("writeln(number(%s));" % g)
            self.p(m.group() and b"%d\n" % int(m.group()))
        elif k == "index":
            # the second variable depends on the value of the first
            p = src.after_ws()
            m = INT_RE.match(src.data, p)
            if not m or not 1 <= int(m.group()) <= 5:
                return self.state(src, o)
            q = m.end()
            while q < len(src.data) and src.data[q] in WS:
                q += 1
            m2 = INT_RE.match(src.data, q)
            if not m2 or not -2 ** 31 <= int(m2.group()) < 2 ** 31:
                return self.state(src, o)
            src.pos = m2.end()
            self.e("read(%si0, z[i0]); writeln(i0, ' ', z[i0]);" % a)
            self.p(b"%d %d\n" % (int(m.group()), int(m2.group())))
        else:
            # everything up to the end of the line, word by word
            n = 0
            self.e("n := 0; while not eoln%s do begin read(%sc0); if c0 = ' ' then n := n + 1 end; readln%s; writeln(n);" % (o, a, o))
            while not src.eoln():
                n += src.data[src.pos] == 32
                src.pos += 1
            src.skip_line()
            self.p(b"%d\n" % n)
        return True

    def state(self, src, o):
        self.e("writeln(eof%s, ' ', eoln%s);" % (o, o))
        self.p(b"%s %s\n" % (b"TRUE" if src.eof() else b"FALSE", b"TRUE" if src.eoln() else b"FALSE"))
        return True

    def variables(self):
        t = ["  i0, i1, i2, n, h, j: integer;", "  u0, u1: 0..100;", "  l0, l1: longint;", "  x0, x1: real;", "  b0, b1: boolean;", "  c0, c1: char;",
             "  z: array [1..5] of integer;"]
        t += ["  s%d: string[%d];" % x for x in enumerate(self.STRN)]
        t += ["  a%d: packed array [1..%d] of char;" % x for x in enumerate(self.ARRN)]
        return t

    NUMBER = ["function number(var f: text): integer;", "var v: integer;", "begin read(f, v); number := v end;"]
