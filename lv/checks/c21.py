"""Literals of every form, evaluated independently."""

from ..harness import Fail
from ..progcheck import Case, ProgCheck

DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
TEXT = "".join(map(chr, range(32, 127))) + "\xe4\xff\x80\xa0"


def digits(v, base):
    r = ""
    while v or not r:
        r = DIG[v % base] + r
        v //= base
    return r


def mix(s, t):
    return "".join(c.upper() if s.n(2) else c for c in t)


def magnitude(s):
    return s.pick([0, 1, 9, 10, 99, 127, 255, 256, 32767, 65535, 65536, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296,
                   9223372036854775807, 9223372036854775806, 10**18, s.n(100), s.n(2**31), s.n(2**31) * s.n(2**31), 2**s.n(63)])


def integer(s, small=False):
    """-> (literal, value, form)"""
    k = s.pick(["dec", "dec", "based", "hex", "zeros"])
    v = s.n(200) if small else magnitude(s)
    if k == "dec":
        return str(v), v, k
    if k == "zeros":
        return "0" * (1 + s.n(12)) + str(v), v, k
    base = 16 if k == "hex" else 2 + s.n(35)
    if base == 10:
        base = 16
    if not small and s.n(6) == 0:
        v = s.pick([2**64 - 1, 2**63, 2**63 + s.n(2**31), 2**32 + s.n(2**31)])
    t = mix(s, digits(v, base))
    if s.n(5) == 0:
        t = "0" * s.n(5) + t
    # a bit pattern of 32 or else 64 bits
    if v < 2**32:
        v -= v >> 31 << 32
    elif v >= 2**63:
        v -= 2**64
    return ("$" if k == "hex" else "%d#" % base) + t, v, k


def real(s):
    k = s.n(5)
    ip = s.pick(["0", "1", "3", "10", "123456789", "00012", str(s.n(10**6)), "9" * (1 + s.n(30)), "9007199254740993"])
    fp = s.pick(["0", "5", "25", "1", "14159265358979", "000", "999999999999999999999", str(s.n(10**6)), "00000000000000000000000001"])
    ex = s.pick(["", "0", "1", "5", "10", "22", "23", "100", "250", "005"])
    e = s.pick("eE") + s.pick(["", "+", "-"]) + (ex or "1")
    if k == 0:
        t = ip + e
    elif k < 3:
        t = ip + "." + fp
    elif k == 3:
        t = ip + "." + fp + e
    else:
        t = s.pick(["1.7976931348623157e308", "2.2250738585072014e-308", "4.9e-324", "0.1", "0.2", "0.3", "1e22", "1e23", "9007199254740993.0",
                    "0.1e1", "5e-1", "123456789012345678901234567890.0"])
    v = float(t)
    if v in (float("inf"),):
        return "1.5", 1.5
    return t, v


def string(s, n=None):
    """-> (literal, text)"""
    n = s.pick([0, 2, 3, 5, 10, 2 + s.n(60), 2 + s.n(200)]) if n is None else n
    t = "".join(s.pick("'\"" if s.n(5) == 0 else TEXT) for _ in range(n))
    q = s.pick("'''\"")
    return q + t.replace(q, q + q) + q, t


BAD = ["9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "8#8", "2#2", "8#19", "16#g", "1#0", "0#0", "37#1",
       "16#-5", "16# 5", "16#1ffffffffffffffff", "$", "36#", "1e", "1e+", "1.5e", "1e999", "1.8e308", "8#12.5", "8#12e1", "12#a.", "'a", '"a', "'a''", "'",
       "1.5.5", "$1.5", "1..", "#5", "16##5", "''''' "]


class CHECK(ProgCheck):
    id = "C21"
    rule = ("programs full of literals: decimal and based integers up to 64 bits, reals of all forms, characters and strings with both quotes, doubled "
            "quotes and bytes beyond ASCII, as operands, constants, case labels, bounds next to .. and array indexes; and, for half of them, the same "
            "program with one literal that denotes nothing, which must be rejected; non-trivial: at least 8 literals")
    quick, thorough = 1500, 30000

    def gen(self, s):
        c = Case()
        c.inp, c.rc, c.fuzzy, c.files = b"", 0, False, {}
        c.opts = s.pick([["-O0"], ["-O2"], [], ["-m32"]])
        consts, body, out = [], [], []
        c.forms = set()
        n = 4 + s.n(16)
        for i in range(n):
            k = s.wpick([(6, "int"), (4, "real"), (3, "char"), (4, "str"), (2, "label"), (2, "range"), (1, "index"), (1, "sum"), (1, "long")])
            c.forms.add(k)
            how = s.n(4)
            if k == "int":
                t, v, f = integer(s)
                c.forms.add(f)
                if s.n(4) == 0 and v >= 0:
                    t, v = "-" + t, -v
                if how == 0:
                    consts.append("k%d = %s;" % (i, t))
                    t = "k%d" % i
                elif how == 1:
                    body.append("l := %s;" % t)
                    t = "l"
                body.append("writeln(%s);" % t)
                out.append("%d\n" % v)
            elif k == "real":
                t, v = real(s)
                if s.n(4) == 0:
                    t, v = "-" + t, -v
                if how == 0:
                    consts.append("k%d = %s;" % (i, t))
                    t = "k%d" % i
                elif how == 1:
                    body.append("r := %s;" % t)
                    t = "r"
                body.append("writeln(%s:40);" % t)
                out.append(("% .33E" % v).rjust(40) + "\n")
            elif k == "char":
                t = s.pick(TEXT)
                q = s.pick("'''\"")
                l = q + (t * 2 if t == q else t) + q
                if how == 0:
                    consts.append("k%d = %s;" % (i, l))
                    l = "k%d" % i
                elif how == 1:
                    body.append("c := %s;" % l)
                    l = "c"
                body.append("writeln(%s, ord(%s));" % (l, l))
                out.append("%s%d\n" % (t, ord(t)))
            elif k in ("str", "long"):
                l, t = string(s, s.pick([254, 255]) if k == "long" else None)
                if how == 0:
                    consts.append("k%d = %s;" % (i, l))
                    l = "k%d" % i
                elif how == 1 and t:
                    body.append("t := %s;" % l)
                    l = "t"
                body.append("writeln(%s);" % l)
                out.append(t + "\n")
            elif k == "label":
                t, v, f = integer(s, True)
                body.append("i := %d; case i of %s:write('y'); %d .. %s%s: write('z') end; writeln;" % (v, t, v + 1, s.pick(["", " "]), v + 5))
                out.append("y\n")
            elif k == "range":
                a, x, f = integer(s, True)
                b, y, f = integer(s, True)
                if s.n(2):
                    body.append("writeln(card([%s..%s]));" % (a, b))
                else:
                    body.append("writeln(card((.%s..%s.)));" % (a, b))
                out.append("%d\n" % max(0, y - x + 1))
            elif k == "index":
                t, v, f = integer(s, True)
                body.append("a[%d] := %d; writeln(a%s);" % (v, i, "[%s]" % t if s.n(2) else "(.%s.)" % t))
                out.append("%d\n" % i)
            else:
                a, x, f = integer(s, True)
                b, y, f = integer(s, True)
                op, z = s.pick([("+", x + y), ("-", x - y), ("*", x * y)])
                body.append("writeln(%s%s%s);" % (a, op, b))
                out.append("%d\n" % z)
        c.n = n
        # the constants come first, and a constant is no variable
        c.make = lambda extra: "program p(output);\n%svar i: integer; l: longint; r: real; c: char; t: string[255]; a: array [0..199] of integer;\nbegin\n %s\nend.\n" % (
            "const " + "\n  ".join(consts) + "\n" if consts else "", "\n ".join(body + extra))
        c.text = c.make([])
        c.expect = "".join(out).encode("latin1")
        c.badlit = None
        if s.n(2):
            c.badlit = s.pick(BAD) if s.n(3) else str(2**63 + s.n(2**31) ** 2)
            if s.n(3) == 0:
                l, t = string(s, 20)
                c.badlit = l[:-1]
            c.badtext = c.make(["writeln(%s);" % c.badlit])
        return c

    def nontrivial(self, c):
        return c.n >= 8

    def judge(self, c, wd, tool):
        super().judge(c, wd, tool)
        if c.badlit is not None:
            with open(wd + "/b.pas", "wb") as f:
                f.write(c.badtext.encode("latin1"))
            r = tool.compile(wd, "b", c.opts)
            if r.timeout or r.rc < 0 or r.rc >= 128:
                raise Fail("compiler crash", "for the literal %s: %s" % (c.badlit, r))
            if r.rc == 0:
                raise Fail("meaningless literal accepted", c.badlit)

    def features(self, c):
        return sorted(c.forms) + (["rejected"] if c.badlit is not None else [])
