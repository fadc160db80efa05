"""pack and unpack between arrays of all kinds, against a list model."""
from ..progcheck import Case, ProgCheck

# element types: (type, value n of it, how to write it, what that prints)
ELEMS = [
    ("integer", lambda n: str(n * 1000003 % 70001 - 30000), "%s", None),
    ("longint", lambda n: str(n * 1000000007 + 5000000000), "%s", None),
    ("char", lambda n: "chr(%d)" % (33 + n % 90), "ord(%s)", lambda n: str(33 + n % 90)),
    ("boolean", lambda n: "true" if n % 3 else "false", "ord(%s)", lambda n: str(int(n % 3 > 0))),
    ("colour", lambda n: ["red", "green", "blue"][n % 3], "%s", None),
    ("small", lambda n: str(n % 11 - 5), "%s", None),
    ("real", lambda n: "%d.25" % n, "%s:1:2", None),
    ("rec", lambda n: None, "%s.b", lambda n: str(n)),
    ("trip", lambda n: None, "%s[6]", lambda n: str(n)),
    ("str7", lambda n: "'s%d'" % (n % 999), "%s", lambda n: "s%d" % (n % 999)),
]
DECLS = """type colour = (red, green, blue); small = -5..5; letter = 'a'..'z';
  rec = record a: char; b: integer; c: boolean end; trip = array [5..7] of integer; str7 = string[7];
  wide = (w0, w1, w2, w3, w4, w5, w6, w7, w8, w9);
"""


def index(s, n):
    """an index type of n values: (source, value k of it)"""
    k = s.n(5)
    if k == 0 and n <= 26:
        f = s.n(26 - n + 1)
        name = lambda i: "'%s'" % chr(97 + f + i)
    elif k == 1 and n <= 10:
        f = s.n(10 - n + 1)
        name = lambda i: "w%d" % (f + i)
    elif k == 2 and n == 2:
        return "boolean", lambda i: ["false", "true"][i]
    else:
        f = s.pick([0, 1, -1, -n, -3, 7, 100, -1000, 1000000, s.rng_range(-20, 20)])
        name = lambda i: str(f + i)
    return "%s..%s" % (name(0), name(n - 1)), name


class CHECK(ProgCheck):
    id = "C31"
    rule = ("programs that fill arrays and then pack and unpack between them, in plain variables, record fields, array elements, dynamic variables and "
            "var parameters, for all kinds of elements and index types; every element of every array is printed after each step; "
            "non-trivial: at least two arrays of different lengths and a copy of at least two elements")
    quick, thorough = 1200, 25000
    shrink_budget = 150

    def gen(self, s):
        c = Case()
        c.inp, c.rc, c.fuzzy, c.files = b"", 0, False, {}
        c.opts = s.pick([["-O0"], ["-O2"], [], ["-Cr"], ["-m32"], ["-m64", "-g"]])
        typ, val, wr, shown = s.pick(ELEMS)
        if shown is None:
            shown = val
        types, decl, init, body, out = [], [], [], [], []
        arrays, cnt = [], 100
        na, nz = 1 + s.n(2), 1 + s.n(2)
        for i in range(na + nz):
            packed = i >= na
            n = 1 + s.n(12) if not packed else 1 + s.n(max(a["n"] for a in arrays[:na]))
            src, name = index(s, n)
            t = "t%d" % i
            types.append("%s = %sarray [%s] of %s;" % (t, "packed " if packed else "", src, typ))
            where = s.n(6)
            local = False
            if where == 1:
                decl.append("r%d: record x: char; f: %s; y: char end;" % (i, t))
                ref = "r%d.f" % i
            elif where == 2:
                decl.append("p%d: ^%s;" % (i, t))
                init.append("new(p%d);" % i)
                ref = "p%d^" % i
            elif where == 3:
                decl.append("m%d: array [2..4] of %s;" % (i, t))
                ref = "m%d[3]" % i
            elif where == 4:
                decl.append("q%d: record x: array [boolean] of %s end;" % (i, t))
                ref = "q%d.x[true]" % i
            else:
                decl.append("v%d: %s;" % (i, t))
                ref = "v%d" % i
            a = dict(ref=ref, name=name, n=n, packed=packed, t=t, idx=src, v=[])
            for j in range(n):
                cnt += 1 + s.n(3)
                el = "%s[%s]" % (ref, name(j))
                if typ == "rec":
                    init.append("%s.a := 'q'; %s.b := %d; %s.c := true;" % (el, el, cnt, el))
                elif typ == "trip":
                    init.append("%s[5] := 1; %s[6] := %d; %s[7] := 2;" % (el, el, cnt, el))
                else:
                    init.append("%s := %s;" % (el, val(cnt)))
                a["v"].append(cnt)
            arrays.append(a)
        subs, most = [], 0
        for i in range(1 + s.n(4)):
            z = s.pick(arrays[na:])
            a = s.pick([a for a in arrays[:na] if a["n"] >= z["n"]])
            st = s.n(a["n"] - z["n"] + 1)
            most = max(most, z["n"])
            pack = s.n(2)
            start = a["name"](st)
            how = s.n(4)
            if how == 1:
                decl.append("s%d: %s;" % (i, a["idx"]))
                init.append("s%d := %s;" % (i, start))
                start = "s%d" % i
            elif how == 2 and st < a["n"] - 1:
                start = "pred(%s)" % a["name"](st + 1)
            elif how == 3 and a["name"](0).lstrip("-").isdigit():
                start = "%s + %d" % (a["name"](0), st)
            ra, rz = a["ref"], z["ref"]
            if s.n(4) == 0:
                subs.append("procedure sub%d(var x: %s; var y: %s; k: %s); begin %s end;" % (
                    i, a["t"], z["t"], "j%d" % i, "pack(x, k, y)" if pack else "unpack(y, x, k)"))
                types.append("j%d = %s;" % (i, a["idx"]))
                body.append("sub%d(%s, %s, %s);" % (i, ra, rz, start))
            else:
                body.append("pack(%s, %s, %s);" % (ra, start, rz) if pack else "unpack(%s, %s, %s);" % (rz, ra, start))
            if pack:
                z["v"] = a["v"][st:st + z["n"]]
            else:
                a["v"][st:st + z["n"]] = z["v"]
            for x in arrays:
                for j in range(x["n"]):
                    body.append("write(%s, ' ');" % (wr % ("%s[%s]" % (x["ref"], x["name"](j)))))
                    out.append(shown(x["v"][j]) + " ")
                body.append("writeln;")
                out.append("\n")
        local = s.n(4) == 0 and not subs
        if local:
            c.text = "program p(output);\n%s %s\nprocedure main;\nvar %s\nbegin\n %s\n %s\nend;\nbegin main end.\n" % (
                DECLS, "\n  ".join(types), "\n  ".join(decl), "\n  ".join(init), "\n  ".join(body))
        else:
            c.text = "program p(output);\n%s %s\nvar %s\n%s\nbegin\n %s\n %s\nend.\n" % (
                DECLS, "\n  ".join(types), "\n  ".join(decl), "\n".join(subs), "\n  ".join(init), "\n  ".join(body))
        c.expect = "".join(out).encode()
        c.most = most
        c.lens = len({a["n"] for a in arrays})
        c.typ = typ
        return c

    def nontrivial(self, c):
        return c.most >= 2 and c.lens >= 2

    def features(self, c):
        return [c.typ]
