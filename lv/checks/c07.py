"""Heap histories: the generator keeps a model of the heap and only emits steps that are defined; what the program
prints is predicted from that model."""
from ..progcheck import Case, ProgCheck

SCALARS = ["integer", "longint", "char", "boolean", "real", "color", "string[9]", "set of 0..40"]
COLORS = ["red", "green", "blue", "white"]


class Cell:
    def __init__(self, rec):
        self.rec, self.live, self.f = rec, True, {}


class Gen:
    def __init__(self, s):
        self.s = s
        self.out = []
        self.body = []
        self.ind = 1
        self.steps = 0
        # record types: list of fields (name, type); type is a scalar name, "arr" or ("p", k)
        n = 1 + s.n(3)
        # lengths of arrays, so that records and heap blocks of very different size occur
        self.bigs = [s.pick([8, 9, 16, 20, 33, 50, 100, 400]) for _ in range(s.n(3))]
        self.recs = []
        for k in range(n):
            fs = [("f%d" % j, s.pick(SCALARS + ["arr"])) for j in range(1 + s.n(4))]
            if self.bigs and s.bool():
                fs.append(("b", "big%d" % s.pick(self.bigs)))
            fs += [("l%d" % j, ("p", s.n(n))) for j in range(s.n(3))]
            fs += [("a%d" % j, ("pa", s.n(n))) for j in range(s.n(6) == 0)]
            if s.bool():
                fs.reverse()
            self.recs.append(fs)
        self.first = s.bool()  # pointer types declared before or after the record types
        self.vars = [("v%d" % j, ("p", s.n(n))) for j in range(2 + s.n(4))]
        self.vars += [("w%d" % j, ("pa", s.n(n))) for j in range(s.n(2))]
        self.scal = s.pick(SCALARS[:7])
        self.svars = ["s%d" % j for j in range(s.n(3))]  # pointers to a scalar
        self.root = Cell(None)
        for v, t in self.vars:
            self.root.f[v] = [None] * 3 if t[0] == "pa" else None
        for v in self.svars:
            self.root.f[v] = None

    # ---- values
    def value(self, t):
        s = self.s
        if t == "integer":
            return s.pick([0, 1, -1, 7, 2147483647, -2147483647, s.n(1000) - 500])
        if t == "longint":
            return s.pick([0, -1, 4294967296, -5000000000, 9223372036854775807, s.n(1000)])
        if t == "char":
            return s.pick(list("abcXYZ019 .*"))
        if t == "boolean":
            return bool(s.n(2))
        if t == "real":
            return s.pick([0.0, 1.5, -2.25, 1024.125, s.n(100) / 4])
        if t == "color":
            return s.n(4)
        if t == "string[9]":
            return "".join(s.pick(list("abcdeXYZ 0123")) for _ in range(s.n(10)))
        if t == "arr":
            return [s.n(200) - 100 for _ in range(3)]
        if t[:3] == "big":
            return s.n(1000000)
        return frozenset(s.pick([0, 5, 31, 32, 33, 40]) for _ in range(s.n(4)))

    def lit(self, t, v):
        if t in ("integer", "longint"):
            return str(v)
        if t in ("char", "string[9]"):
            return "'" + v + "'"
        if t == "boolean":
            return "true" if v else "false"
        if t == "real":
            return repr(v)
        if t == "color":
            return COLORS[v]
        return "[" + ", ".join(map(str, sorted(v))) + "]"

    def show(self, t, v):
        if t == "boolean":
            return "TRUE" if v else "FALSE"
        if t == "real":
            return "%.3f" % v
        if t == "color":
            return COLORS[v]
        return str(v)

    # ---- emitting
    def e(self, line):
        self.steps += 1
        self.body.append("  " * self.ind + line)

    def p(self, text):
        self.out.append(text)

    def store(self, cell, name, t, src, v):
        """statements storing value v in field name of cell, accessed as src"""
        if t == "arr":
            for i, x in enumerate(v):
                self.e("%s[%d] := %d;" % (src, i + 1, x))
        elif t[:3] == "big":
            self.e("fill%s(%s, %d);" % (t, src, v))
        else:
            self.e("%s := %s;" % (src, self.lit(t, v)))
        cell.f[name] = v

    def ptrs(self, pred, depth=3):
        """all access paths of pointer type: (source, holder list or dict, key, record index)"""
        r = []

        def go(src, cell, fields, d):
            for n, t in fields:
                if isinstance(t, tuple):
                    items = [(src + n, cell.f, n)] if t[0] == "p" else \
                        [("%s%s[%d]" % (src, n, i + 1), cell.f[n], i) for i in range(3)]
                    for a, h, k in items:
                        r.append((a, h, k, t[1]))
                        x = h[k]
                        if d and x is not None and x.live:
                            go(a + "^.", x, self.recs[t[1]], d - 1)
        go("", self.root, self.vars, depth)
        return [x for x in r if pred(x[1][x[2]], x[3])]

    def pick(self, c):
        # prefer short paths a little
        return self.s.pick(c)

    def dangling(self, x):
        return x is not None and not x.live

    def new(self):
        a, h, k, t = self.pick(self.ptrs(lambda x, t: True))
        c = Cell(t)
        c.f = {n: [None] * 3 if ft[0] == "pa" else None for n, ft in self.recs[t] if isinstance(ft, tuple)}
        was, h[k] = h[k], c
        if not any(x[0] == a and x[1][x[2]] is c for x in self.ptrs(lambda x, t: True)):
            # the new value changes where the path leads, as in v^.l^ when v^.l = v
            h[k] = was
            return
        self.e("new(%s);" % a)
        for n, ft in self.recs[t]:
            if isinstance(ft, tuple) and ft[0] == "p":
                self.e("%s^.%s := nil;" % (a, n))
                c.f[n] = None
            elif isinstance(ft, tuple):
                for i in range(3):
                    self.e("%s^.%s[%d] := nil;" % (a, n, i + 1))
                c.f[n] = [None] * 3
            else:
                self.store(c, n, ft, "%s^.%s" % (a, n), self.value(ft))

    def live(self):
        return self.ptrs(lambda x, t: x is not None and x.live)

    def datas(self, t):
        return [(n, ft) for n, ft in self.recs[t] if not isinstance(ft, tuple)]

    def op(self):
        s = self.s
        k = s.wpick([(5, "new"), (4, "set"), (6, "link"), (3, "dispose"), (3, "cmp"), (6, "print"), (2, "copy"), (2, "with"),
                     (2, "list"), (2, "swap"), (2, "scal"), (2, "inc"), (1, "walk"), (1, "nil")])
        live = self.live()
        if k == "new" or not live and k not in ("nil", "scal", "list"):
            return self.new()
        if k == "set":
            a, h, kk, t = self.pick(live)
            n, ft = s.pick(self.datas(t))
            self.store(h[kk], n, ft, "%s^.%s" % (a, n), self.value(ft))
        elif k == "link":
            a, h, kk, t = self.pick(self.ptrs(lambda x, t: True))
            c = self.ptrs(lambda x, u: u == t and not self.dangling(x))
            if c:
                b, h2, k2, _ = self.pick(c)
                v = h2[k2]
                self.e("%s := %s;" % (a, b))
                h[kk] = v
        elif k == "nil":
            a, h, kk, t = self.pick(self.ptrs(lambda x, t: True))
            self.e("%s := nil;" % a)
            h[kk] = None
        elif k == "dispose":
            a, h, kk, t = self.pick(live)
            self.e("dispose(%s);" % a)
            h[kk].live = False
        elif k == "cmp":
            a, h, kk, t = self.pick(live)
            c = self.ptrs(lambda x, u: u == t and not self.dangling(x))
            b, h2, k2, _ = self.pick(c)
            eq = h[kk] is h2[k2]
            self.e("writeln(%s = %s, ' ', %s <> %s, ' ', %s = nil, ' ', nil <> %s);" % (a, b, a, b, b, b))
            nil = h2[k2] is None
            self.p(" ".join(self.show("boolean", x) for x in (eq, not eq, nil, not nil)) + "\n")
        elif k == "print":
            self.print_(*self.pick(live))
        elif k == "copy":
            a, h, kk, t = self.pick(live)
            c = [x for x in live if x[3] == t and not any(self.dangling(y) for y in self.inner(x[1][x[2]]))]
            if c:
                b, h2, k2, _ = self.pick(c)
                self.e("%s^ := %s^;" % (a, b))
                src, dst = h2[k2], h[kk]
                dst.f = {n: (list(v) if isinstance(v, list) else v) for n, v in src.f.items()}
        elif k == "with":
            a, h, kk, t = self.pick(live)
            self.e("with %s^ do begin" % a)
            self.ind += 1
            for _ in range(1 + s.n(2)):
                n, ft = s.pick(self.datas(t))
                self.store(h[kk], n, ft, n, self.value(ft))
            self.ind -= 1
            self.e("end;")
        elif k == "list":
            self.mklist()
        elif k == "swap":
            a, h, kk, t = self.pick(live)
            c = self.ptrs(lambda x, u: u == t and not self.dangling(x))
            b, h2, k2, _ = self.pick(c)
            self.e("swap%d(%s, %s);" % (t, a, b))
            h[kk], h2[k2] = h2[k2], h[kk]
        elif k == "inc":
            a, h, kk, t = self.pick(live)
            c = [n for n, ft in self.datas(t) if ft == "integer" and abs(h[kk].f[n]) < 2**30]
            if c:
                n = s.pick(c)
                d = s.n(50)
                self.e("%s^.%s := %s^.%s + %d;" % (a, n, a, n, d))
                h[kk].f[n] += d
        elif k == "walk":
            c = [x for x in live if self.chain(x[3]) and self.acyclic(x[1][x[2]], self.chain(x[3]))]
            if c:
                a, h, kk, t = self.pick(c)
                n, x = 0, h[kk]
                while x is not None:
                    n += 1
                    x = x.f[self.chain(t)]
                self.e("writeln(count%d(%s));" % (t, a))
                self.p("%d\n" % n)
        elif k == "scal" and self.svars:
            self.scalar()

    def inner(self, cell):
        for v in cell.f.values():
            if isinstance(v, Cell):
                yield v
            elif isinstance(v, list) and v and isinstance(v[0], Cell):
                yield from (x for x in v if isinstance(x, Cell))

    def chain(self, t):
        """the field of record type t that points to the same type"""
        for n, ft in self.recs[t]:
            if ft == ("p", t):
                return n

    def acyclic(self, x, n):
        seen = set()
        while x is not None:
            if id(x) in seen or not x.live:
                return False
            seen.add(id(x))
            x = x.f[n]
        return True

    def scalar(self):
        s = self.s
        v = s.pick(self.svars)
        c = self.root.f[v]
        u = s.pick(self.svars)
        d = self.root.f[u]
        k = s.n(5)
        if c is None or not c.live or k == 0:
            self.e("new(%s);" % v)
            x = self.value(self.scal)
            self.e("%s^ := %s;" % (v, self.lit(self.scal, x)))
            c = Cell("s")
            c.f["v"] = x
            self.root.f[v] = c
        elif k == 1:
            self.e("dispose(%s);" % v)
            c.live = False
        elif k == 2 and d is not None and d.live:
            self.e("%s^ := %s^;" % (v, u))
            c.f["v"] = d.f["v"]
        elif k == 3 and not self.dangling(d):
            self.e("%s := %s;" % (v, u))
            self.root.f[v] = d
        else:
            self.e("writeln(%s^%s);" % (v, ":1:3" if self.scal == "real" else ""))
            self.p(self.show(self.scal, c.f["v"]) + "\n")

    def mklist(self):
        """a list built, walked and perhaps released in loops"""
        s = self.s
        c = [t for t in range(len(self.recs)) if self.chain(t)]
        if not c:
            return
        t = s.pick(c)
        vs = [v for v, vt in self.vars if vt == ("p", t)]
        if not vs:
            return
        v, l, n = s.pick(vs), self.chain(t), 1 + s.n(30)
        f = [n_ for n_, ft in self.datas(t) if ft == "integer"]
        self.e("%s := nil;" % v)
        self.e("for i := 1 to %d do begin" % n)
        self.e("  new(t%d); t%d^.%s := %s;" % (t, t, l, v))
        for n_, ft in self.recs[t]:
            if n_ == l:
                continue
            if isinstance(ft, tuple):
                if ft[0] == "p":
                    self.e("  t%d^.%s := nil;" % (t, n_))
                else:
                    self.e("  for j := 1 to 3 do t%d^.%s[j] := nil;" % (t, n_))
        x = None
        vals = {n_: self.value(ft) for n_, ft in self.datas(t)}
        tmp = Cell(t)
        for n_, ft in self.datas(t):
            if n_ in f:
                self.e("  t%d^.%s := i * 3;" % (t, n_))
            else:
                self.ind += 1
                self.store(tmp, n_, ft, "t%d^.%s" % (t, n_), vals[n_])
                self.ind -= 1
        self.e("  %s := t%d" % (v, t))
        self.e("end;")
        for i in range(1, n + 1):
            c = Cell(t)
            for n_, ft in self.recs[t]:
                if n_ == l:
                    c.f[n_] = x
                elif isinstance(ft, tuple):
                    c.f[n_] = None if ft[0] == "p" else [None] * 3
                elif n_ in f:
                    c.f[n_] = i * 3
                else:
                    c.f[n_] = list(vals[n_]) if isinstance(vals[n_], list) else vals[n_]
            x = c
        self.root.f[v] = x
        self.steps += n
        if f:
            self.e("k := 0; t%d := %s;" % (t, v))
            self.e("while t%d <> nil do begin k := k + t%d^.%s; t%d := t%d^.%s end;" % (t, t, f[0], t, t, l))
            self.e("writeln(k);")
            self.p("%d\n" % (3 * n * (n + 1) // 2))
        if s.bool(1, 3):
            m = s.n(n + 1)
            self.e("for i := 1 to %d do begin t%d := %s; %s := %s^.%s; dispose(t%d) end;" % (m, t, v, v, v, l, t))
            for _ in range(m):
                x.live = False
                x = x.f[l]
            self.root.f[v] = x

    def print_(self, a, h, k, t):
        c = h[k]
        parts, outs = [], []
        for n, ft in self.datas(t):
            src = "%s^.%s" % (a, n)
            if ft == "arr":
                for i in range(3):
                    parts.append("%s[%d]" % (src, i + 1))
                    outs.append(str(c.f[n][i]))
            elif ft[:3] == "big":
                parts.append("value%s(%s)" % (ft, src))
                outs.append(str(c.f[n]))
            elif ft == "set of 0..40":
                for m in (0, 31, 32, 40, 5):
                    parts.append("%d in %s" % (m, src))
                    outs.append(self.show("boolean", m in c.f[n]))
            else:
                parts.append(src + (":1:3" if ft == "real" else ""))
                outs.append(self.show(ft, c.f[n]))
        self.e("writeln(%s);" % ", '|', ".join(parts))
        self.p("|".join(outs) + "\n")

    def program(self):
        s = self.s
        for _ in range(4 + s.n(30)):
            self.op()
        # everything that can be reached
        seen = set()
        for x in self.live():
            c = x[1][x[2]]
            if id(c) not in seen:
                seen.add(id(c))
                self.print_(*x)
                if len(seen) > 25:
                    break
        self.cells = len(seen)
        n = len(self.recs)
        t = ["program p(input, output);", "type", "  color = (red, green, blue, white);"]
        for b in sorted(set(self.bigs)):
            t.append("  big%d = array [1..%d] of integer;" % (b, b))
        ptr = ["  p%d = ^r%d;" % (k, k) for k in range(n)]
        rec = []
        for k, fs in enumerate(self.recs):
            rec.append("  r%d = record" % k)
            for f, ft in fs:
                ft = "array [1..3] of integer" if ft == "arr" else ft if isinstance(ft, str) else \
                    "p%d" % ft[1] if ft[0] == "p" else "array [1..3] of p%d" % ft[1]
                rec.append("    %s: %s;" % (f, ft))
            rec.append("  end;")
        t += ptr + rec
        t += ["  ps = ^%s;" % ("sc" if " " in self.scal or "[" in self.scal else self.scal)] if self.svars else []
        if self.svars and "[" in self.scal:
            t.insert(3, "  sc = %s;" % self.scal)
        t.append("var")
        for v, vt in self.vars:
            t.append("  %s: %s;" % (v, "p%d" % vt[1] if vt[0] == "p" else "array [1..3] of p%d" % vt[1]))
        for k in range(n):
            t.append("  t%d: p%d;" % (k, k))
        for v in self.svars:
            t.append("  %s: ps;" % v)
        t.append("  i, j, k: integer;")
        for b in sorted(set(self.bigs)):
            t += ["procedure fillbig%d(var a: big%d; n: integer);" % (b, b), "var i: integer;",
                  "begin for i := 1 to %d do a[i] := n + i * 5 end;" % b,
                  "function valuebig%d(var a: big%d): integer;" % (b, b), "var i, n: integer;",
                  "begin n := a[1] - 5; for i := 1 to %d do if a[i] <> n + i * 5 then n := -i; valuebig%d := n end;" % (b, b)]
        for k in range(n):
            t += ["procedure swap%d(var a, b: p%d);" % (k, k), "var c: p%d;" % k, "begin c := a; a := b; b := c end;"]
            if self.chain(k):
                t += ["function count%d(a: p%d): integer;" % (k, k),
                      "begin if a = nil then count%d := 0 else count%d := 1 + count%d(a^.%s) end;" % (k, k, k, self.chain(k))]
        t.append("begin")
        for v, vt in self.vars:
            t += ["  %s := nil;" % v] if vt[0] == "p" else ["  for j := 1 to 3 do %s[j] := nil;" % v]
        for v in self.svars:
            t.append("  %s := nil;" % v)
        return "\n".join(t + self.body + ["end."]) + "\n"


class CHECK(ProgCheck):
    id = "C07"
    rule = ("histories of new, dispose, links, copies, comparisons and list loops over random record types; a heap model predicts the "
            "output, and only live variables are used; non-trivial: at least 20 steps and 3 live variables at the end")
    quick, thorough = 1500, 40000
    optsets = [(), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O2")]

    def gen(self, src):
        c = Case()
        c.opts = src.pick(self.optsets)
        g = Gen(src)
        c.text = g.program()
        c.inp, c.fuzzy, c.rc = b"", False, 0
        c.expect = "".join(g.out).encode()
        c.steps, c.cells = g.steps, g.cells
        return c

    def nontrivial(self, c):
        return c.steps >= 20 and c.cells >= 3
