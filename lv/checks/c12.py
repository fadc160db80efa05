"""Histories of operations on text files, and what they leave on disk."""
import os

from .. import textio
from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare

# variables that denote a text file: source, whether a file of its own is declared for it
VARS = ["f", "g", "r.f", "a[1]", "a[2]", "r.t[5]", "q^.f"]
DECL = ["  f, g: text;", "  r: record i: integer; f: text; t: array [4..5] of text end;", "  a: array [1..2] of text;",
        "  q: ^rec;"]
NAMES = ["one.txt", "two.txt", "three.txt", "a.very.long.name.of.a.file.that.is.still.a.valid.name.txt", "five"]


class File:
    def __init__(self, var):
        self.var, self.name, self.mode, self.src = var, None, None, None


class History(textio.Prog):
    def __init__(self, s):
        super().__init__(s)
        self.disk = {}
        self.files = {}
        self.unnamed = 0
        self.ops = set()
        self.rec = 0

    def free(self, name, f):
        """no other variable has the file open"""
        return not any(x is not f and x.mode and x.name == name for x in self.files.values())

    def item(self):
        s = self.s
        k = s.n(8)
        w = s.pick([None, None, 1, 4, 9, 20])
        fmt = lambda t: t + (":%d" % w if w else "")
        if k == 0:
            v = s.pick([0, -1, 7, 100, 2147483647, s.n(10 ** 6)])
            return fmt(str(v)), b"%*d" % (w or 0, v)
        if k == 1:
            v = s.n(2)
            return fmt(("false", "true")[v]), (b"FALSE", b"TRUE")[v].rjust(w or 0)
        if k == 2:
            v = s.pick([0, 1, 127, 128, 200, 255, 10, 13, 26, 65, 32])
            return fmt("chr(%d)" % v), bytes([v]).rjust(w or 0)
        if k == 3:
            c = s.pick("abc XYZ")
            return fmt("'%s'" % c), c.encode().rjust(w or 0)
        if k == 4:
            v = s.n(2000) / 8 - 100
            return "%r:%d:3" % (v, w or 1), (b"%.3f" % v).rjust(w or 1)
        n = s.pick([2, 3, 8, 30, 200])
        t = "".join(s.pick("abc 123.-xyz") for _ in range(n))
        return "'%s'" % t, t.encode()

    def put_text(self, f, var, data):
        f.data += data
        if f.name:
            self.disk[f.name] = bytes(f.data)

    def write(self, f, var):
        s = self.s
        k = s.wpick([(6, "write"), (6, "writeln"), (2, "put"), (1, "loop"), (1, "proc"), (1, "page")])
        self.ops.add(k)
        if k in ("write", "writeln"):
            its = [self.item() for _ in range(s.pick([0, 1, 1, 2, 4]) if k == "writeln" else 1 + s.n(3))]
            self.e("%s(%s);" % (k, ", ".join([var] + [x[0] for x in its])))
            self.put_text(f, var, b"".join(x[1] for x in its) + (b"\n" if k == "writeln" else b""))
        elif k == "put":
            v = s.pick([65, 32, 10, 255, 200, 48])
            self.e("%s^ := chr(%d); put(%s);" % (var, v, var))
            self.put_text(f, var, bytes([v]))
        elif k == "loop":
            m, c = s.pick([3, 20, 300, 1100]), s.pick([1, 7, 20])
            self.e("for j := 1 to %d do begin write(%s, j, ' '); if j mod %d = 0 then writeln(%s) end;" % (m, var, c, var))
            self.put_text(f, var, b"".join(b"%d " % j + (b"\n" if j % c == 0 else b"") for j in range(1, m + 1)))
            self.steps += m
        elif k == "proc":
            v = s.n(1000)
            self.e("show(%s, %d);" % (var, v))
            self.put_text(f, var, b"<%d>\n" % v)
        else:
            # copy what is left of another file to this one
            o = [x for x in self.files.values() if x.mode == "r" and x is not f]
            if not o:
                return
            o = s.pick(o)
            self.ops.add("copy")
            self.e("copyrest(%s, %s);" % (o.var, var))
            src = o.src
            left = src.data[src.pos:]
            src.pos = len(src.data)
            if left and not left.endswith(b"\n"):
                left += b"\n"
            self.put_text(f, var, left)
            self.steps += len(left)

    def step(self, vs):
        s = self.s
        f = self.files[s.pick(vs)]
        var = f.var
        if f.mode == "r" and s.n(6):
            f.reads += 1
            self.read(f.src, var)
            return
        if f.mode == "w" and s.n(6):
            self.write(f, var)
            return
        k = s.wpick([(3, "assign"), (4, "rewrite"), (5, "reset"), (2, "append"), (2, "close")])
        if k == "assign":
            n = s.pick(NAMES)
            how = s.n(4)
            if how == 0:
                self.e("nm := '%s'; assign(%s, nm);" % (n, var))
            elif how == 1:
                i = s.n(len(n))
                self.e("nm := '%s'; assign(%s, nm + '%s');" % (n[:i], var, n[i:])) if 0 < i < len(n) - 1 else self.e("assign(%s, '%s');" % (var, n))
            else:
                self.e("assign(%s, '%s');" % (var, n))
            f.name, f.mode = n, None
            f.data = None
            self.ops.add(k)
        elif k == "rewrite":
            if f.name and not self.free(f.name, f):
                return
            self.e("rewrite(%s);" % var)
            f.mode, f.data = "w", bytearray()
            if f.name:
                self.disk[f.name] = b""
            self.ops.add(k if f.name else "unnamed")
        elif k == "append":
            if not f.name or f.name not in self.disk or not self.free(f.name, f):
                return
            self.e("append(%s);" % var)
            f.mode, f.data = "w", bytearray(self.disk[f.name])
            self.ops.add(k)
        elif k == "reset":
            if f.name:
                if f.name not in self.disk or any(x is not f and x.mode == "w" and x.name == f.name for x in self.files.values()):
                    return
                data = self.disk[f.name]
            else:
                if f.data is None:
                    return
                data = bytes(f.data)
            self.e("reset(%s);" % var)
            f.mode, f.src, f.reads = "r", textio.Source(data), 0
            self.ops.add(k)
        elif f.mode:
            self.e("close(%s);" % var)
            f.mode = None
            self.ops.add(k)

    def add(self, var):
        f = File(var)
        f.data, f.reads = None, 0
        self.files[var] = f
        return f


class CHECK(ProgCheck):
    id = "C12"
    rule = ("random histories of assign, rewrite, append, write, writeln, put, reset, read, readln, get, eof, eoln, close over several file variables (global, local, in "
            "records, arrays and dynamic variables, named and unnamed) and files that exist before; a model of the file system predicts the output and the bytes on disk; "
            "non-trivial: at least 15 steps, two files, and both writing and reading")
    quick, thorough = 2200, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0"), ("-Cr",)]

    def gen(self, s):
        c = Case()
        h = History(s)
        c.files = {}
        for n in NAMES:
            if s.n(3) == 0:
                c.files[n] = textio.text(s)
        h.disk = dict(c.files)
        vs = s.shuffle(list(VARS))[:1 + s.n(4)]
        for v in vs:
            f = h.add(v)
            if s.n(4):
                f.name = s.pick(NAMES)
                h.e("assign(%s, '%s');" % (v, f.name))
        local = s.bool()
        body = h.body
        procs = []
        for _ in range(s.pick([6, 15, 25, 40, 60])):
            if local and s.n(8) == 0:
                # a procedure with a file of its own
                main, h.body = h.body, []
                n = "local%d" % len(procs)
                h.add("lf")
                for _ in range(2 + s.n(8)):
                    h.step(["lf", "lf", s.pick(vs)])
                f = h.files.pop("lf")
                if f.mode:
                    h.e("close(lf);")
                times = 1
                procs.append(["procedure %s;" % n, "var lf: text;", "begin"] + h.body + ["end;"])
                h.body = main
                h.e(n + ";")
                h.ops.add("local")
            else:
                h.step(vs)
        for f in h.files.values():
            if f.mode and s.bool():
                h.e("close(%s);" % f.var)
        t = ["program p(input, output);", "type rec = record i: integer; f: text end;", "var"] + h.variables() + DECL + ["  nm: string[100];"] + h.NUMBER
        t += ["procedure show(var f: text; v: integer);", "begin writeln(f, '<', v, '>') end;",
              "procedure copyrest(var f, g: text);", "var c: char;",
              "begin while not eof(f) do begin while not eoln(f) do begin read(f, c); write(g, c) end; readln(f); writeln(g) end end;"]
        for p in procs:
            t += p
        t += ["begin", "  new(q);"] + body
        c.text = "\n".join(t + ["end."]) + "\n"
        c.inp, c.expect, c.rc, c.steps = b"", b"".join(h.out), 0, h.steps
        c.opts, c.fuzzy = s.pick(self.optsets), False
        c.ops, c.kinds, c.disk, c.nfiles = sorted(h.ops), sorted(h.kinds), dict(h.disk), len(vs)
        return c

    def sample_full(self, c):
        return c.text + "{ options: %s, files before: %r }\n" % (" ".join(c.opts), {k: v[:300] for k, v in c.files.items()})

    def key(self, c):
        return c.text + repr(c.files)

    def judge(self, c, wd, tool):
        for n, d in c.files.items():
            with open(os.path.join(wd, n), "wb") as f:
                f.write(d)
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)
        for n in NAMES:
            p = os.path.join(wd, n)
            got = open(p, "rb").read() if os.path.exists(p) else None
            want = c.disk.get(n)
            if got != want:
                raise Fail("wrong file contents", "opts %s, %s: expected %r, got %r" % (" ".join(c.opts), n, want and want[:400], got and got[:400]))

    def nontrivial(self, c):
        return c.steps >= 15 and c.nfiles >= 2 and len(c.kinds) >= 1 and len({"write", "writeln", "put", "loop"} & set(c.ops)) >= 1

    def features(self, c):
        return c.ops + c.kinds
