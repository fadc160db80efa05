"""Command line, exit status, and random numbers."""
import os

from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare

INV = pow(1103515245, -1, 2 ** 32)


def edge_seed(s):
    """a seed for which a linear congruential generator of the usual constants makes an extreme value after a few steps"""
    v = s.pick([2 ** 32 - 1, 0, 2 ** 31, 2 ** 31 - 1])
    for _ in range(1 + s.n(4)):
        v = (v - 12345) * INV % 2 ** 32
    return v


def seed(s):
    return s.pick([edge_seed, lambda s: s.n(2 ** 31), lambda s: s.n(10), lambda s: -s.n(1000), lambda s: s.n(2 ** 62), lambda s: 4711])(s)


def show(v):
    return str(v)


class CHECK(ProgCheck):
    id = "C28"
    rule = ("three kinds of program: (args) printing paramcount and paramstr(0..n+2) for random argument lists, with empty, long and non-ASCII arguments; (halt) halting "
            "with a random status in a random place of nested statements, procedures and functions with text and typed files open; (random) random draws after randomize "
            "with random and extreme seeds, checked for range, for being the same again after the same seed whatever came before, for differing between seeds, and for "
            "being the same under other options; non-trivial: at least two arguments, a nested halt, or twenty draws")
    quick, thorough = 2000, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0"), ("-Cr",)]

    def gen(self, s):
        c = Case()
        c.kind = s.pick(["args", "halt", "random"])
        c.args, c.disk, c.inp, c.rc, c.steps, c.fuzzy, c.twin = [], {}, b"", 0, 0, False, None
        c.opts = s.pick(self.optsets)
        getattr(self, c.kind)(s, c)
        return c

    def args(self, s, c):
        for _ in range(s.pick([0, 1, 2, 3, 5, 9, 40])):
            k = s.n(6)
            if k == 0:
                a = b""
            elif k == 1:
                a = bytes(33 + s.n(94) for _ in range(1 + s.n(8)))
            elif k == 2:
                a = bytes(1 + s.n(255) for _ in range(1 + s.n(20)))
            elif k == 3:
                a = bytes([97 + s.n(26)]) * s.pick([100, 127, 128, 254, 255])
            elif k == 4:
                a = s.pick([b"-h", b"--help", b"-O2", b" ", b"a b", b"*", b"'x'", b'"', b"\n"])
            else:
                a = b"%d" % (s.n(2000) - 1000)
            c.args.append(a)
        n = len(c.args)
        idx = s.pick(["i", "l", "b"])
        held = s.pick(["s", "r.s", "a[2]"])
        body = ["writeln(paramcount);"]
        out = [b"%d\n" % n]
        lo, hi = (0, n + 2) if idx == "b" else (-1, n + 2)
        how = s.pick(["for", "down", "direct"])
        ps = list(range(lo, hi + 1))
        get = "%s := paramstr(%%s); writeln(length(%s), ' [', %s, ']')" % (held, held, held)
        if how == "direct":
            for i in ps:
                body.append(get % i + ";")
        elif how == "down":
            ps.reverse()
            body.append("for %s := %d downto %d do begin %s end;" % (idx, hi, lo, get % idx))
        else:
            body.append("for %s := %d to %d do begin %s end;" % (idx, lo, hi, get % idx))
        a = {0: b"./p", **{i + 1: v for i, v in enumerate(c.args)}}
        for i in ps:
            v = a.get(i, b"")
            out.append(b"%d [%s]\n" % (len(v), v))
        if s.bool() and n:
            i = 1 + s.n(n)
            body.append("writeln(copy(paramstr(%d) + 'xyz', 1, 2));" % i) if len(a[i]) < 200 else None
            out.append((a[i] + b"xyz")[:2] + b"\n") if len(a[i]) < 200 else None
        c.text = "program p(output);\nvar i: integer; l: longint; b: 0..100; s: string; r: record c: char; s: string end; a: array [1..3] of string[255];\nbegin\n  %s\nend.\n" % "\n  ".join(body)
        c.expect, c.steps = b"".join(out), n

    def halt(self, s, c):
        status = s.pick([0, 1, 2, 127, 128, 255, s.n(256)])
        c.rc = status
        src = str(status)
        pre, k = "", s.n(5)
        if k == 0 and status == 0:
            call = "halt"
        elif k == 1:
            pre, call = "i := %s;" % src, "halt(i)"
        elif k == 2:
            pre, call = "l := %s;" % src, "halt(l)"
        elif k == 3:
            pre, call = "b := %s;" % src, "halt(b)"
        elif k == 4:
            pre, call = "i := %s - 3;" % src, "halt(i + 3)"
        else:
            call = "halt(%s)" % src
        out, procs, n = [], [], 0
        files = s.n(3)
        body = []
        if files == 1:
            body.append("assign(t, 'out.txt'); rewrite(t);")
        elif files == 2:
            body.append("assign(f, 'out.dat'); rewrite(f);")
        text = []

        def say():
            v = s.n(10 ** 6)
            if files and s.bool():
                if files == 1:
                    nl = s.n(3)
                    body.append("write%s(t, %d);" % ("ln" if nl else "", v))
                    text.append("%d%s" % (v, "\n" if nl else ""))
                else:
                    body.append("write(f, %d);" % v)
                    text.append(v.to_bytes(4, "little"))
            else:
                nl = s.n(3)
                body.append("write%s(%d);" % ("ln" if nl else "", v))
                out.append("%d%s" % (v, "\n" if nl else ""))
        for _ in range(s.n(5)):
            say()
        if s.n(12) == 0:
            for _ in range(s.pick([500, 3000])):
                body.append("")
            m = s.pick([500, 5000])
            body.append("for i := 1 to %d do writeln(i);" % m)
            out += ["%d\n" % i for i in range(1, m + 1)]
        if pre:
            body.append(pre)
        st = call
        depth = s.n(6)
        for j in range(depth):
            k = s.pick(["if", "else", "while", "for", "repeat", "case", "with", "proc", "func", "begin", "rec"])
            bad = "writeln('BAD%d')" % j
            if k == "if":
                st = "if true then begin %s; %s end" % (st, bad)
            elif k == "else":
                st = "if false then %s else %s" % (bad, st)
            elif k == "while":
                st = "while true do begin %s end" % st
            elif k == "for":
                st = "for k%d := 1 to 3 do begin %s; %s end" % (j, st, bad)
            elif k == "repeat":
                st = "repeat %s; %s until false" % (st, bad)
            elif k == "case":
                st = "case 2 of 1: %s; 2: %s end" % (bad, st)
            elif k == "with":
                st = "with r do begin %s; %s end" % (st, bad)
            elif k == "proc":
                procs.append("procedure q%d; var %s begin %s; %s end;" % (j, self.loops(), st, bad))
                st = "q%d" % j
            elif k == "rec":
                d = s.pick([1, 3, 50])
                procs.append("procedure q%d(n: integer); var %s begin if n > 0 then begin q%d(n - 1); %s end else begin %s end; %s end;" % (j, self.loops(), j, bad, st, bad))
                st = "q%d(%d)" % (j, d)
            elif k == "func":
                procs.append("function g%d: integer; var %s begin g%d := 1; %s; %s end;" % (j, self.loops(), j, st, bad))
                st = s.pick(["i := 2 + g%d", "if g%d > 0 then writeln('BADF')", "a[g%d] := 3", "while g%d = 1 do writeln('BADF')"]) % j
            else:
                st = "begin %s; %s end" % (st, bad)
        body += [st + ";", "writeln('BAD')"]
        if files:
            c.disk = {"out.txt": "".join(text).encode()} if files == 1 else {"out.dat": b"".join(text)}
        c.text = ("program p(output);\nvar i: integer; l: longint; b: 0..255; t: text; f: file of integer; r: record x: integer end; a: array [1..3] of integer;\n  %s\n%s\nbegin\n  %s\nend.\n"
                  % (self.loops(), "\n".join(procs), "\n  ".join(body)))
        c.expect, c.steps = "".join(out).encode(), depth

    def loops(self):
        return " ".join("k%d: integer;" % j for j in range(6))

    def random(self, s, c):
        n = s.pick([5, 20, 60])
        sd, other = seed(s), seed(s)
        while sd % 2 ** 32 == other % 2 ** 32:
            other += 1
        draws = []
        for _ in range(1 + s.n(4)):
            k = s.n(4)
            if k == 0:
                draws.append(("x[i] := random;", "(x[i] < 0) or (x[i] >= 1)"))
            else:
                m = s.pick([1, 2, 3, 10, 100, 256, 65536, 2 ** 31 - 1, 1 + s.n(10 ** 6)])
                if s.n(3) == 0:
                    src = str(m)
                    if m < 2 ** 31 - 1 and s.bool():
                        src = "%d + 1" % (m - 1)
                    draws.append(("y[i] := random(%s);" % src, "(y[i] < 0) or (y[i] >= %d)" % m))
                elif k == 2:
                    draws.append(("m := %d; y[i] := random(m);" % m, "(y[i] < 0) or (y[i] >= %d)" % m))
                else:
                    m = s.pick([m, m, 2 ** 32, 2 ** 40 + 3, 2 ** 62])
                    draws.append(("l := %d; z[i] := random(l);" % m, "(z[i] < 0) or (z[i] >= %d)" % m))
        t = ["program p(output);", "const n = %d;" % n, "type ra = array [1..n] of real; ia = array [1..n] of integer; la = array [1..n] of longint;",
             "var x, u: ra; y, v: ia; z, w: la; i, m, bad, same: integer; l: longint; seen: set of 0..20;",
             "procedure draw;", "begin", "  for i := 1 to n do", "  begin", "    x[i] := 0; y[i] := 0; z[i] := 0;"]
        for a, b in draws:
            t += ["    " + a, "    if %s then bad := bad + 1;" % b]
        real = any(a[0] == "x" for a, _ in draws)
        t += ["  end", "end;", "begin", "  bad := 0;"]
        r = lambda v: s.pick(["randomize(%d);", "l := %d; randomize(l);"] + (["m := %d; randomize(m);"] if abs(v) < 2 ** 31 else [])) % v
        if s.bool():
            t.append("  for i := 1 to %d do m := random(10);" % s.n(9))
        t += ["  " + r(sd), "  draw;", "  u := x; v := y; w := z;", "  for i := 1 to n do writeln(x[i]:24, ' ', y[i], ' ', z[i]);"]
        t += ["  " + r(other), "  draw;"]
        if real and n > 5:
            t += ["  same := 0;", "  for i := 1 to n do if x[i] = u[i] then same := same + 1;", "  writeln('differ ', same < n);"]
        t += ["  " + r(sd), "  draw;", "  same := 0;", "  for i := 1 to n do if (x[i] = u[i]) and (y[i] = v[i]) and (z[i] = w[i]) then same := same + 1;",
              "  writeln('same ', same);", "  writeln('bad ', bad);"]
        m = 2 + s.n(5)
        t += ["  seen := [];", "  for i := 1 to 600 do seen := seen + [random(%d)];" % m, "  writeln('seen ', card(seen));"]
        c.text = "\n".join(t + ["end."]) + "\n"
        c.twin = s.pick([o for o in self.optsets if o != c.opts])
        c.tail = (["differ TRUE"] if real and n > 5 else []) + ["same %d" % n, "bad 0", "seen %d" % m]
        c.steps = n * len(draws)

    def judge(self, c, wd, tool):
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp, c.args)
        if c.kind == "random":
            c.expect = x.out if x else b""
            compare(c, r, x)
            tail = x.out.decode("latin1").split("\n")[-1 - len(c.tail):-1]
            if tail != c.tail:
                raise Fail("wrong random numbers", "opts %s: expected %s, got %s" % (" ".join(c.opts), c.tail, tail))
            c2 = Case()
            c2.__dict__.update(c.__dict__)
            c2.opts = c.twin
            r2, x2 = tool.build_run(wd, c.text, "p", c.twin, c.inp)
            compare(c2, r2, x2)
            return
        compare(c, r, x)
        for n, want in c.disk.items():
            p = os.path.join(wd, n)
            got = open(p, "rb").read() if os.path.exists(p) else None
            if got != want:
                raise Fail("wrong file contents", "opts %s, %s: expected %r, got %r" % (" ".join(c.opts), n, want[:200], got and got[:200]))

    def nontrivial(self, c):
        return c.steps >= (20 if c.kind == "random" else 2)

    def sample_full(self, c):
        return c.text + "{ options: %s %s }\n{ arguments: %r }\n" % (" ".join(c.opts), " ".join(c.twin or ()), c.args)

    def features(self, c):
        return [c.kind]
