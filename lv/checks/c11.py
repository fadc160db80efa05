"""Programs that read generated text from standard input or a file."""
from .. import textio
from ..progcheck import Case, ProgCheck, compare


class CHECK(ProgCheck):
    id = "C11"
    rule = ("random text of numbers, words, blanks, control characters and lines, some around the size of the read buffer, and a program of read, readln, get, eof, eoln "
            "and buffer variable operations chosen to be defined for it; a character-level model of the text predicts the output; "
            "non-trivial: at least 8 statements and three kinds of variables read")
    quick, thorough = 2200, 40000
    optsets = [(), (), ("-O0",), ("-O2",), ("-m32",), ("-m32", "-O0"), ("-Cr",)]

    def gen(self, s):
        c = Case()
        data = textio.text(s)
        f = s.pick(["", "", "input", "f"])
        p = textio.Prog(s)
        src = textio.Source(data)
        for _ in range(2 + s.n(30)):
            if not p.read(src, f) and s.bool():
                break
        t = ["program p(input, output);", "var"] + p.variables() + ["  f: text;"] + p.NUMBER + ["begin"]
        if f == "f":
            t.append("  assign(f, 'data.txt'); reset(f);")
        t += p.body
        if f == "f":
            t.append("  close(f)")
        c.text = "\n".join(t + ["end."]) + "\n"
        c.inp = b"" if f == "f" else data
        c.files = {"data.txt": data} if f == "f" else {}
        c.expect, c.rc, c.steps = b"".join(p.out), 0, p.steps
        c.opts, c.fuzzy = s.pick(self.optsets), False
        c.kinds = sorted(p.kinds)
        c.data = data
        return c

    def sample_full(self, c):
        return c.text + "{ options: %s, %s: %r }\n" % (" ".join(c.opts), "file" if c.files else "input", c.data[:2000])

    def key(self, c):
        return c.text + repr(c.data)

    def judge(self, c, wd, tool):
        for n, d in c.files.items():
            with open(wd + "/" + n, "wb") as f:
                f.write(d)
        r, x = tool.build_run(wd, c.text, "p", c.opts, c.inp)
        compare(c, r, x)

    def nontrivial(self, c):
        return c.steps >= 8 and len(c.kinds) >= 3

    def features(self, c):
        return c.kinds + (["file"] if c.files else ["input"]) + (["long"] if len(c.data) > 1000 else [])
