"""The same program, spelled otherwise."""
import re

from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare
from .c16 import options, whole_language
from .c25 import damage

TOK = re.compile(r"(?P<s>'(?:[^'\n]|'')*')|(?P<n>[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?|\$[0-9A-Fa-f]+|[0-9]+\#[0-9A-Za-z]+)"
                 r"|(?P<w>[A-Za-z_][A-Za-z_0-9]*)|(?P<b>\s+)|(?P<p>:=|\.\.|<=|>=|<>|><|\*\*|.)", re.S)


def tokens(text):
    """[(kind, text, blank before it)]"""
    r, blank, i = [], False, 0
    while i < len(text):
        # 1..5 is three tokens
        m = re.compile(r"[0-9]+(?=\.\.)").match(text, i) or re.compile(r"[0-9]+\#[0-9A-Za-z]+").match(text, i)
        k = "n" if m else None
        if not m:
            m = TOK.match(text, i)
            k = m.lastgroup
        if k == "b":
            blank = True
        else:
            r.append((k, m.group(), blank))
            blank = False
        i = m.end()
    return r


def enum_names(toks):
    """indexes of the identifiers that declare enumeration values, whose spelling is what write prints"""
    r, i = set(), 0
    while i < len(toks):
        if toks[i][1] == "(" and i and (toks[i - 1][1] in ("=", ":", "..", ",", "[") or toks[i - 1][1].lower() in ("of", "packed")):
            j, names = i + 1, []
            while j + 1 < len(toks) and toks[j][0] == "w" and toks[j + 1][1] in (",", ")"):
                names.append(j)
                if toks[j + 1][1] == ")":
                    r.update(names)
                    break
                j += 2
        i += 1
    return r


JUNK = ["'", '"', "''", "begin", "end.", ";", "x := 1", "(", ")", "*", "(.", "^", "\xe9", "\xff", "\x80", "\t", "  ", "/", ".", "1e", "#", "&", "\\"]


def comment(s):
    k = s.pick(["{", "(*", "//"])
    body = [s.pick(JUNK + {"{": ["(*", "//", "\n", "{"], "(*": ["{", "//", "\n", "(*", "**"], "//": ["{", "(*", "//"]}[k])
            for _ in range(s.n(5))]
    t = "".join(body).replace("}", "").replace("*)", "")
    if k == "{":
        return "{" + t.lstrip("$") + "}"
    if k == "(*":
        t = "(*" + t + s.pick(["", "*", "**", " *"]) + "*)"
        # "(*)" opens a comment and does not end it
        return t if t.find("*)", 2) == len(t) - 2 else "(* *)"
    return "//" + t + "\n"


def separator(s, need):
    r = []
    n = s.wpick([(3, 0), (6, 1), (2, 2), (1, 3)])
    if need and n == 0:
        n = 1
    for _ in range(n):
        r.append(s.wpick([(6, " "), (2, "\n"), (1, "\r\n"), (1, "\t"), (1, "\f"), (1, "   "), (1, "\n\n"), (1, "\v"), (3, None)]))
        if r[-1] is None:
            r[-1] = comment(s)
    return "".join(r)


def case(s, w):
    k = s.n(5)
    if k == 0:
        return w
    if k == 1:
        return w.upper()
    if k == 2:
        return w.lower()
    if k == 3:
        return w.capitalize()
    return "".join(c.upper() if s.n(2) else c.lower() for c in w)


def respell(s, text):
    toks = tokens(text)
    keep = enum_names(toks)
    out = [separator(s, False)]
    calm = s.n(3) == 0          # layout only where there was some already
    for i, (k, t, blank) in enumerate(toks):
        if i:
            p = toks[i - 1]
            need = (blank and (k != "p" or p[0] == "p")) or (k in "nw" and p[0] in "nw") or (k == p[0] == "s")
            if need or not calm or blank:
                b = separator(s, need)
                out.append(" " + b if p[1] == "/" and b[:1] == "/" else b)
        if k == "w" and i not in keep:
            t = case(s, t)
        elif k == "n" and not t[0] == "$" and "#" not in t:
            t = t.replace("e", s.pick(["e", "E"]))
        elif k == "s" and s.n(3) == 0:
            t = '"' + t[1:-1].replace("''", "'").replace('"', '""') + '"'
        elif t == "[" and s.n(3) == 0:
            t = "(."
        elif t == "]" and s.n(3) == 0:
            t = ".)"
        elif t == "^" and s.n(3) == 0:
            t = "@"
        out.append(t)
    out.append(separator(s, False))
    return "".join(out)


class CHECK(ProgCheck):
    id = "C20"
    rule = ("programs of the whole language, re-spelled token by token: case of letters, white space of every kind, comments of all "
            "three forms holding quotes, openers and bytes beyond ASCII, (. .) for brackets, @ for ^, double quotes; the run must be "
            "as the reference predicts; a fifth of the programs is damaged first, and the compiler must accept both spellings or neither; "
            "non-trivial: at least 30 evaluation steps and 10 bytes of output, or a damaged program")
    quick, thorough = 1500, 30000

    def gen(self, src):
        c = Case()
        c.opts = options(src) if src.n(2) else ["-O0"]
        c.fuzzy = True
        if whole_language(src, c) is None:
            return None
        c.bad = src.n(5) == 0
        if c.bad:
            c.text = damage(src, c.text)
            t = re.sub(r"'(?:[^'\n]|'')*'", "", c.text)
            if "'" in t or '"' in t or "{" in t or "(*" in t or "//" in t or "(." in t or ".)" in t or re.search(r"\w\d*'|\d[A-Za-z_]|[#$&@]", t):
                return None
        c.first = c.text
        c.text = respell(src, c.text)
        return c

    def nontrivial(self, c):
        return c.bad or super().nontrivial(c)

    def judge(self, c, wd, tool):
        if not c.bad:
            return super().judge(c, wd, tool)
        rc = []
        for n, t in (("a", c.first), ("b", c.text)):
            with open("%s/%s.pas" % (wd, n), "wb") as f:
                f.write(t.encode("latin1"))
            r = tool.compile(wd, n, c.opts)
            if r.timeout:
                raise Fail("compiler hangs", str(r))
            rc.append(r.rc)
        if rc[0] != rc[1]:
            raise Fail("spelling decides whether a program is accepted", "status %s for\n%s\nand %s for the other spelling" % (rc[0], c.first, rc[1]))

    def features(self, c):
        return ["damaged" if c.bad else "valid", c.family]
