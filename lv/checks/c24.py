"""Programs whose declarations share as few names as the rules of scope allow."""
import re

from .. import pas
from ..gen import G
from ..harness import Fail
from ..progcheck import Case, ProgCheck, compare
from .c16 import options
from .c20 import TOK

# words that cannot be redefined
KEYWORDS = set("""absolute and and_then array asm begin bindable case class const div do downto else end except export exports external file
finalization for forward function goto if implementation import in inherited initialization inline interface label mod module nil not object of
operator or or_else otherwise override packed pow private procedure program property protected public published qualified raise record repeat
restricted set shl shr sizeof static string then threadvar to try type unit until uses value var view virtual while with write writeln writestr read
readln readstr xor only destructor constructor library on finally default string""".split())
PREDEFINED = ["integer", "real", "boolean", "char", "text", "abs", "sqr", "odd", "ord", "chr", "succ", "pred", "sin", "ln", "round", "trunc", "pi", "maxint",
              "true", "new", "dispose", "length", "copy", "min", "max", "card", "halt", "eof", "longint", "pack", "index", "maxchar"]
POOL = list("abcdx") + ["main", "exit", "puts", "self", "result", "malloc", "this", "val"]


class Level:
    def __init__(self, up):
        self.up, self.names = up, set()


def scan(text):
    """text with marks -> (tokens, {index: name} of identifiers that may be renamed, levels, uses: {name: set of level chains}, records)"""
    toks = []
    for m in re.finditer(r"\{[^}]*\}|" + TOK.pattern, text, re.S):
        toks.append(m.group())
    low = [t.lower() for t in toks]
    word = [bool(re.match(r"[A-Za-z_]", t)) for t in toks]
    pre, main = Level(None), None
    main = Level(pre)
    levels = [pre, main]
    uses, decl, records, where, used = {}, {}, [], {}, set()
    pos = [0]

    def skip():
        while pos[0] < len(toks) and toks[pos[0]].isspace():
            pos[0] += 1

    def declare(name, level):
        if name not in decl:
            decl[name] = level
            level.names.add(name)

    def use(i, chain):
        n = low[i]
        if n in KEYWORDS:
            return
        j = i - 1
        while j >= 0 and toks[j].isspace():
            j -= 1
        where[i] = n
        if toks[j] == ".":
            # a field: nothing else can be meant
            uses.setdefault(n, set())
            return
        used.add(i)
        uses.setdefault(n, set()).add(tuple(chain))

    def heading(level, outer):
        """at the word procedure or function"""
        pos[0] += 1
        skip()
        name = low[pos[0]]
        declare(name, outer)
        where[pos[0]] = name
        pos[0] += 1
        child = kids.setdefault((name, id(outer)), Level(outer))
        if child not in levels:
            levels.append(child)
        depth = 0
        while True:
            skip()
            t = low[pos[0]]
            if t == "(":
                depth += 1
            elif t == ")":
                depth -= 1
            elif t == ";" and depth == 0:
                pos[0] += 1
                return child
            elif t in ("procedure", "function"):
                # a procedural parameter, whose own parameters are names of no use
                pos[0] += 1
                skip()
                declare(low[pos[0]], child)
                where[pos[0]] = low[pos[0]]
                pos[0] += 1
                skip()
                if low[pos[0]] == "(":
                    inner = Level(child)
                    levels.append(inner)
                    d = 0
                    names = True
                    while True:
                        t = low[pos[0]]
                        if t == "(":
                            d += 1
                        elif t == ")":
                            d -= 1
                        elif t == ":":
                            names = False
                        elif t == ";":
                            names = True
                        elif word[pos[0]] and t not in KEYWORDS:
                            if names:
                                declare(t, inner)
                                where[pos[0]] = t
                            else:
                                use(pos[0], [inner])
                                use(pos[0], [child])
                                use(pos[0], [outer])
                        pos[0] += 1
                        if d == 0:
                            break
                continue
            elif word[pos[0]] and t not in KEYWORDS:
                k = pos[0] + 1
                while toks[k].isspace():
                    k += 1
                if depth and (low[k] in (":", ",", "..")) and prev() in ("(", ";", "var", ",", "[", ".."):
                    declare(t, child)
                    where[pos[0]] = t
                elif depth and low[k] in (":", "]") and prev() == "..":
                    declare(t, child)
                    where[pos[0]] = t
                else:
                    use(pos[0], [child])
                    use(pos[0], [outer])
            pos[0] += 1

    def prev():
        k = pos[0] - 1
        while toks[k].isspace():
            k -= 1
        return low[k]

    kids = {}
    path = {}

    def chain_of(level):
        c = []
        while level is not None:
            c.append(level)
            level = level.up
        return c

    def block(level):
        # declarations
        section = None
        rec = []            # the names of the records being read
        par = 0
        while True:
            skip()
            i = pos[0]
            t = low[i]
            if t in ("procedure", "function"):
                child = heading(level, level)
                skip()
                if low[pos[0]] == "forward":
                    pos[0] += 1
                    skip()
                    pos[0] += 1
                else:
                    block(child)
                    skip()
                    pos[0] += 1   # ;
                continue
            if t == "begin":
                break
            if t in ("var", "const", "type", "label"):
                section = t
            elif t == "record":
                rec.append([])
            elif t == "end":
                records.append(rec.pop())
            elif t in "()":
                par += 1 if t == "(" else -1
            elif word[i] and t not in KEYWORDS:
                k = i + 1
                while toks[k].isspace():
                    k += 1
                p = prev()
                if rec:
                    # "case tag: type of" and the fields
                    if low[k] in (":",) and (p in ("record", ";", "(", "case", ",") and not isenum(t) and not label(k)) or (low[k] == "," and p in ("record", ";", "(") and fieldlist(i)):
                        rec[-1].append(t)
                        where[i] = t
                        uses.setdefault(t, set())
                        fields.add(t)
                    else:
                        use(i, [level])
                elif section == "var" and low[k] in (":", ",") and p in ("var", ";", ",") and par == 0:
                    declare(t, level)
                    where[i] = t
                elif section in ("type", "const") and low[k] == "=" and p in (section, ";"):
                    declare(t, level)
                    where[i] = t
                elif section in ("type", "var") and par and low[k] in (",", ")"):
                    declare(t, level)     # an enumeration value
                    enums.add(t)
                    where[i] = t
                else:
                    use(i, [level])
            pos[0] += 1
        # the statements
        opened = []
        depth = 0
        while True:
            skip()
            i = pos[0]
            t = low[i]
            if t.startswith("{w"):
                w = Level(None)
                w.names = set(toks[i][2:-1].lower().split())
                opened.append(w)
                levels.append(w)
            elif t.startswith("{/w"):
                opened.pop()
            elif t in ("begin", "case"):
                depth += 1
            elif t == "end":
                depth -= 1
                if depth == 0:
                    pos[0] += 1
                    return
            elif word[i]:
                use(i, opened[::-1] + [level])
            pos[0] += 1

    fields, enums = set(), set()

    def isenum(t):
        return t in enums

    def label(k):
        """the colon at k follows a case label of a variant: ( comes next"""
        k += 1
        while toks[k].isspace():
            k += 1
        return toks[k] == "("

    def fieldlist(i):
        """a list of fields, not of labels: the colon after it has no ( next"""
        while toks[i] != ":":
            i += 1
        return not label(i)

    while low[pos[0]] != ";":
        pos[0] += 1
    pos[0] += 1
    main.names |= {"input", "output"}
    block(main)
    for n in list(uses):
        if n not in decl and n not in fields:
            pre.names.add(n)
            decl[n] = pre
    # complete the chains
    full = {}
    for n, cs in uses.items():
        full[n] = {tuple(x for x in list(c[:-1]) + chain_of(c[-1])) for c in cs}
    return toks, where, used, levels, full, records, decl, fields, enums, pre, main


def resolve(chain, new, ren):
    for l in chain:
        for n in l.names:
            if ren.get(n, n) == new:
                return n
    return None


class Renamer:
    def __init__(self, s, text):
        self.s = s
        (self.toks, self.where, self.used, self.levels, self.uses, self.records, self.decl, self.fields, self.enums, self.pre, self.main) = scan(text)
        self.ren = {}

    def ok(self, n, new):
        ren = dict(self.ren)
        ren[n] = new
        for l in self.levels:
            if n in l.names:
                for m in l.names:
                    if m != n and ren.get(m, m) == new:
                        return False
        for r in self.records:
            if n in r and any(m != n and ren.get(m, m) == new for m in r):
                return False
        # every use of any name that looks like the new one finds what it did
        same = [m for m in self.uses if ren.get(m, m) == new]
        for m in same:
            for ch in self.uses[m]:
                if resolve(ch, new, ren) != m:
                    return False
        return True

    def run(self):
        s = self.s
        names = [n for n in list(self.decl) + sorted(self.fields)
                 if self.decl.get(n) is not self.pre and n not in self.enums and n not in ("input", "output")]
        names = s.shuffle(names)
        pool = s.shuffle(POOL)[:3 + s.n(5)] + s.shuffle(PREDEFINED)[:s.n(8)]
        if names:
            pool += [s.pick(names) for _ in range(3)]
        hits = 0
        for n in names:
            for _ in range(3):
                new = s.pick(pool)
                if self.decl.get(n) is not self.main and s.n(12) == 0:
                    new = s.pick(["input", "output"])
                if new != n and self.ok(n, new):
                    self.ren[n] = new
                    hits += 1
                    break
        self.shared = hits - len(set(self.ren.values()))
        return "".join(self.ren.get(self.where[i], t) if i in self.where else ("" if t[:1] == "{" else t)
                       for i, t in enumerate(self.toks))

    def invisible(self):
        """a program using one name where it cannot be seen, or None"""
        s = self.s
        places = []
        for i in sorted(self.used):
            if self.uses[self.where[i]]:
                places.append(i)
        if not places:
            return None
        i = s.pick(places)
        n = self.where[i]
        seen = set()
        for ch in self.uses[n]:
            for l in ch:
                seen |= l.names
        cand = [m for m in list(self.decl) + sorted(self.fields) if m not in seen and self.decl.get(m) is not self.pre]
        if not cand:
            return None
        m = s.pick(sorted(cand))
        t = list(self.toks)
        t[i] = m
        self.bad = m
        return "".join(x if x[:1] != "{" else "" for x in t)


class CHECK(ProgCheck):
    id = "C24"
    rule = ("generated programs with nested procedures, parameters, records and with statements, whose declarations are then renamed to share a few names, among "
            "them predefined ones, as far as the rules of scope allow; the run is compared with the reference run of the program with unique names; "
            "in a third of the cases one use is replaced by a name that is not visible there, and the compiler must reject it; "
            "non-trivial: at least 5 declarations share a name with another one")
    quick, thorough = 1300, 25000

    def gen(self, src):
        c = Case()
        c.inp, c.files = b"", {}
        c.opts = options(src) if src.n(3) == 0 else ["-O0"]
        c.fuzzy = True
        f = dict(stmts=16, procs=5, nest=3)
        for x in ("real", "lint", "sets", "strs", "conf", "procparams", "bitops"):
            if src.n(2) == 0:
                f[x] = 0
        p = G(src, **f).program()
        cx = pas.execute(p, b"", fuzzy=True)
        if cx is None:
            return None
        pas.With.marks = True
        try:
            marked = p.src()
        finally:
            pas.With.marks = False
        c.expect, c.rc, c.steps = b"".join(cx.out), cx.rc, cx.steps
        r = Renamer(src, marked)
        c.orig = p.src()
        c.bad = None
        if src.n(3) == 0:
            c.bad = r.invisible()
            c.badname = getattr(r, "bad", None)
        c.text = r.run()
        c.shared = r.shared
        return c

    def nontrivial(self, c):
        return c.shared >= 5

    def judge(self, c, wd, tool):
        super().judge(c, wd, tool)
        if c.bad is not None:
            with open(wd + "/b.pas", "wb") as f:
                f.write(c.bad.encode("latin1"))
            r = tool.compile(wd, "b", c.opts)
            if r.timeout or r.rc < 0 or r.rc >= 128:
                raise Fail("compiler crash", "for a use of %s out of its scope in\n%s\n%s" % (c.badname, c.bad, r))
            if r.rc == 0:
                raise Fail("name used out of its scope", "%s in\n%s" % (c.badname, c.bad))

    def features(self, c):
        return ["rejected" if c.bad else "accepted"]
