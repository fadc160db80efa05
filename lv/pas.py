"""A model of the Pascal dialect lacsap compiles: typed syntax trees that can print themselves as source and
that can be executed. Executing is the reference semantics (ISO 7185, with the extensions lacsap documents by
accepting them); anything the language leaves undefined raises UB, which carries a repair."""
import math

MAXINT = 2**31 - 1
MININT = -2**31
MAXL = 2**63 - 1
MINL = -2**63


class UB(Exception):
    def __init__(self, why, fix=None):
        super().__init__(why)
        self.fix = fix


class Steps(Exception):
    pass


class GotoEx(Exception):
    def __init__(self, label):
        self.label = label


class HaltEx(Exception):
    def __init__(self, code):
        self.code = code


# ---------------------------------------------------------------- types
class T:
    name = None
    ordinal = False
    simple = True

    def ref(self):
        return self.name

    @property
    def base(self):
        return self


class TInt(T):
    ordinal = True
    name = "integer"
    lo, hi = MININT, MAXINT


class TLInt(T):
    name = "longint"
    ordinal = True
    lo, hi = MINL, MAXL


class TBool(T):
    ordinal = True
    name = "boolean"
    lo, hi = 0, 1


class TChar(T):
    ordinal = True
    name = "char"
    lo, hi = 0, 255


class TReal(T):
    name = "real"


INT, LINT, BOOL, CHAR, REAL = TInt(), TLInt(), TBool(), TChar(), TReal()


class Enum(T):
    ordinal = True

    def __init__(self, name, names):
        self.name, self.names = name, names
        self.lo, self.hi = 0, len(names) - 1

    def decl(self):
        return "(" + ", ".join(self.names) + ")"


class Sub(T):
    ordinal = True

    def __init__(self, name, of, lo, hi):
        self.name, self.of, self.lo, self.hi = name, of, lo, hi

    @property
    def base(self):
        return self.of

    def decl(self):
        return lit_src(self.of, self.lo) + ".." + lit_src(self.of, self.hi)


class Str(T):
    def __init__(self, n, name=None):
        self.n = n
        self.name = name or ("string" if n == 255 else "string[%d]" % n)

    def decl(self):
        return "string[%d]" % self.n


class Arr(T):
    simple = False

    def __init__(self, name, idx, elem, packed=False):
        self.name, self.idx, self.elem, self.packed = name, idx, elem, packed

    def dims(self):
        return [(t.lo, t.hi) for t in self.idx]

    def decl(self):
        d = []
        for t in self.idx:
            if t.name:
                d.append(t.name)
            else:
                d.append(t.decl())
        return "%sarray [%s] of %s" % ("packed " if self.packed else "", ", ".join(d), self.elem.ref())


def is_chararr(t):
    return isinstance(t, Arr) and len(t.idx) == 1 and t.elem is CHAR


class Rec(T):
    simple = False

    def __init__(self, name, fields, variant=None):
        """variant: (tagname, tagtype, [(labels, [(fname, type)])])"""
        self.name, self.fields, self.variant = name, fields, variant

    def field_names(self):
        n = [f for f, _ in self.fields]
        if self.variant:
            n += [self.variant[0]] + [f for _, fs in self.variant[2] for f, _ in fs]
        return n

    def decl(self):
        s = "record "
        s += "; ".join("%s: %s" % (n, t.ref()) for n, t in self.fields)
        if self.variant:
            tag, tt, alts = self.variant
            if self.fields:
                s += "; "
            s += "case %s: %s of " % (tag, tt.ref())
            s += "; ".join("%s: (%s)" % (", ".join(lit_src(tt, l) for l in labs),
                                          "; ".join("%s: %s" % f for f in [(n, t.ref()) for n, t in fs]))
                           for labs, fs in alts)
        return s + " end"


class SetT(T):
    simple = True

    def __init__(self, name, of):
        self.name, self.of = name, of

    def decl(self):
        return "set of " + (self.of.name or self.of.decl())


class Ptr(T):
    def __init__(self, name, to=None, toname=None):
        self.name, self.to, self.toname = name, to, toname

    def decl(self):
        return "^" + (self.toname or self.to.ref())


class ProcT(T):
    """type of a procedural parameter"""

    def __init__(self, params, result):
        self.params, self.result = params, result


class ConfArr(T):
    simple = False

    def __init__(self, lo, hi, idx, elem):
        self.loname, self.hiname, self.idxt, self.elem = lo, hi, idx, elem
        self.name = "array [%s..%s: %s] of %s" % (lo, hi, idx.ref(), elem.ref())


def lit_src(t, v):
    b = t.base
    if b is BOOL:
        return "true" if v else "false"
    if b is CHAR:
        if v == 39:
            return "''''"
        if 32 <= v < 127:
            return "'%c'" % v
        return "chr(%d)" % v
    if isinstance(b, Enum):
        return b.names[v]
    if b is REAL:
        return real_src(v)
    if isinstance(b, Str) or is_chararr(b):
        return "'" + bytes(v).decode("latin1").replace("'", "''") + "'"
    return str(v)


def real_src(v):
    s = repr(float(v))
    if "inf" in s or "nan" in s:
        raise ValueError
    return s


def default(t):
    if isinstance(t, Arr):
        def mk(d):
            if not d:
                return default(t.elem)
            return [mk(d[1:]) for _ in range(d[0][1] - d[0][0] + 1)]
        return mk(t.dims())
    if isinstance(t, Rec):
        v = {n: default(ft) for n, ft in t.fields}
        if t.variant:
            tag, tt, alts = t.variant
            v[tag] = None
            v["*active"] = None
        return v
    return None  # undefined


def copyval(v):
    if isinstance(v, list):
        return [copyval(x) for x in v]
    if isinstance(v, dict) and not isinstance(v, HeapCell):
        return {k: copyval(x) for k, x in v.items()}
    return v


def overwrite(old, v):
    """v, stored in place of old: var parameters that refer to its components keep doing so"""
    if isinstance(old, list) and isinstance(v, list) and len(old) == len(v):
        for i, x in enumerate(v):
            old[i] = overwrite(old[i], x)
        return old
    if isinstance(old, dict) and isinstance(v, dict) and not isinstance(v, HeapCell) and old is not v:
        for k in [k for k in old if k not in v]:
            del old[k]
        for k, x in v.items():
            old[k] = overwrite(old.get(k), x)
        return old
    return v


class HeapCell(dict):
    """one object made by new; {'v': value}"""
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


# ---------------------------------------------------------------- machine
class Frame:
    __slots__ = ("vars", "up", "proc", "cx")

    def __init__(self, cx, proc, up):
        self.vars, self.up, self.proc, self.cx = {}, up, proc, cx


class Alias:
    __slots__ = ("c", "k", "lo", "hi")

    def __init__(self, c, k, lo=None, hi=None):
        self.c, self.k, self.lo, self.hi = c, k, lo, hi


class Cx:
    def __init__(self, inp=b"", limit=60000):
        self.out = []
        self.inp = inp
        self.steps = 0
        self.limit = limit
        self.depth = 0
        self.stats = {}
        self.cov = set()

    def step(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Steps()


# ---------------------------------------------------------------- expressions
P_REL, P_ADD, P_MUL, P_POW, P_PRIM = 1, 2, 3, 4, 5


class Node:
    prec = P_PRIM
    t = None

    def src(self, p=0):
        s = self.emit()
        return "(" + s + ")" if self.prec < p else s


class Lit(Node):
    def __init__(self, t, v):
        self.t, self.v = t, v
        b = t.base
        if b in (INT, LINT, REAL) and v < 0 or (b is REAL and str(v).startswith("-")):
            self.prec = P_ADD

    def emit(self):
        if self.t.base is INT and self.v == MININT:
            return "-maxint - 1"
        if self.t.base is LINT and self.v == -2 ** 63:
            return "-9223372036854775807 - 1"
        return lit_src(self.t, self.v)

    def ev(self, fr):
        return self.v


class Const(Node):
    """a named constant"""

    def __init__(self, name, t, v):
        self.name, self.t, self.v = name, t, v

    def emit(self):
        return self.name

    def ev(self, fr):
        return self.v


class VarDecl:
    def __init__(self, name, t, level, kind="var"):
        """kind: var (local/global), val, ref (parameters), loop, conf (conformant), proc"""
        self.name, self.t, self.level, self.kind = name, t, level, kind
        self.loopdepth = 0


class LV(Node):
    """anything assignable: loc(fr) -> (container, key)"""

    def ev(self, fr):
        c, k = self.loc(fr)
        v = c[k]
        if v is None and not isinstance(self.t, Ptr):
            raise UB("undefined value", None)
        return v

    def set(self, fr, v):
        c, k = self.loc(fr)
        c[k] = overwrite(c[k], v) if isinstance(v, (list, dict)) else v

    def emit(self):
        return self.emit_lv()


NIL = "nil"


class Var(LV):
    def __init__(self, d):
        self.d, self.t = d, d.t

    def frame(self, fr):
        while fr.proc.level != self.d.level:
            fr = fr.up
        return fr

    def loc(self, fr):
        f = self.frame(fr)
        v = f.vars[self.d.name]
        if isinstance(v, Alias):
            return v.c, v.k
        return f.vars, self.d.name

    def emit_lv(self):
        return self.d.name


class Index(LV):
    def __init__(self, b, idx, style=0):
        self.b, self.idx, self.style = b, idx, style
        self.t = b.t.elem

    def bounds(self, fr):
        bt = self.b.t
        if isinstance(bt, ConfArr):
            a = self.b.frame(fr).vars[self.b.d.name]
            return [(a.lo, a.hi)]
        return bt.dims()

    def loc(self, fr):
        c, k = self.b.loc(fr)
        a = c[k]
        bs = self.bounds(fr)
        for n, (i, (lo, hi)) in enumerate(zip(self.idx, bs)):
            v = i.ev(fr)
            if not lo <= v <= hi:
                raise UB("index", lambda n=n, v=v, lo=lo, hi=hi: self.fix(n, lo + (v - lo) % (hi - lo + 1)))
            if n + 1 < len(self.idx):
                a = a[v - lo]
            else:
                return a, v - lo
        raise AssertionError

    def fix(self, n, v):
        self.idx[n] = Lit(self.idx[n].t.base, v)

    def emit_lv(self):
        if self.style:
            return self.b.emit_lv() + "".join("[" + i.src() + "]" for i in self.idx)
        return self.b.emit_lv() + "[" + ", ".join(i.src() for i in self.idx) + "]"


class Field(LV):
    def __init__(self, b, f, t, bare=False):
        self.b, self.f, self.t, self.bare = b, f, t, bare
        self.alt = None  # index of the variant alternative it belongs to

    def loc(self, fr):
        c, k = self.b.loc(fr)
        r = c[k]
        if self.alt is not None and r["*active"] != self.alt:
            raise UB("inactive variant", None)
        return r, self.f

    def emit_lv(self):
        if self.bare:
            return self.f
        return self.b.emit_lv() + "." + self.f


class Deref(LV):
    def __init__(self, b):
        self.b, self.t = b, b.t.to

    def loc(self, fr):
        p = self.b.ev(fr)
        if p is None or p is NIL:
            raise UB("nil")
        if "v" not in p:
            raise UB("disposed")
        return p, "v"

    def emit_lv(self):
        return self.b.emit_lv() + "^"


BINPREC = {"+": P_ADD, "-": P_ADD, "or": P_ADD, "or_else": P_ADD, "xor": P_ADD,
           "*": P_MUL, "/": P_MUL, "div": P_MUL, "mod": P_MUL, "and": P_MUL, "and_then": P_MUL,
           "shl": P_MUL, "shr": P_MUL, "><": P_MUL,
           "pow": P_POW, "**": P_POW,
           "=": P_REL, "<>": P_REL, "<": P_REL, "<=": P_REL, ">": P_REL, ">=": P_REL, "in": P_REL}


def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def cmpop(op, a, b):
    return {"=": a == b, "<>": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


class Bin(Node):
    negated = False

    def __init__(self, op, l, r, t):
        self.op, self.l, self.r, self.t = op, l, r, t

    @property
    def prec(self):
        if self.op == "left":
            return self.l.prec
        return BINPREC[self.op]

    def emit(self):
        if self.op == "left":
            return self.l.emit()
        p = self.prec
        if p == P_POW:
            return "%s %s %s" % (self.l.src(P_PRIM), self.op, self.r.src(P_PRIM))
        if p == P_REL:
            return "%s %s %s" % (self.l.src(P_ADD), self.op, self.r.src(P_ADD))
        return "%s %s %s" % (self.l.src(p), self.op, self.r.src(p + 1))

    def ev(self, fr):
        op = self.op
        if op == "left":
            return self.conv(self.l.ev(fr))
        fr.cx.step()
        if op == "and_then":
            return self.r.ev(fr) if self.l.ev(fr) else 0
        if op == "or_else":
            return 1 if self.l.ev(fr) else self.r.ev(fr)
        a, b = self.l.ev(fr), self.r.ev(fr)
        t = self.t
        if t is BOOL:
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "in":
                return int(a in b)
            if isinstance(self.l.t, SetT):
                if op == "<=":
                    return int(a <= b)
                if op == ">=":
                    return int(a >= b)
                return int(cmpop(op, a, b))
            if a is None or b is None:
                raise UB("undefined in comparison")
            if fr.cx.fuzzy and (self.l.t.base is REAL or self.r.t.base is REAL):
                if abs(a - b) <= 1e-8 * max(abs(a), abs(b), 1e-3):
                    raise UB("close reals", self.apart)
            return int(cmpop(op, a, b))
        if isinstance(t, SetT):
            return {"+": a | b, "-": a - b, "*": a & b, "><": a ^ b}[op]
        if t is REAL:
            a, b = float(a), float(b)
            try:
                if op == "+":
                    v = a + b
                elif op == "-":
                    v = a - b
                elif op == "*":
                    v = a * b
                elif op == "/":
                    v = a / b
                else:
                    v = math.pow(a, b)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise UB("real", self.left)
            if v != v or abs(v) > 1e60 or (v != 0 and abs(v) < 1e-60):
                raise UB("real range", self.left)
            return v
        if isinstance(t, Str):
            v = self.sval(a) + self.sval(b)
            if len(v) > 255:
                raise UB("string", self.left)
            return v
        # integers
        if self.negated and a == self.l.t.base.lo:
            raise UB("overflow", self.left)
        if op == "+":
            v = a + b
        elif op == "-":
            v = a - b
        elif op == "*":
            v = a * b
        elif op in ("div", "mod"):
            if b == 0:
                raise UB("zero", self.left)
            v = tdiv(a, b)
            if op == "mod":
                if not t.lo <= v <= t.hi:
                    raise UB("overflow", self.left)
                v = a - v * b
        elif op in ("shl", "shr"):
            bits = 32 if t is INT else 64
            if not 0 <= b < bits:
                raise UB("shift", lambda: setattr(self, "r", Lit(INT, abs(b) % bits)))
            v = wrap(a << b, bits) if op == "shl" else wrap((a & ((1 << bits) - 1)) >> b, bits)
        elif op == "and":
            v = a & b
        elif op == "or":
            v = a | b
        elif op == "xor":
            v = a ^ b
        elif op == "pow":
            if b < 0 and a == 0 or abs(b) > 70:
                raise UB("pow", self.left)
            if b < 0:
                v = a if a in (1, -1) and b % 2 else (1 if a in (1, -1) else 0)
            else:
                v = a ** b
        else:
            raise AssertionError(op)
        if not t.lo <= v <= t.hi or self.negated and v == t.lo:
            raise UB("overflow", self.left)
        return v

    def sval(self, v):
        return bytes([v]) if isinstance(v, int) else bytes(v)

    def apart(self):
        self.l, self.r = Lit(REAL, 1.5), Lit(REAL, 2.5)

    def conv(self, v):
        if self.t is REAL:
            return float(v)
        if isinstance(self.t, Str) and isinstance(v, int):
            return bytes([v])
        return v

    def left(self):
        # keep the type: a widening operation stays a widening one
        if self.t is REAL and self.l.t.base is not REAL:
            self.op, self.r = "+", Lit(REAL, 0.0)
        elif self.t is LINT and self.l.t.base is not LINT:
            self.l = Lit(LINT, 3000000000)
            self.op = "left"
        else:
            self.op = "left"


class Un(Node):
    def __init__(self, op, e, t):
        self.op, self.e, self.t = op, e, t

    @property
    def prec(self):
        if self.op == "id":
            return self.e.prec
        return P_ADD if self.op in "-+" else P_PRIM

    def emit(self):
        if self.op == "id":
            return self.e.emit()
        if self.op == "not":
            s = self.e.src(P_PRIM)
            if isinstance(self.e, Un):
                s = "(" + s + ")"
            return "not " + s
        e = self.e
        while isinstance(e, Bin) and e.op == "left":
            e = e.l
        top = e
        while isinstance(e, Bin) and e.op in ("left", "*", "div", "/"):
            e = e.l
        if e is not top and not isinstance(e, Bin):
            return self.op + top.src(P_MUL)
        return self.op + top.src(P_PRIM)

    def ev(self, fr):
        fr.cx.step()
        if self.op == "-":
            # printed without parentheses: -a * b may be computed as -(a * b) or as (-a) * b
            e = self.e
            while isinstance(e, Bin) and e.op in ("left", "*", "div", "/"):
                e.negated = True
                e = e.l
        v = self.e.ev(fr)
        if self.op == "id":
            return v
        if self.op == "not":
            return 1 - v if self.t is BOOL else ~v
        if self.op == "+":
            return v
        v = -v
        if self.t is not REAL and not self.t.lo <= v <= self.t.hi:
            raise UB("overflow", lambda: setattr(self, "op", "id"))
        return v


class Paren(Node):
    def __init__(self, e):
        self.e, self.t = e, e.t

    def emit(self):
        return "(" + self.e.src() + ")"

    def ev(self, fr):
        return self.e.ev(fr)


class BI(Node):
    """a predefined function"""

    def __init__(self, name, args, t):
        self.name, self.args, self.t = name, args, t
        self.dead = False

    def emit(self):
        if self.dead:
            return self.args[0].emit()
        if self.name == "maxint":
            return "maxint"
        return "%s(%s)" % (self.name, ", ".join(a.src() for a in self.args))

    @property
    def prec(self):
        return self.args[0].prec if self.dead else P_PRIM

    def kill(self):
        self.args = [safe_lit(self.t)]
        self.dead = True

    def ev(self, fr):
        fr.cx.step()
        a = [x.ev(fr) for x in self.args]
        if self.dead:
            return a[0]
        if fr.cx.fuzzy and self.name in ("trunc", "round", "int", "frac", "sign") and self.args[0].t.base is REAL:
            x = abs(a[0]) + (0.5 if self.name == "round" else 0)
            if abs(x - round(x)) < 1e-8 * max(1, x):
                raise UB("close to a step", self.kill)
        v = self.calc(a)
        t = self.t
        if t.base in (INT, LINT) and not t.base.lo <= v <= t.base.hi:
            raise UB("overflow", self.kill)
        if t.base is CHAR or isinstance(t.base, Enum) or t.base is BOOL:
            if not t.base.lo <= v <= t.base.hi:
                raise UB("range", self.kill)
        if t.base is REAL and (v != v or abs(v) > 1e60 or (v != 0 and abs(v) < 1e-60)):
            raise UB("real", self.kill)
        return v

    def calc(self, a):
        n = self.name
        x = a[0]
        at = self.args[0].t.base
        if n == "abs":
            return abs(x)
        if n == "sqr":
            return x * x
        if n == "odd":
            return x & 1
        if n == "ord":
            return x
        if n == "chr":
            return x
        if n == "succ":
            return x + (a[1] if len(a) > 1 else 1)
        if n == "pred":
            return x - (a[1] if len(a) > 1 else 1)
        if n == "min":
            return min(a)
        if n == "max":
            return max(a)
        if n == "sign":
            return (x > 0) - (x < 0) if at is not REAL else float((x > 0) - (x < 0))
        if n in ("card", "popcnt"):
            return len(x) if isinstance(x, frozenset) else bin(x & ((1 << (32 if at is INT else 64)) - 1)).count("1")
        try:
            if n == "trunc":
                return math.trunc(x)
            if n == "round":
                # half away from zero
                f = math.floor(abs(x))
                r = f + (1 if abs(x) - f >= 0.5 else 0)
                return r if x >= 0 else -r
            if n == "sqrt":
                return math.sqrt(x)
            if n == "int":
                return float(math.trunc(x))
            if n == "frac":
                return x - float(math.trunc(x))
            if n in ("sin", "cos", "exp", "tan"):
                if abs(x) > 60:
                    raise UB("big", self.kill)
                return getattr(math, n)(x)
            if n == "ln":
                return math.log(x)
            if n == "arctan":
                return math.atan(x)
            if n == "arctan2":
                return math.atan2(a[0], a[1])
            if n == "fmod":
                return math.fmod(a[0], a[1])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise UB("math", self.kill)
        # strings
        def b(v):
            return bytes([v]) if isinstance(v, int) else bytes(v)
        if n == "length":
            return len(b(x))
        if n in ("copy", "substr"):
            s = b(x)
            st = a[1]
            ln = a[2] if len(a) > 2 else len(s) - st + 1
            if st < 1 or ln < 0 or st + ln - 1 > len(s):
                raise UB("substr", self.kill)
            return s[st - 1:st - 1 + ln]
        if n == "index":
            if not b(x) and not b(a[1]):
                raise UB("index of nothing in nothing", self.kill)
            return b(x).find(b(a[1])) + 1
        if n == "trim":
            if b(x).strip(b" ") != b(x).strip(bytes(range(33))):
                raise UB("trim of control characters", self.kill)
            return b(x).strip(b" ")
        if n in ("eq", "ne", "lt", "le", "gt", "ge"):
            return int(cmpop({"eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n], b(x), b(a[1])))
        raise AssertionError(n)


def safe_lit(t):
    b = t.base
    if b is REAL:
        return Lit(REAL, 1.5)
    if b is LINT:
        return Lit(LINT, 3000000001)
    if b is INT:
        return Lit(INT, 1)
    if b is CHAR:
        return Lit(CHAR, 65)
    if isinstance(b, Str):
        return Lit(b, b"ab")
    return Lit(b, 0)


class SetCtor(Node):
    def __init__(self, items, t):
        """items: [(lo, hi or None)]"""
        self.items, self.t = items, t

    def emit(self):
        return "[" + ", ".join(a.src() if b is None else a.src() + ".." + b.src() for a, b in self.items) + "]"

    def ev(self, fr):
        fr.cx.step()
        s = set()
        lo, hi = self.t.of.lo, self.t.of.hi
        for n, (a, b) in enumerate(self.items):
            x = a.ev(fr)
            if b is None:
                y = x
            else:
                y = b.ev(fr)
            if x <= y:
                if not (lo <= x <= hi and lo <= y <= hi):
                    raise UB("set elem", lambda n=n: self.items.pop(n))
                s.update(range(x, y + 1))
            elif not (lo <= x <= hi and lo <= y <= hi):
                raise UB("set elem", lambda n=n: self.items.pop(n))
        return frozenset(s)


class Nil(Node):
    def __init__(self, t):
        self.t = t

    def emit(self):
        return "nil"

    def ev(self, fr):
        return NIL


class Proc:
    def __init__(self, name, level, params, result=None):
        """params: [VarDecl]; level: nesting level of its own variables"""
        self.name, self.level, self.params, self.result = name, level, params, result
        self.locals, self.procs, self.body = [], [], None
        self.parent = None
        self.forward = False
        self.consts, self.types, self.labels = [], [], []
        self.pure = True
        self.resname = name

    def head(self):
        ps = []
        for d in self.params:
            if d.kind == "proc":
                ps.append(procparam_src(d))
            else:
                ps.append(("var " if d.kind in ("ref", "confref") else "") + d.name + ": " + d.t.ref())
        s = ("function " if self.result else "procedure ") + self.name
        if ps:
            s += "(" + "; ".join(ps) + ")"
        if self.result:
            s += ": " + self.result.ref()
        return s + ";"


def procparam_src(d):
    t = d.t
    s = ("function " if t.result else "procedure ") + d.name
    if t.params:
        s += "(" + "; ".join(("var " if k == "ref" else "") + n + ": " + pt.ref() for n, pt, k in t.params) + ")"
    if t.result:
        s += ": " + t.result.ref()
    return s


class Closure:
    def __init__(self, proc, up):
        self.proc, self.up = proc, up


class Call(Node):
    """call of a procedure or function, or of a procedural parameter (target is a VarDecl)"""

    def __init__(self, target, args, t=None):
        self.target, self.args, self.t = target, args, t

    def emit(self):
        s = self.target.name
        if self.args:
            s += "(" + ", ".join(a.src() for a in self.args) + ")"
        return s

    def ev(self, fr):
        cx = fr.cx
        cx.step()
        if isinstance(self.target, Proc):
            p = self.target
            up = fr
            while up.proc.level != p.level - 1:
                up = up.up
        else:
            f = fr
            while f.proc.level != self.target.level:
                f = f.up
            cl = f.vars[self.target.name]
            p, up = cl.proc, cl.up
        nf = Frame(cx, p, up)
        for d, a in zip(p.params, self.args):
            if d.kind == "proc":
                nf.vars[d.name] = a.closure(fr)
            elif d.kind in ("ref", "confref"):
                if isinstance(d.t, ConfArr):
                    c, k = a.loc(fr)
                    lo, hi = conf_bounds(a, fr)
                    nf.vars[d.name] = Alias(c, k, lo, hi)
                    nf.vars[d.t.loname], nf.vars[d.t.hiname] = lo, hi
                else:
                    c, k = a.loc(fr)
                    nf.vars[d.name] = Alias(c, k)
            elif isinstance(d.t, ConfArr):
                lo, hi = conf_bounds(a, fr)
                nf.vars[d.name] = Alias({"v": copyval(a.ev(fr))}, "v", lo, hi)
                nf.vars[d.t.loname], nf.vars[d.t.hiname] = lo, hi
            else:
                nf.vars[d.name] = assign_conv(d.t, copyval(a.ev(fr)), a, lambda a=a, d=d: self.fixarg(a, d))
        for d in p.locals:
            nf.vars[d.name] = default(d.t)
        if p.result:
            nf.vars["*res"] = None
        cx.depth += 1
        if cx.depth > 60:
            raise Steps()
        p.body.ex(nf)
        cx.depth -= 1
        if p.result:
            v = nf.vars["*res"]
            if v is None:
                raise UB("no result")
            return v

    def fixarg(self, a, d):
        self.args[self.args.index(a)] = safe_in(d.t)


def conf_bounds(a, fr):
    if isinstance(a.t, ConfArr):
        al = a.frame(fr).vars[a.d.name]
        return al.lo, al.hi
    return a.t.dims()[0]


def safe_in(t):
    if t.ordinal and t.base not in (INT, LINT):
        return Lit(t.base, t.lo)
    if isinstance(t, Sub):
        return Lit(t.of, t.lo)
    return safe_lit(t)


class ProcRef(Node):
    def __init__(self, target):
        self.target = target

    def emit(self):
        return self.target.name

    def closure(self, fr):
        if isinstance(self.target, Proc):
            up = fr
            while up.proc.level != self.target.level - 1:
                up = up.up
            return Closure(self.target, up)
        f = fr
        while f.proc.level != self.target.level:
            f = f.up
        return f.vars[self.target.name]


def assign_conv(t, v, e, fix):
    """value v of expression e, as it is stored in a variable of type t"""
    if t.ordinal:
        if not t.lo <= v <= t.hi:
            raise UB("assign range", fix)
        return v
    if t is REAL:
        return float(v)
    if isinstance(t, SetT):
        if any(not t.of.lo <= x <= t.of.hi for x in v):
            raise UB("set range", fix)
        return v
    if isinstance(t, Str):
        if isinstance(v, int):
            v = bytes([v])
        v = bytes(v)
        if len(v) > t.n:
            raise UB("string length", fix)
        return v
    if is_chararr(t) and isinstance(v, bytes):
        if len(v) != t.idx[0].hi - t.idx[0].lo + 1:
            raise UB("char array length", fix)
        return list(v)
    return v


# ---------------------------------------------------------------- statements
def ind(s):
    return "\n".join("  " + l for l in s.split("\n"))


class Stmt:
    off = False

    def src(self):
        return "begin end" if self.off else self.src_()

    def ex(self, fr):
        if self.off:
            return
        try:
            self.ex_(fr)
        except UB as u:
            if u.fix is None:
                u.fix = self.disable
            raise

    def disable(self):
        self.off = True


class Assign(Stmt):
    def __init__(self, lv, e, init=False):
        self.lv, self.e, self.init = lv, e, init

    def src_(self):
        e = self.e
        while isinstance(e, Paren) or isinstance(e, Un) and e.op in ("+", "id"):
            e = e.e
        if isinstance(self.lv.t, Sub) and isinstance(e, (Lit, Const)) and not self.lv.t.lo <= e.v <= self.lv.t.hi:
            self.fix()  # never executed, but an error that can be seen at compile time
        return self.lv.src() + " := " + self.e.src()

    def ex_(self, fr):
        fr.cx.step()
        v = assign_conv(self.lv.t, copyval(self.e.ev(fr)), self.e, self.fix)
        self.lv.set(fr, v)

    def fix(self):
        t = self.lv.t
        if isinstance(t, SetT):
            self.e = SetCtor([], t)
        elif isinstance(t, Str):
            self.e = Lit(t, b"ab"[:t.n])
        else:
            self.e = safe_in(t)


class TagAssign(Stmt):
    """assigns the tag of a variant record, which makes one alternative active and undefined"""

    def __init__(self, lv, rec, val, alt):
        self.lv, self.rec, self.val, self.alt = lv, rec, val, alt

    def src_(self):
        return self.lv.src() + " := " + lit_src(self.lv.t, self.val)

    def ex_(self, fr):
        fr.cx.step()
        c, k = self.lv.loc(fr)
        c[k] = self.val
        c["*active"] = self.alt
        for n, t in self.rec.variant[2][self.alt][1]:
            c[n] = default(t)


class ResAssign(Stmt):
    def __init__(self, proc, e):
        self.proc, self.e = proc, e

    def src_(self):
        return self.proc.resname + " := " + self.e.src()

    def ex_(self, fr):
        fr.cx.step()
        f = fr
        while f.proc is not self.proc:
            f = f.up
        f.vars["*res"] = assign_conv(self.proc.result, self.e.ev(fr), self.e, self.fix)

    def fix(self):
        self.e = safe_in(self.proc.result)


class Block(Stmt):
    def __init__(self, ss):
        self.ss = ss

    def src_(self):
        if not self.ss:
            return "begin end"
        return "begin\n" + ind(";\n".join(s.src() for s in self.ss)) + "\nend"

    def ex_(self, fr):
        i = 0
        ss = self.ss
        while i < len(ss):
            try:
                while i < len(ss):
                    ss[i].ex(fr)
                    i += 1
            except GotoEx as g:
                for j, s in enumerate(ss):
                    if isinstance(s, Label) and s.n == g.label:
                        i = j
                        fr.cx.step()
                        break
                else:
                    raise


class Label(Stmt):
    def __init__(self, n):
        self.n = n

    def src_(self):
        return "%d: " % self.n

    def ex_(self, fr):
        fr.cx.step()


class Goto(Stmt):
    def __init__(self, n):
        self.n = n

    def src_(self):
        return "goto %d" % self.n

    def ex_(self, fr):
        raise GotoEx(self.n)


class If(Stmt):
    def __init__(self, c, a, b=None):
        self.c, self.a, self.b = c, a, b

    def src_(self):
        a = self.a
        s = "if " + self.c.src() + " then\n" + ind(a.src() if not (self.b and open_if(a)) else Block([a]).src())
        if self.b:
            s += "\nelse\n" + ind(self.b.src())
        return s

    def ex_(self, fr):
        fr.cx.step()
        if self.c.ev(fr):
            self.a.ex(fr)
        elif self.b:
            self.b.ex(fr)


def open_if(s):
    """does statement s end in an 'if' without 'else' (which would catch a following else)?"""
    if isinstance(s, If):
        return s.b is None or open_if(s.b)
    if isinstance(s, (While, For, ForIn, With)):
        return open_if(s.body)
    return False


class Case(Stmt):
    def __init__(self, e, arms, other):
        """arms: [([(lo, hi)], stmt)]"""
        self.e, self.arms, self.other = e, arms, other
        self.word = "otherwise"

    def src_(self):
        b = self.e.t.base

        def lab(lo, hi):
            return lit_src(b, lo) if lo == hi else lit_src(b, lo) + ".." + lit_src(b, hi)
        s = "case " + self.e.src() + " of\n"
        s += ind(";\n".join(", ".join(lab(*r) for r in labs) + ":\n" + ind(st.src()) for labs, st in self.arms))
        if self.other:
            s += ";\n" + ind(self.word + "\n" + ind(self.other.src()))
        return s + "\nend"

    def ex_(self, fr):
        fr.cx.step()
        v = self.e.ev(fr)
        for labs, st in self.arms:
            if any(lo <= v <= hi for lo, hi in labs):
                st.ex(fr)
                return
        if self.other:
            self.other.ex(fr)
        else:
            raise UB("case", lambda: setattr(self, "other", Block([])))


class While(Stmt):
    def __init__(self, c, body):
        self.c, self.body = c, body

    def src_(self):
        return "while " + self.c.src() + " do\n" + ind(self.body.src())

    def ex_(self, fr):
        while self.c.ev(fr):
            fr.cx.step()
            self.body.ex(fr)


class Repeat(Stmt):
    def __init__(self, body, c):
        self.body, self.c = body, c

    def src_(self):
        return "repeat\n" + ind(";\n".join(s.src() for s in self.body.ss)) + "\nuntil " + self.c.src()

    def ex_(self, fr):
        while True:
            fr.cx.step()
            self.body.ex(fr)
            if self.c.ev(fr):
                break


class For(Stmt):
    def __init__(self, d, a, b, down, body):
        self.d, self.a, self.b, self.down, self.body = d, a, b, down, body

    def src_(self):
        return "for %s := %s %s %s do\n%s" % (self.d.name, self.a.src(), "downto" if self.down else "to",
                                              self.b.src(), ind(self.body.src()))

    def ex_(self, fr):
        a, b = self.a.ev(fr), self.b.ev(fr)
        v = Var(self.d)
        t = self.d.t
        step = -1 if self.down else 1
        n = (a - b if self.down else b - a) + 1
        if n > 0 and not (t.lo <= a <= t.hi and t.lo <= b <= t.hi):
            raise UB("for range", self.fix)
        if n > 40:
            raise UB("long loop", self.fix)
        i = a
        for _ in range(max(0, n)):
            fr.cx.step()
            v.set(fr, i)
            self.body.ex(fr)
            i += step
        v.set(fr, None)

    def fix(self):
        t = self.d.t
        lo, hi = max(t.lo, -3), min(t.hi, max(t.lo, -3) + 4)
        self.a, self.b = Lit(t.base, lo), Lit(t.base, hi)
        if self.down:
            self.a, self.b = self.b, self.a


class ForIn(Stmt):
    def __init__(self, d, e, body):
        self.d, self.e, self.body = d, e, body

    def src_(self):
        return "for %s in %s do\n%s" % (self.d.name, self.e.src(), ind(self.body.src()))

    def ex_(self, fr):
        s = self.e.ev(fr)
        v = Var(self.d)
        seq = sorted(s) if isinstance(s, frozenset) else list(s)
        for x in seq:
            fr.cx.step()
            v.set(fr, x)
            self.body.ex(fr)
        v.set(fr, None)


class With(Stmt):
    def __init__(self, lvs, body):
        self.lvs, self.body = lvs, body

    marks = False   # note in comments which fields are opened where (for the check of scopes)

    def src_(self):
        m = ["{W %s}" % " ".join(l.t.base.field_names()) if self.marks else "" for l in self.lvs]
        return "with " + ", ".join(l.src() + k for l, k in zip(self.lvs, m)) + " do\n" + ind(self.body.src()) + (
            "{/W}" * len(m) if self.marks else "")

    def ex_(self, fr):
        fr.cx.step()
        self.body.ex(fr)


class CallS(Stmt):
    def __init__(self, call):
        self.call = call

    def src_(self):
        return self.call.emit()

    def ex_(self, fr):
        self.call.ev(fr)


class Raw(Stmt):
    """fixed text with a python action"""

    def __init__(self, text, fn):
        self.text, self.fn = text, fn

    def src_(self):
        return self.text() if callable(self.text) else self.text

    def ex_(self, fr):
        fr.cx.step()
        self.fn(fr)


class IncDec(Stmt):
    def __init__(self, op, lv):
        self.op, self.lv = op, lv

    def src_(self):
        return "%s(%s)" % (self.op, self.lv.src()) if self.op != "nop" else "begin end"

    def ex_(self, fr):
        if self.op == "nop":
            return
        v = self.lv.ev(fr) + (1 if self.op == "inc" else -1)
        if not self.lv.t.lo <= v <= self.lv.t.hi:
            raise UB("inc", lambda: setattr(self, "op", "nop"))
        self.lv.set(fr, v)


class New(Stmt):
    def __init__(self, lv):
        self.lv = lv

    def src_(self):
        return "new(" + self.lv.src() + ")"

    def ex_(self, fr):
        fr.cx.step()
        self.lv.set(fr, HeapCell(v=default(self.lv.t.to)))


class Dispose(Stmt):
    def __init__(self, lv):
        self.lv = lv

    def src_(self):
        return "dispose(" + self.lv.src() + ")"

    def ex_(self, fr):
        p = self.lv.ev(fr)
        if p is None or p is NIL or "v" not in p:
            raise UB("dispose")
        del p["v"]
        self.lv.set(fr, NIL)


class W(Stmt):
    """write/writeln to output. items: [(expr or bytes, width, prec)]; how values look is fmt's business"""

    def __init__(self, items, nl=True):
        self.items, self.nl = items, nl

    def src_(self):
        ps = []
        for e, w, p in self.items:
            s = "'" + e.decode("latin1").replace("'", "''") + "'" if isinstance(e, bytes) else e.src()
            if w is not None:
                s += ":" + (w.src(P_ADD) if isinstance(w, Node) else str(w))
            if p is not None:
                s += ":" + (p.src(P_ADD) if isinstance(p, Node) else str(p))
            ps.append(s)
        n = "writeln" if self.nl else "write"
        return n + ("(" + ", ".join(ps) + ")" if ps else "")

    def ex_(self, fr):
        fr.cx.step()
        for e, w, p in self.items:
            if isinstance(e, bytes):
                fr.cx.out.append(e)
                continue
            v = e.ev(fr)
            if isinstance(w, Node):
                w = w.ev(fr)
            if isinstance(p, Node):
                p = p.ev(fr)
            fr.cx.out.append(fmt(e.t, v, w, p))
        if self.nl:
            fr.cx.out.append(b"\n")


def fmt(t, v, w=None, p=None):
    b = t.base
    w = w or 0
    if b in (INT, LINT):
        return (b"%d" % v).rjust(w)
    if b is REAL:
        if p is not None:
            return (b"%*.*f" % (w, p, v))
        raise UB("plain real")
    if b is CHAR:
        return bytes([v]).rjust(w)
    if b is BOOL:
        return (b"TRUE" if v else b"FALSE").rjust(w)
    if isinstance(b, Enum):
        return b.names[v].lower().encode().rjust(w)
    if isinstance(b, Str):
        return bytes([v]).rjust(w) if isinstance(v, int) else bytes(v).rjust(w)
    if is_chararr(b):
        # a chr(0) ends it, which is also how reading a shorter line leaves an array
        return bytes(v).split(b"\0")[0].rjust(w)
    raise AssertionError(b)


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, name="p"):
        self.name = name
        self.types, self.consts = [], []
        self.main = Proc(name, 0, [])
        self.labels = []
        self.files = "input, output"

    def src(self):
        s = "program %s(%s);\n" % (self.name, self.files)
        s += block_src(self.main, self.types, self.consts)
        return s + self.main.body.src() + ".\n"


def block_src(p, types, consts):
    s = ""
    if p.labels:
        s += "label " + ", ".join(map(str, p.labels)) + ";\n"
    if consts:
        s += "const\n" + "".join("  %s = %s;\n" % c for c in consts)
    if types:
        s += "type\n" + "".join("  %s = %s;\n" % (t.name, t.decl()) for t in types)
    if p.locals:
        s += "var\n" + "".join("  %s: %s;\n" % (d.name, d.t.ref()) for d in p.locals)
    for q in p.procs:
        if q.forward:
            s += q.head() + " forward;\n"
    for q in p.procs:
        s += "\n" + q.head() + "\n" + block_src(q, q.types, q.consts) + q.body.src() + ";\n"
    return s


def execute(prog, inp=b"", limit=60000, fuzzy=False):
    """-> Cx after running, with UBs repaired in the tree; None when that is hopeless"""
    for _ in range(400):
        cx = Cx(inp, limit)
        cx.fuzzy = fuzzy
        fr = Frame(cx, prog.main, None)
        for d in prog.main.locals:
            fr.vars[d.name] = default(d.t)
        try:
            prog.main.body.ex(fr)
            cx.rc = 0
            return cx
        except HaltEx as h:
            cx.rc = h.code
            return cx
        except UB as u:
            if u.fix is None:
                cx.why = str(u)
                return None
            u.fix()
        except (Steps, RecursionError):
            return None
    return None
