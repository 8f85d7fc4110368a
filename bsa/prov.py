"""Bit provenance: which bit of which input ends up where.

A value is a vector of bits, each of them 0, 1, or bit k of a named source (a
field of an object as it was on entry, or a value an opaque call delivered);
anything else becomes a bit of a term over sources. A pointer is an object and
a byte offset. The dataflow walks all paths from the entry; a branch that the
premise (values of some of the sources) does not decide is followed both ways.
Containers of the standard library and other library calls are modelled by
contract; functions of the program are entered unless they are modelled.

Nothing is executed: sources without a premised value stay names, and what is
found holds for every value they may have.
"""
import re
from collections import namedtuple
from bsa.build import AnalysisBroken

P = namedtuple("P", "obj off")
NULL = P(None, 0)
PATHS = 4000
STEPS = 400000


class Broken(AnalysisBroken):
    pass


class Unknown(AnalysisBroken):
    """A branch which the premise does not decide."""
    def __init__(self, inst, names):
        AnalysisBroken.__init__(self, "the branch at %s depends on %s" % (inst.where(), ", ".join(names[:3]) or "what is not known"))
        self.inst, self.names = inst, names


def const(v, w):
    return tuple((v >> k) & 1 for k in range(w))


def iscon(b):
    return all(x == 0 or x == 1 for x in b)


def num(b):
    return sum(x << k for k, x in enumerate(b))


def snum(b):
    v = num(b)
    return v - (1 << len(b)) if b and b[-1] == 1 else v


class Term(tuple):
    """A value which is not a rearrangement of bits; one object per term."""
    __slots__ = ()
    __hash__ = object.__hash__
    pool = {}

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return "T%d" % Term.pool[tuple(self)][1]

    @staticmethod
    def of(*k):
        t = Term.pool.get(k)
        if t is None:
            t = Term.pool[k] = (Term(k), len(Term.pool))
        return t[0]


def var(src, w):
    return tuple((src, k) for k in range(w))


def fill(b, w, sign=False):
    if len(b) >= w:
        return b[:w]
    return b + ((b[-1] if sign else 0),) * (w - len(b))


def width(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else None


def show(b, deep=3):
    """Readable text of a bit vector."""
    if deep < 0:
        return "..."
    if isinstance(b, P):
        return "&%s+%d" % (objname(b.obj), b.off)
    if iscon(b):
        return str(num(b))
    out, k = [], 0
    while k < len(b):
        x = b[k]
        if x in (0, 1):
            n = 1
            while k + n < len(b) and b[k + n] in (0, 1):
                n += 1
            v = num(b[k:k + n])
            if v:
                out.append("%d<<%d" % (v, k) if k else str(v))
            k += n
            continue
        n = 1
        while k + n < len(b) and isinstance(b[k + n], tuple) and b[k + n] == (x[0], x[1] + n):
            n += 1
        s = "%s[%d..%d]" % (srcname(x[0], deep), x[1], x[1] + n - 1) if n > 1 else "%s[%d]" % (srcname(x[0], deep), x[1])
        out.append(s + ("<<%d" % k if k else ""))
        k += n
    return "|".join(out)


def srcname(s, deep=3):
    if isinstance(s, str):
        return s
    if s and s[0] == "t":
        return "(%s %s)" % (s[1], " ".join(show(x, deep - 1) if isinstance(x, tuple) else str(x) for x in s[2:]))
    return str(s)


def objname(o):
    return "null" if o is None else str(o)


SIZES = {"unsigned char": 1, "char": 1, "signed char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4,
         "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4,
         "double": 8, "int16_t": 2, "uint8_t": 1, "uint16_t": 2, "uint32_t": 4}


def targs(t):
    """Template arguments of the outermost template of a type name."""
    a = re.match(r"[\w: ()]*?<(.*)>[^<>]*$", t or "")
    if not a:
        return []
    d, cur, out = 0, "", []
    for ch in a.group(1):
        d += ch in "<([" 
        d -= ch in ">)]"
        if ch == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def clean(t):
    t = (t or "").strip()
    while t.startswith("const "):
        t = t[6:]
    while t.endswith(" const"):
        t = t[:-6]
    return t.strip()


class Types(object):
    def __init__(self, m):
        self.m = m
        self.rec = {k.replace("(anonymous namespace)::", ""): v for k, v in m.records.items()}

    def get(self, t):
        t = clean(t).replace("(anonymous namespace)::", "")
        return self.rec.get(t) or self.rec.get(t.replace(">>", "> >"))

    def size(self, t):
        t = clean(t)
        if t in SIZES:
            return SIZES[t]
        if t.endswith(("*", "&")):
            return 8
        a = re.match(r"(.*?)((?:\[\d+\])+)$", t)
        if a:
            n = self.size(a.group(1))
            for x in re.findall(r"\d+", a.group(2)):
                n = None if n is None else n * int(x)
            return n
        if t.startswith("std::array<"):
            e, n = targs(t)[:2]
            s = self.size(e)
            return None if s is None else s * int(re.match(r"\d+", n).group(0))
        r = self.get(t)
        if r:
            return r["size"]
        if t in self.m.enums:
            return 4
        if t.startswith(("std::vector<", "std::basic_string<")):
            return 24 if t.startswith("std::vector<") else 32
        if t.startswith("std::unique_ptr<"):
            return 8
        if t.startswith("std::deque<"):
            return 80
        if t.startswith(("std::map<", "std::set<")):
            return 48
        return None

    def array(self, t, off, es):
        """(begin, end) of the array of elements of es bytes at off."""
        t, base = clean(t), 0
        while t:
            a = re.match(r"(.*?)\[(\d+)\]((?:\[\d+\])*)$", t)
            if a or t.startswith("std::array<"):
                e = a.group(1) + a.group(3) if a else targs(t)[0]
                n = self.size(e)
                if not n:
                    return None
                if n == es:
                    return base, base + self.size(t)
                base, off, t = base + off // n * n, off % n, e
                continue
            r = self.get(t)
            if not r or t.startswith("std::"):
                return None
            for nm, ty, o, sz in r["members"]:
                if o <= off < o + max(sz, 1):
                    t, off, base = clean(ty), off - o, base + o
                    break
            else:
                return None
        return None

    def locate(self, t, off):
        """(name suffix, offset in it, size, type) of the scalar at off."""
        t = clean(t)
        if not t:
            return None
        a = re.match(r"(.*?)\[(\d+)\]((?:\[\d+\])*)$", t)
        if a or t.startswith("std::array<"):
            e = a.group(1) + a.group(3) if a else targs(t)[0]
            n = self.size(e)
            if not n:
                return None
            q = self.locate(e, off % n)
            if q is None:
                return None
            return ("[%d]" % (off // n) + q[0],) + q[1:]
        if t in SIZES or t.endswith(("*", "&")) or t in self.m.enums:
            n = self.size(t)
            return ("", off, n, t) if off < n else None
        r = self.get(t)
        if r and r["members"] and not t.startswith("std::"):
            for nm, ty, o, sz in r["members"]:
                if o <= off < o + max(sz, 1):
                    q = self.locate(ty, off - o)
                    if q is None:
                        return ("." + nm, off - o, sz, ty)
                    return ("." + nm + q[0],) + q[1:]
            return None
        n = self.size(t)
        if n and off < n:
            return ("", off, n, t)
        return None


class Frame(object):
    __slots__ = ("f", "env", "b", "k", "prev", "ret", "n", "tag")

    def __init__(self, f, env, b=0, k=0, prev=None, ret=None, n=0, tag=None):
        self.f, self.env, self.b, self.k, self.prev, self.ret, self.n = f, env, b, k, prev, ret, n
        self.tag = tag

    def copy(self):
        return Frame(self.f, dict(self.env), self.b, self.k, self.prev, self.ret, self.n, self.tag)


class State(object):
    def __init__(self):
        self.frames, self.mem, self.sz, self.ev, self.assume, self.types = [], {}, {}, [], {}, {}
        self.user, self.nobj, self.steps = {}, 0, 0
        self.smashed, self.zeros = {}, {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem, s.sz, s.ev, s.assume = dict(self.mem), dict(self.sz), list(self.ev), dict(self.assume)
        s.zeros = {k: list(v) for k, v in self.zeros.items()}
        s.smashed = {k: set(v) for k, v in self.smashed.items()}
        s.types, s.user, s.nobj, s.steps = dict(self.types), dict(self.user), self.nobj, self.steps
        return s

    def fresh(self, tag, ty=None):
        self.nobj += 1
        o = (tag, self.nobj)
        if ty:
            self.types[o] = ty
        return o


class Prov(object):
    """Dataflow from the entry of `fn`.

    names: name of each pointer argument's object ("jpg", ...), by position
    value: callable(source) -> int or None, the premise
    model: callable(interp, state, inst, args) -> None (not mine) or a value
           (a bit vector, P, or () for none); it may append to state.ev
    """

    def __init__(self, mod, fn, value, model=None, opaque=(), steps=STEPS, paths=PATHS):
        self.m, self.f = mod, fn
        self.value, self.model = value, model
        self.limit = None
        self.nofork = False
        self.hush = 0           # within the initialization of a static variable
        self.known = {}
        self.track = self.cur = None
        self.opaque = opaque
        self.ty = Types(mod)
        self.control = set()
        self.forked = set()
        self.maxsteps, self.maxpaths = steps, paths
        self.stl = Std(self)
        self.fnames = {}

    # ---- naming -----------------------------------------------------------
    def otype(self, st, o):
        if o in st.types:
            return st.types[o]
        t = None
        if o is None:
            return None
        if o[0] == "*":
            q = self.ftype(st, o[1], o[2])
            if q:
                q = clean(q)
                if q.endswith("*") or q.endswith("&"):
                    t = clean(q[:-1])
                elif q.startswith("std::unique_ptr<"):
                    t = targs(q)[0]
        elif o[0] == "D":
            q = self.ftype(st, o[1], o[2])
            a = targs(q) if q else []
            t = a[0] + "[1000000000]" if a else None
        elif o[0] == "g":
            g = self.m.globals.get(o[1])
            t = g.get("ditype") if g else None
        st.types[o] = t
        return t

    def ftype(self, st, o, off):
        """Declared type of the member at an offset."""
        t = self.otype(st, o)
        q = self.ty.locate(t, off) if t else None
        return q[3] if q and q[1] == 0 else None

    def oname(self, st, o):
        n = st.user.get(("name", o))
        if n:
            return n
        if o is None:
            return "null"
        if o[0] == "*":
            return "(*" + self.cname(st, o[1], o[2]) + ")"
        if o[0] == "D":
            return self.cname(st, o[1], o[2])
        return "%s%s" % (o[0], o[1])

    def cname(self, st, o, off):
        t = self.otype(st, o)
        q = self.ty.locate(t, off) if t else None
        if q is None:
            return "%s+%d" % (self.oname(st, o), off)
        n = self.oname(st, o) + q[0]
        return n if not q[1] else "%s+%d" % (n, q[1])

    def source(self, st, o, off):
        """(source, first bit) of an unwritten byte."""
        t = self.otype(st, o)
        q = self.ty.locate(t, off) if t else None
        if q is None or q[2] is None or q[2] > 8:
            return "%s+%d" % (self.oname(st, o), off), 0
        return self.oname(st, o) + q[0], 8 * q[1]

    # ---- values -----------------------------------------------------------
    def ev(self, b):
        """Number under the premise, or None."""
        if isinstance(b, P):
            return None
        v = 0
        for k, x in enumerate(b):
            if x == 0:
                continue
            if x == 1:
                v |= 1 << k
                continue
            n = self.srcval(x[0])
            if n is None:
                return None
            v |= ((n >> x[1]) & 1) << k
        return v

    def srcval(self, s):
        if isinstance(s, tuple) and s and s[0] == "t":
            op, w = s[1], s[2]
            if s in self.known:
                return self.known[s]
            a = [self.ev(x) for x in s[3:]]
            r = None if any(x is None for x in a) else calc(op, w, a, [len(x) for x in s[3:]])
            self.known[s] = r
            return r
        return self.value(s)

    def term(self, op, w, *a):
        return var(Term.of("t", op, w, *a), w)

    def binop(self, op, a, b, w):
        if isinstance(a, P) or isinstance(b, P):
            return self.term("ptr" + op, w)
        if iscon(a) and iscon(b):
            return const(calc(op, w, [num(a), num(b)], [w, w]), w)
        if op in ("shl", "lshr", "ashr") and not iscon(b):
            n = self.ev(b)
            return self.term(op, w, a, b) if n is None else self.binop(op, a, const(n, w), w) if iscon(a) is None else self.term(op, w, a, b)
        if op == "shl":
            n = num(b)
            return (const(0, min(n, w)) + a)[:w]
        if op in ("lshr", "ashr"):
            n = min(num(b), w)
            return a[n:] + ((a[-1] if op == "ashr" else 0),) * n
        if op == "and":
            out = []
            for x, y in zip(a, b):
                if x == 0 or y == 0:
                    out.append(0)
                elif x == 1:
                    out.append(y)
                elif y == 1 or x == y:
                    out.append(x)
                else:
                    return self.term(op, w, *sorted((a, b), key=repr))
            return tuple(out)
        if op == "or":
            out = []
            for x, y in zip(a, b):
                if x == 1 or y == 1:
                    out.append(1)
                elif x == 0:
                    out.append(y)
                elif y == 0 or x == y:
                    out.append(x)
                else:
                    return self.term(op, w, *sorted((a, b), key=repr))
            return tuple(out)
        if op == "xor":
            out = []
            for x, y in zip(a, b):
                if x == 0:
                    out.append(y)
                elif y == 0:
                    out.append(x)
                elif x == y:
                    out.append(0)
                elif isinstance(x, int) or isinstance(y, int):
                    z = y if isinstance(x, int) else x
                    s = z[0]
                    if isinstance(s, tuple) and s[0] == "t" and s[1] == "not" and z[1] == 0:
                        out.append(s[3][0])
                    else:
                        out.append((Term.of("t", "not", 1, (z,)), 0))
                else:
                    return self.term(op, w, *sorted((a, b), key=repr))
            return tuple(out)
        if op == "add":
            if all(x == 0 or y == 0 for x, y in zip(a, b)):
                return tuple(x or y if isinstance(x, int) and isinstance(y, int) else (y if x == 0 else x) for x, y in zip(a, b))
            if iscon(a):
                a, b = b, a
            if iscon(b):
                s = self.whole(a)
                if s and s[0] == "t" and s[1] == "add" and iscon(s[4]):
                    return self.binop("add", s[3], const(num(s[4]) + num(b), w), w)
                if not num(b):
                    return a
                return self.term("add", w, a, b)
            return self.term("add", w, *sorted((a, b), key=repr))
        if op == "sub":
            if a == b:
                return const(0, w)
            if iscon(b):
                return self.binop("add", a, const(-num(b), w), w)
            # x - (x & low ones) and the like: borrow-free when b's bits are in a
            if all(y == 0 or x == y for x, y in zip(a, b)):
                return tuple(0 if y != 0 else x for x, y in zip(a, b))
        if op == "mul":
            if iscon(a):
                a, b = b, a
            if iscon(b):
                n = num(b)
                if n and not n & (n - 1):
                    return self.binop("shl", a, const(n.bit_length() - 1, w), w)
                if n == 0:
                    return const(0, w)
        if op in ("udiv", "urem") and iscon(b):
            n = num(b)
            if n and not n & (n - 1):
                return self.binop("lshr", a, const(n.bit_length() - 1, w), w) if op == "udiv" else self.binop("and", a, const(n - 1, w), w)
        if op in ("sdiv", "srem") and iscon(b) and a[-1] == 0:
            return self.binop("u" + op[1:], a, b, w)
        return self.term(op, w, a, b)

    def whole(self, a):
        s = a[0][0] if a and isinstance(a[0], tuple) else None
        return s if isinstance(s, tuple) and a == var(s, len(a)) and s[2:3] == (len(a),) else None

    def icmp(self, st, pred, a, b):
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, P) and isinstance(b, P):
                if a.obj == b.obj:
                    return const(int(cmpn(pred, a.off, b.off, 64)), 1)
                if pred in ("eq", "ne"):
                    return const(int(pred == "ne"), 1)
            return self.term("icmp " + pred, 1)
        if iscon(a) and iscon(b):
            return const(int(cmpn(pred, num(a), num(b), len(a))), 1)
        if a == b:
            return const(int(pred in ("eq", "ule", "uge", "sle", "sge")), 1)
        if iscon(a):
            a, b = b, a
            pred = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
        if pred in ("eq", "ne"):
            for x, y in zip(a, b):
                if isinstance(x, int) and isinstance(y, int) and x != y:
                    return const(int(pred == "ne"), 1)
            d = [(x, y) for x, y in zip(a, b) if x != y]
            if len(d) == 1 and d[0][1] in (0, 1) or len(d) > 1 and len(set(d)) == 1 and d[0][1] in (0, 1):
                r = (d[0][0],)
                return r if (pred == "eq") == (d[0][1] == 1) else self.binop("xor", r, (1,), 1)
        if iscon(b):
            w = len(a)
            hi = max([k for k, x in enumerate(a) if x != 0] or [-1]) + 1
            if hi < w or pred[0] == "u":       # known to be small
                n = num(b) if pred[0] == "u" else snum(b)
                lo_, hi_ = sum(1 << k for k, x in enumerate(a) if x == 1), (1 << hi) - 1
                p = pred[1:] if pred[0] in "us" else pred
                if p in ("lt", "le", "gt", "ge"):
                    r = [cmpi(p, x, n) for x in (lo_, hi_)]
                    if r[0] == r[1]:
                        return const(int(r[0]), 1)
                elif not lo_ <= n <= hi_:
                    return const(int(p == "ne"), 1)
        return self.term("icmp " + pred, 1, a, b)

    # ---- memory -----------------------------------------------------------
    def rd(self, st, p, n):
        """n bytes at p."""
        if not isinstance(p, P) or p.obj is None:
            raise Broken("reads through a pointer that is not known")
        if p.obj[0] == "~":
            st.nobj += 1
            return self.term("element of %s #%d" % (self.oname(st, p.obj[1]), st.nobj), 8 * n)
        out = []
        for k in range(n):
            x = st.mem.get((p.obj, p.off + k))
            if x is None and p.obj in st.smashed and any(lo <= p.off + k < hi for lo, hi in st.smashed[p.obj]):
                st.nobj += 1
                x = self.term("element of %s #%d" % (self.oname(st, p.obj), st.nobj), 8)
            if x is None and p.obj in st.zeros and any(lo <= p.off + k < hi for lo, hi in st.zeros[p.obj]):
                x = const(0, 8)
            if x is None:
                g = self.globbyte(p, k)
                if g is not None:
                    out.append(const(g, 8))
                    continue
                s, b = self.source(st, p.obj, p.off + k)
                m = self.limit(s) if self.limit else None
                x = tuple((s, b + j) if m is None or b + j < m else 0 for j in range(8))
            elif isinstance(x, P):
                if k == 0 and n == 8:
                    return x
                x = (("ptr", 0),) * 8
            out.append(x)
        r = tuple(y for x in out for y in x)
        # a premised value of a whole field is that value
        return r

    def globbyte(self, p, k):
        if p.obj[0] == "g" and isinstance(p.obj[1], str) and p.obj[1].startswith("_ZGV"):   # initialized once
            return 0
        if p.obj[0] != "g":
            return None
        g = self.m.globals.get(p.obj[1])
        if not g or not g.get("const") or not g.get("init"):
            return None
        by = self.fnames.get(("bytes", p.obj))
        if by is None:
            n = self.ty.size(g.get("ditype"))
            ini = g["init"]
            sh = g.get("shape") or []
            es = None
            a = re.match(r"((?:const )?[\w: ]+?)(?:\[\d+\])+$", clean(g.get("ditype") or ""))
            if a:
                es = self.ty.size(clean(a.group(1)))
            elif clean(g.get("ditype") or "").startswith("std::array<"):
                es = self.ty.size(targs(clean(g["ditype"]))[0])
            elif not g.get("ditype") and re.match(r"(?:\[\d+ x )*i\d+\]*$", g.get("type") or ""):
                es = int(re.search(r"i(\d+)", g["type"]).group(1)) // 8
            elif len(ini) == 1:
                es = n
            by = []
            if es and all(isinstance(x, int) for x in ini):
                for x in ini:
                    by += [(x >> (8 * j)) & 255 for j in range(es)]
            self.fnames[("bytes", p.obj)] = by
        q = p.off + k
        return by[q] if 0 <= q < len(by) else None

    def wr(self, st, p, v, n):
        if not isinstance(p, P) or p.obj is None:
            raise Broken("writes through a pointer that is not known")
        if p.obj[0] == "~":
            _, o, lo, hi = p.obj
            for k in [k for k in st.mem if k[0] == o and lo <= k[1] < hi]:
                del st.mem[k]
            st.smashed.setdefault(o, set()).add((lo, hi))
            return
        if self.track is not None:
            for k in range(n):
                self.track[(p.obj, p.off + k)] = self.cur
        if isinstance(v, P):
            st.mem[(p.obj, p.off)] = v
            for k in range(1, 8):
                st.mem.pop((p.obj, p.off + k), None)
            return
        v = fill(v, 8 * n)
        for k in range(n):
            st.mem[(p.obj, p.off + k)] = v[8 * k:8 * k + 8]
        # what a pointer was cut from is gone
        for k in range(1, 8):
            if isinstance(st.mem.get((p.obj, p.off - k)), P):
                del st.mem[(p.obj, p.off - k)]

    def ptr(self, st, p):
        """The pointer stored at p."""
        x = st.mem.get((p.obj, p.off))
        if isinstance(x, P):
            return x
        if x is not None:
            b = self.rd(st, p, 8)
            if not isinstance(b, P) and iscon(b) and not num(b):
                return NULL
            return P(("?", b), 0)
        return P(("*", p.obj, p.off), 0)

    def copy(self, st, d, s, n):
        """Copies n bytes, with what the containers in them hold."""
        got = []
        k = 0
        while k < n:
            x = st.mem.get((s.obj, s.off + k))
            if isinstance(x, P):
                got.append((k, x, 8))
                k += 8
            else:
                t = self.ftype(st, s.obj, s.off + k) if x is None else None
                if t and clean(t).endswith("*") and n - k >= 8:
                    got.append((k, self.ptr(st, P(s.obj, s.off + k)), 8))
                    k += 8
                    continue
                got.append((k, self.rd(st, P(s.obj, s.off + k), 1), 1))
                k += 1
        sz = [(k, v) for (o, off), v in st.sz.items() if o == s.obj and s.off <= off < s.off + n for k in (off - s.off,)]
        for k, v, m in got:
            self.wr(st, P(d.obj, d.off + k), v, m)
        for k, v in sz:
            st.sz[(d.obj, d.off + k)] = v
        return True

    # ---- the walk ---------------------------------------------------------
    def op(self, st, fr, o):
        k = o[0]
        if k == "i":
            if o[1] not in fr.env:
                raise Broken("value %%%d of %s has no model" % (o[1], fr.f.qual))
            return fr.env[o[1]]
        if k == "c":
            return const(o[1], o[2])
        if k == "a":
            return fr.env[("a", o[1])]
        if k == "n":
            return NULL
        if k == "g":
            return P(("g", o[1]), 0)
        if k == "F":
            return P(("F", o[1]), 0)
        if k == "ce":
            if o[1] == "getelementptr":
                b = self.op(st, fr, o[2][0])
                return P(b.obj, b.off + o[3].get("off", 0))
            if o[1] in ("bitcast", "addrspacecast"):
                return self.op(st, fr, o[2][0])
        if k == "z":
            return const(0, 64)
        if k == "u":
            return const(0, 64)
        if k == "fp":
            return ("fp", o[1])
        return self.term("const", 64, )

    def run(self, args, st=None):
        st = st or State()
        env = {("a", k): v for k, v in enumerate(args)}
        st.frames = [Frame(self.f, env)]
        done, work, total = [], [st], 0
        while work:
            st = work.pop()
            while True:
                total += 1
                if total > self.maxsteps:
                    raise Broken("the paths of %s are too long" % self.f.qual)
                r = self.stepone(st)
                if r is None:
                    continue
                if r == "dead":
                    break
                if isinstance(r, State):
                    work.append(r)
                    if len(work) + len(done) > self.maxpaths:
                        raise Broken("too many paths through %s" % self.f.qual)
                    continue
                done.append((r[1], st))
                break
        return done

    def goto(self, st, fr, s):
        fr.prev, fr.b, fr.k = fr.b, s, 0
        blk = fr.f.blocks[s]
        new = {}
        for i in blk.insts:
            if i.op != "phi":
                break
            for o, ib in zip(i.ops, i.d["inb"]):
                if ib == fr.prev:
                    v = self.op(st, fr, o)
                    w = width(i.ty)
                    new[i.id] = fill(v, w) if w and not isinstance(v, P) else v
                    break
            fr.k += 1
        fr.env.update(new)
        return None

    def cut(self, v, w):
        return v if isinstance(v, P) or w is None else fill(v, w)

    def decide(self, st, c, i):
        """True, False or None; a condition met before keeps its outcome."""
        if iscon(c):
            return bool(num(c))
        if c[0] in st.assume:
            return st.assume[c[0]]
        v = self.ev(c)
        if v is not None:
            self.control.add(c[0][0])
            st.assume[c[0]] = bool(v & 1)
            return bool(v & 1)
        x = c[0][0]
        if isinstance(x, tuple) and x[0] == "t" and x[1] == "not" and x[3][0] in st.assume:
            return not st.assume[x[3][0]]
        return None

    def stepone(self, st):
        fr = st.frames[-1]
        st.steps += 1
        self.cur = fr.f.blocks[fr.b].insts[fr.k]
        i = fr.f.blocks[fr.b].insts[fr.k]
        op = i.op
        E = lambda n: self.op(st, fr, i.ops[n])
        try:
            if op == "br":
                if len(i.ops) == 1:
                    return self.goto(st, fr, i.bb.succs[0])
                c = E(0)
                d = self.decide(st, c, i)
                if d is None and self.nofork:
                    raise Unknown(i, self.open(c))
                if d is None:
                    self.forked.add(i.where())
                    other = st.copy()
                    self.suppose(other, c[0], False)
                    self.goto(other, other.frames[-1], i.ops[1][1])
                    self.suppose(st, c[0], True)
                    self.goto(st, fr, i.ops[2][1])
                    return other
                return self.goto(st, fr, i.ops[2][1] if d else i.ops[1][1])
            if op == "switch":
                v = E(0)
                n = num(v) if iscon(v) else self.ev(v)
                if n is not None:
                    w = len(v)
                    self.control.add(v) if not iscon(v) else None
                    for c, s in i.d["cases"]:
                        if c & ((1 << w) - 1) == n:
                            return self.goto(st, fr, s)
                    return self.goto(st, fr, i.d["default"])
                raise Broken("%s: a switch over %s is not decided" % (i.where(), show(v)))
            if op == "ret":
                v = E(0) if i.ops else ()
                if i.ops and i.ops[0][0] == "c":
                    v = const(i.ops[0][1], i.ops[0][2])
                st.frames.pop()
                if fr.tag:
                    x = fr.tag(st, v)
                    v = v if x is None else x
                if not st.frames:
                    return ("ret", v)
                if fr.ret == "sub":
                    st.user["subret"] = v
                    return None
                up = st.frames[-1]
                c, ret = fr.ret
                if ret and c.ty != "void":
                    up.env[c.id] = v
                if c.op == "invoke":
                    return self.goto(st, up, c.d["normal"])
                up.k += 1
                return None
            if op in ("unreachable", "resume"):
                return "dead"
            r = self.inst(st, fr, i, op, E)
            if r == "dead":
                return "dead"
            if r == "called":
                return None
            if r is not None:
                fr.env[i.id] = r
            if op == "invoke":
                return self.goto(st, fr, i.d["normal"])
            fr.k += 1
            return None
        except Broken as x:
            if " at " not in str(x):
                raise Broken("%s: %s at %s" % (self.f.qual, x, i.where()))
            raise

    def open(self, b):
        """The sources of the bits which have no value in the premise."""
        out, seen, todo = set(), set(), [b]
        while todo:
            for x in todo.pop():
                s = x[0] if isinstance(x, tuple) else None
                if s is None or s in seen:
                    continue
                seen.add(s)
                if isinstance(s, tuple):
                    for a in s[3:]:
                        if isinstance(a, P):
                            out.add("the address " + self.oname(State(), a.obj) if a.obj else "an address")
                        else:
                            todo.append(a)
                elif self.value(s) is None:
                    out.add(s)
        return sorted(out)

    def suppose(self, st, bit, v):
        st.assume[bit] = v
        x = bit[0]
        if isinstance(x, tuple) and x[0] == "t" and x[1] == "not":
            st.assume[x[3][0]] = not v

    def inst(self, st, fr, i, op, E):
        w = width(i.ty)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = E(0), E(1)
            if isinstance(a, P) and isinstance(b, P) and op == "sub" and a.obj == b.obj:
                return const(a.off - b.off, w)
            a, b = self.cut(a, w), self.cut(b, w)
            if op in ("shl", "lshr", "ashr") and not iscon(b):
                v = self.ev(b)
                if v is not None and self.decide(st, self.icmp(st, "eq", b, const(v, len(b))), i):
                    b = const(v, len(b))
            return self.binop(op, a, b, w)
        if op == "icmp":
            a, b = E(0), E(1)
            if not isinstance(a, P) and not isinstance(b, P) and len(a) != len(b):
                n = min(len(a), len(b))
                a, b = a[:n], b[:n]
            return self.icmp(st, i.d["pred"], a, b)
        if op in ("trunc", "zext", "sext"):
            a = E(0)
            if isinstance(a, P):
                return self.term("ptrbits", w)
            return fill(a, w, op == "sext")
        if op in ("freeze", "bitcast"):
            return self.cut(E(0), w)
        if op == "ptrtoint":
            return E(0)
        if op == "inttoptr":
            a = E(0)
            return a if isinstance(a, P) else P(("?", a), 0)
        if op == "select":
            c = E(0)
            d = self.decide(st, c, i)
            a, b = self.cut(E(1), w), self.cut(E(2), w)
            if d is None:
                if a == b:
                    return a
                if isinstance(a, P) or isinstance(b, P):
                    raise Broken("a pointer depends on %s" % show(c))
                return self.term("select", w, c, a, b)
            return a if d else b
        if op == "alloca":
            o = ("l", fr.f.name, i.id, fr.n)
            a = re.match(r'%"?(?:struct|class)\.(.*?)"?$', i.d.get("aty", ""))
            st.types.setdefault(o, a.group(1) if a else None)
            st.user.setdefault(("name", o), "local." + (i.d.get("nm") or "%d" % i.id))
            return P(o, 0)
        if op == "getelementptr":
            b = E(0)
            if not isinstance(b, P):
                raise Broken("address arithmetic on a number")
            off = i.d.get("lb")
            if off is None:
                raise Broken("address arithmetic of unknown scale")
            off += b.off
            for o, sc in i.d["lv"]:
                x = self.op(st, fr, o)
                n = self.ev(x) if not isinstance(x, P) else None
                if n is None:
                    q = self.ty.array(self.otype(st, b.obj), off, sc) if len(i.d["lv"]) == 1 and not isinstance(x, P) else None
                    if q:
                        return P(("~", b.obj) + q, 0)
                    raise Broken("indexes %s with %s" % (self.oname(st, b.obj), show(x)))
                if not iscon(x):
                    self.control.add(x)
                if n >> (len(x) - 1):
                    n -= 1 << len(x)
                off += n * sc
            return P(b.obj, off)
        if op == "load":
            p = E(0)
            if not isinstance(p, P):
                raise Broken("reads at a number")
            if p.obj is None:
                return "dead"
            if i.ty == "ptr":
                return self.ptr(st, p)
            if w is None:
                n = {"float": 4, "double": 8}.get(i.ty)
                if n is None:
                    raise Broken("loads a %s" % i.ty)
                return self.rd(st, p, n)
            r = self.rd(st, p, (w + 7) // 8)
            return self.cut(r, w) if not isinstance(r, P) else r
        if op == "store":
            v, p = E(0), E(1)
            ty = i.d.get("vty", "")
            if not isinstance(p, P):
                raise Broken("writes at a number")
            if p.obj is None:
                return "dead"
            n = 8 if ty == "ptr" else (width(ty) + 7) // 8 if width(ty) else {"float": 4, "double": 8}.get(ty)
            if n is None:
                raise Broken("stores a %s" % ty)
            if ty == "ptr" and not isinstance(v, P):
                v = NULL if iscon(v) and not num(v) else P(("?", v), 0)
            self.wr(st, p, v, n)
            if ("watch", p.obj) in st.user:
                st.user[("watch", p.obj)](st, p, v, n, i)
            return None
        if op in ("call", "invoke"):
            return self.call(st, fr, i, E)
        if op == "extractvalue":
            a = E(0)
            ix = i.d.get("idx") or [0]
            if isinstance(a, list):
                return a[ix[0]]
            raise Broken("takes a part of an unknown aggregate")
        if op == "insertvalue":
            a = i.ops[0]
            a = list(self.op(st, fr, a)) if a[0] == "i" else [None] * 4
            a[(i.d.get("idx") or [0])[0]] = E(1)
            return a
        if op == "landingpad":
            return "dead"
        if i.ty in ("float", "double") or op in ("fcmp", "fptosi", "fptoui"):
            return self.term(op, w or 64, *[E(k) if not isinstance(E(k), P) else () for k in range(len(i.ops))])
        raise Broken("instruction %s has no model" % op)

    def boot(self, st, g, args):
        """Runs g (a constructor) on a state that is not running."""
        st.frames = [Frame(g, {("a", k): v for k, v in enumerate(args)})]
        while True:
            r = self.stepone(st)
            if isinstance(r, tuple):
                return r[1]
            if r is not None:
                raise Broken("%s forks or does not return" % g.qual)

    def sub(self, st, g, args):
        """Runs g to its end within one step of the caller."""
        st.nobj += 1
        d = len(st.frames)
        st.frames.append(Frame(g, {("a", k): v for k, v in enumerate(args)}, ret="sub", n=st.nobj))
        while len(st.frames) > d:
            r = self.stepone(st)
            if isinstance(r, tuple):
                return r[1]
            if r is not None:
                raise Broken("%s forks or does not return" % g.qual)
        return st.user.pop("subret", ())

    def enter(self, st, g, args, i, ret=True, after=None):
        """Continues in g; `after(state, value)` may replace its result."""
        st.nobj += 1
        st.frames.append(Frame(g, {("a", k): v for k, v in enumerate(args)}, ret=(i, ret), n=st.nobj, tag=after))
        return "called"

    def call(self, st, fr, i, E):
        if i.d.get("noreturn"):
            return "dead"
        c = i.callee
        if c is None:
            o = i.d["callee"]
            q = self.op(st, fr, o) if isinstance(o, (list, tuple)) and o and o[0] in ("i", "a", "F") else None
            if not isinstance(q, P) or q.obj is None or q.obj[0] not in "Fg" or q.obj[1] not in self.m.functions:
                raise Broken("calls through a pointer")
            c = q.obj[1]
        args = [self.op(st, fr, o) for o in i.ops]
        for n, o in enumerate(i.ops):
            if o[0] == "c":
                args[n] = const(o[1], o[2])
        if self.model:
            r = self.model(self, st, i, args)
            if r is not None:
                return None if r == () else r
        g = self.m.functions.get(c)
        if c == "__cxa_guard_acquire":
            self.hush += 1
            return const(1, 32)
        if c in ("__cxa_guard_release", "__cxa_guard_abort"):
            self.hush -= 1
            self.wr(st, args[0], const(1, 8), 1)
            return None
        if c == "__cxa_atexit":
            return const(0, 32)
        r = self.stl.call(st, i, c, i.cdem or c, args)
        if r is not None:
            return None if r == () else r
        if g is not None and g.blocks:
            if len(st.frames) > 40:
                raise Broken("recursion in %s" % g.qual)
            self.enter(st, g, args, i)
            return "called"
        raise Broken("calls %s, which has no model" % (i.cdem or c)[:160])


def cmpi(p, a, b):
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[p]


def cmpn(pred, a, b, w):
    m = (1 << w) - 1
    a, b = a & m, b & m
    if pred[0] == "s" and pred != "s":
        a = a - (1 << w) if a >> (w - 1) else a
        b = b - (1 << w) if b >> (w - 1) else b
        pred = "u" + pred[1:]
    return cmpi(pred[1:] if pred[0] == "u" else pred, a, b)


def calc(op, w, a, ws):
    m = (1 << w) - 1
    if op.startswith("icmp "):
        return int(cmpn(op[5:], a[0], a[1], ws[0]))
    s = lambda v, n: v - (1 << n) if v >> (n - 1) & 1 else v
    if op == "add":
        return (a[0] + a[1]) & m
    if op == "sub":
        return (a[0] - a[1]) & m
    if op == "mul":
        return (a[0] * a[1]) & m
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "not":
        return ~a[0] & m
    if op == "shl":
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        return (s(a[0], w) >> min(a[1], w - 1)) & m
    if op in ("udiv", "urem"):
        if not a[1]:
            return 0
        return a[0] // a[1] if op == "udiv" else a[0] % a[1]
    if op in ("sdiv", "srem"):
        x, y = s(a[0], w), s(a[1], w)
        if not y:
            return 0
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & m
    if op == "select":
        return a[1] if a[0] & 1 else a[2]
    if op in ("umin", "umax"):
        return min(a) if op == "umin" else max(a)
    if op in ("smin", "smax"):
        return (min if op == "smin" else max)(s(x, w) for x in a) & m
    if op == "ctlz":
        return w - a[0].bit_length()
    if op == "cttz":
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    if op == "ctpop":
        return bin(a[0]).count("1")
    if op == "abs":
        return abs(s(a[0], w)) & m
    return None


VEC = re.compile(r"^(?:[\w:*& ]+ )?std::(vector|array|deque|basic_string)<")


class Std(object):
    """Contracts of the library calls."""

    def __init__(self, p):
        self.p = p

    def member(self, d):
        """(class, template args text, method) of a std:: member function."""
        n, at = 0, None
        for j, ch in enumerate(d):
            if ch == "(" and not n:
                break
            if not n and d.startswith("std::", j) and (j == 0 or d[j - 1] == " "):
                at = j
            n += (ch == "<") - (ch == ">")
            if n < 0:
                n = 0
        d = d[at:] if at is not None else ""
        a = re.match(r"^std::(?:__cxx11::|__1::)?(\w+)<", d)
        if not a:
            return None
        k = a.end()
        n, j = 1, k
        while j < len(d) and n:
            n += d[j] == "<"
            n -= d[j] == ">"
            j += 1
        inner = d[k:j - 1]
        b = re.match(r"::((?:operator[^(]*(?:\(\))?)|~?\w+)", d[j:])
        if not b:
            return None
        return a.group(1), inner, b.group(1).strip()

    def size(self, st, p):
        v = st.sz.get((p.obj, p.off))
        if v is None:
            v = var(self.p.cname(st, p.obj, p.off) + ".size", 64)
            n = self.p.ev(v)
            if n is not None:
                v = const(n, 64)
        return v

    def nsize(self, st, p):
        v = self.p.ev(self.size(st, p))
        if v is None:
            raise Broken("the size of %s matters" % self.p.cname(st, p.obj, p.off))
        return v

    def data(self, st, p, el):
        o = ("D", p.obj, p.off)
        if o not in st.types or st.types[o] is None:
            st.types[o] = el + "[1000000000]"
        return P(o, 0)

    def n(self, b):
        v = self.p.ev(b) if not isinstance(b, P) else None
        if v is None:
            raise Broken("an index or size is %s" % (show(b)))
        return v

    def vset(self, st, p, el, first, count, v=None, src=None):
        es = self.p.ty.size(el)
        d = self.data(st, p, el)
        if src is None and count * es > 2048 and el in SIZES:
            z = (first * es, (first + count) * es)
            st.zeros.setdefault(d.obj, []).append(z)
            for k in [k for k in st.mem if k[0] == d.obj and z[0] <= k[1] < z[1]]:
                del st.mem[k]
            return
        for k in range(first, first + count):
            q = P(d.obj, k * es)
            if src is not None:
                self.p.copy(st, q, src, es)
            else:
                self.wipe(st, q, es)
                self.ctor(st, q, el)

    def wipe(self, st, q, es):
        for k in range(es):
            st.mem[(q.obj, q.off + k)] = const(0, 8)
        t = self.p.otype(st, q.obj)
        k = 0
        while t and k < es:
            c = self.p.ty.locate(t, q.off + k)
            ct = clean(c[3]) if c else ""
            if c and c[1] == 0 and ct.startswith(("std::vector<", "std::deque<", "std::basic_string<")):
                st.sz[(q.obj, q.off + k)] = const(0, 64)
                k += c[2] or 1
            else:
                k += max((c[2] - c[1]) if c and c[2] else 1, 1)

    def call(self, st, i, c, d, a):
        if c.startswith("llvm."):
            return self.llvm(st, i, c, a)
        if d.startswith("operator new"):
            return P(st.fresh("new"), 0)
        if d.startswith("operator delete"):
            return ()
        if c in ("memcpy", "memmove", "memset", "memcmp"):
            return self.llvm(st, i, "llvm." + c, a)
        if c == "abort":
            return "dead"
        if d.startswith("std::") and "basic_ostream<" in d.split("(")[0] or c.startswith(("_ZStls", "_ZNSo")):
            return a[0] if i.ty == "ptr" and a else ()      # a log message
        m = self.member(d)
        x = re.match(r"^std::_Bit_reference::(operator bool|operator=)", d)
        if x:
            q = self.p.ptr(st, a[0])
            if x.group(1) == "operator bool":
                return self.p.rd(st, q, 1)[:1]
            v = self.p.rd(st, self.p.ptr(st, a[1]), 1) if isinstance(a[1], P) else a[1]
            self.p.wr(st, q, v[:1], 1)
            return a[0]
        if m is None:
            return self.free(st, i, d, a)
        cls, inner, fn = m
        ar = targs("x<" + inner + ">")
        if cls in ("vector", "array", "deque"):
            return self.vec(st, i, cls, ar, fn, d, a)
        if cls == "unique_ptr":
            return self.uniq(st, i, ar, fn, d, a)
        if cls in ("allocator", "initializer_list", "function", "__ostream"):
            if cls == "initializer_list" and fn in ("size", "begin", "end") and a and isinstance(a[0], P):
                n = self.p.rd(st, P(a[0].obj, a[0].off + 8), 8)
                if fn == "size":
                    return n
                b = self.p.ptr(st, a[0])
                return b if fn == "begin" else P(b.obj, b.off + self.n(n) * (self.p.ty.size(ar[0]) or 1))
            return ()
        if cls == "pair" and fn == "pair":
            return None
        return self.free(st, i, d, a)

    def free(self, st, i, d, a):
        x = re.match(r"^(?:[\w:*&<>, ]* )?std::(min|max|copy|copy_n|fill|fill_n|move|forward|swap|accumulate|abs|end|begin)(<|\()", d)
        if x:
            f = x.group(1)
            w = None
            t = targs(d[d.index("std::" + f) + 5:d.index("(", d.index("std::" + f))] + "") if "<" in d else []
            es = self.p.ty.size(clean(t[0])) if t else None
            if f in ("min", "max") and len(a) == 2 and es:
                u, v = self.p.rd(st, a[0], es), self.p.rd(st, a[1], es)
                if u == v:
                    return a[0]
                sg = not clean(t[0]).startswith("unsigned")
                r = self.p.icmp(st, ("s" if sg else "u") + "lt", v, u)
                q = self.p.decide(st, r, i)
                if q is None:
                    o = P(st.fresh("tmp"), 0)
                    self.p.wr(st, o, self.p.term("select", 8 * es, r, v if f == "min" else u, u if f == "min" else v), es)
                    return o
                return (a[1] if q else a[0]) if f == "min" else (a[0] if q else a[1])
            if f in ("move", "forward") and len(a) == 1:
                return a[0]
            if f in ("copy", "move") and len(a) == 3 and all(isinstance(z, P) for z in a):
                self.p.copy(st, a[2], a[0], a[1].off - a[0].off)
                return P(a[2].obj, a[2].off + a[1].off - a[0].off)
            if f == "fill" and len(a) == 3 and len(t) >= 2:
                es = self.p.ty.size(clean(t[1]))
                if es:
                    k = a[0].off
                    while k < a[1].off:
                        self.p.copy(st, P(a[0].obj, k), a[2], es)
                        k += es
                    return ()
        return None

    def uniq(self, st, i, ar, fn, d, a):
        p = a[0]
        if fn == "unique_ptr" or fn == "operator=" or fn == "reset":
            if fn == "operator=" or fn == "unique_ptr" and len(a) > 1 and "&&" in d.split("(")[-1]:
                v = self.p.ptr(st, a[1])
                self.p.wr(st, a[1], NULL, 8)
                self.p.wr(st, p, v, 8)
                return p if fn == "operator=" else ()
            v = a[1] if len(a) > 1 and isinstance(a[1], P) else NULL
            if isinstance(v, P) and v.obj is not None and v.obj[0] == "new" and not st.types.get(v.obj):
                st.types[v.obj] = ar[0]
            self.p.wr(st, p, v, 8)
            return ()
        if fn in ("operator->", "get", "operator*"):
            return self.p.ptr(st, p)
        if fn == "release":
            v = self.p.ptr(st, p)
            self.p.wr(st, p, NULL, 8)
            return v
        if fn == "operator bool":
            return const(int(self.p.ptr(st, p).obj is not None), 1)
        if fn == "operator[]":
            v = self.p.ptr(st, p)
            es = self.p.ty.size(ar[0].replace("[]", ""))
            return P(v.obj, v.off + es * self.n(a[1]))
        if fn.startswith("~"):
            return ()
        return None

    def vec(self, st, i, cls, ar, fn, d, a):
        el = ar[0]
        es = self.p.ty.size(el)
        if not a or not isinstance(a[0], P):
            return None
        p = a[0]
        if es is None:
            raise Broken("size of %s unknown" % el)
        if cls == "array":
            n = int(re.match(r"\d+", ar[1]).group(0))
            if fn in ("operator[]", "at"):
                k = self.n(a[1])
                return P(p.obj, p.off + k * es)
            if fn in ("data", "begin", "cbegin"):
                return p
            if fn in ("end", "cend"):
                return P(p.obj, p.off + n * es)
            if fn == "size":
                return const(n, 64)
            if fn == "back":
                return P(p.obj, p.off + (n - 1) * es)
            if fn == "front":
                return p
            if fn == "fill":
                for k in range(n):
                    self.p.copy(st, P(p.obj, p.off + k * es), a[1], es)
                return ()
            return None
        D = lambda: self.data(st, p, el)
        if fn == cls:                      # constructors
            if len(a) > 1 and isinstance(a[1], P) and "&&" in d.split("(")[-1]:
                self.move(st, p, a[1], el)
                return ()
            st.sz[(p.obj, p.off)] = const(0, 64)
            if p.off == 0 and not self.p.otype(st, p.obj):
                st.types[p.obj] = "std::%s<%s>" % (cls, ", ".join(ar))
            if "initializer_list" in d.split("::" + cls, 1)[-1]:
                n = self.n(a[2])
                for k in range(n):
                    self.p.copy(st, P(D().obj, k * es), P(a[1].obj, a[1].off + k * es), es)
                st.sz[(p.obj, p.off)] = const(n, 64)
                return ()
            if len(a) > 1 and not isinstance(a[1], P):
                n = self.p.ev(a[1])
                if n is None:
                    st.sz[(p.obj, p.off)] = a[1]
                    return ()
                st.sz[(p.obj, p.off)] = a[1]
                fromval = len(a) > 3 or len(a) > 2 and "allocator<" not in d.split("(")[-1].split(",")[1]
                if n <= 100000:
                    self.vset(st, p, el, 0, n, src=a[2] if fromval else None)
                return ()
            if len(a) >= 2 and isinstance(a[1], P) and "allocator" not in d.split("::" + cls, 1)[-1].split(",")[0].split("(")[-1][:20]:
                if len(a) >= 3 and isinstance(a[2], P) and "Iter" in d or "__normal_iterator" in d.split("::" + cls + "<")[-1] or re.search(r"::vector<[^(]*\*,", d):
                    n = (a[2].off - a[1].off) // es
                    for k in range(n):
                        self.p.copy(st, P(D().obj, k * es), P(a[1].obj, a[1].off + k * es), es)
                    st.sz[(p.obj, p.off)] = const(n, 64)
                    return ()
                self.assign(st, p, a[1], el)
                return ()
            return ()
        if fn == "size":
            return self.size(st, p)
        if fn in ("length", "capacity"):
            return self.size(st, p)
        if fn == "empty":
            return self.p.icmp(st, "eq", self.size(st, p), const(0, 64))
        if fn in ("operator[]", "at"):
            k = self.p.ev(a[1]) if not isinstance(a[1], P) else None
            q = P(("~", D().obj, 0, 1 << 40), 0) if k is None and es <= 8 else P(D().obj, self.n(a[1]) * es)
            return [q, const(1, 64)] if el == "bool" and i.ty[:1] == "{" else q
        if fn in ("data", "begin", "front", "cbegin"):
            return D()
        if fn in ("end", "cend"):
            return P(D().obj, self.nsize(st, p) * es)
        if fn == "back":
            return P(D().obj, (self.nsize(st, p) - 1) * es)
        if fn in ("reserve", "shrink_to_fit"):
            return ()
        if fn.startswith("~"):
            return ()
        if fn == "clear":
            st.sz[(p.obj, p.off)] = const(0, 64)
            return ()
        if fn == "resize":
            n = self.n(a[1])
            k = self.nsize(st, p)
            if n > 200000 and el not in SIZES:
                raise Broken("resize to %d" % n)
            if n > k:
                self.vset(st, p, el, k, n - k, src=a[2] if len(a) > 2 else None)
            st.sz[(p.obj, p.off)] = const(n, 64)
            return ()
        if fn == "pop_back":
            st.sz[(p.obj, p.off)] = const(self.nsize(st, p) - 1, 64)
            return ()
        if fn in ("push_back", "emplace_back"):
            k = self.nsize(st, p)
            q = P(D().obj, k * es)
            st.sz[(p.obj, p.off)] = const(k + 1, 64)
            if len(a) == 1:
                self.wipe(st, q, es)
                self.ctor(st, q, el)
            elif fn == "push_back" or clean(self.earg(d)) == clean(el) or el in ("int", "unsigned char", "unsigned short", "unsigned int"):
                self.push(st, q, a[1], el, es, d)
            elif el.startswith("std::vector<") and len(a) == 3 and all(isinstance(x, P) for x in a[1:]):
                # a range given by references to its ends (an array is its own)
                x = re.search(r"::emplace_back<(.*)>\(", d)
                t = targs("x<" + x.group(1) + ">")
                b0, b1 = [y if "[" in z else self.p.ptr(st, y) for y, z in zip(a[1:], t)]
                if b0.obj != b1.obj:
                    raise Broken("emplace_back of %s" % d)
                self.wipe(st, q, es)
                e = targs(el)[0]
                n = b1.off - b0.off
                self.p.copy(st, self.data(st, q, e), b0, n)
                st.sz[(q.obj, q.off)] = const(n // self.p.ty.size(e), 64)
            else:
                st.sz[(p.obj, p.off)] = const(k, 64)
                return None
            return q if fn == "emplace_back" and i.ty == "ptr" else ()
        if fn == "operator=":
            if "&&" in d.split("(")[-1]:
                self.move(st, p, a[1], el)
            else:
                self.assign(st, p, a[1], el)
            return p
        if fn == "swap":
            o = P(st.fresh("swap"), 0)
            for x, y in ((o, p), (p, a[1]), (a[1], o)):
                self.move(st, x, y, el)
            return ()
        if fn == "assign" and len(a) == 3 and not isinstance(a[1], P):
            n = self.n(a[1])
            self.vset(st, p, el, 0, n, src=a[2])
            st.sz[(p.obj, p.off)] = const(n, 64)
            return ()
        if fn == "assign" and len(a) == 3 and isinstance(a[1], P) and isinstance(a[2], P):
            n = (a[2].off - a[1].off) // es
            tmp = P(st.fresh("cpy"), 0)
            self.p.copy(st, tmp, a[1], n * es)
            self.p.copy(st, D(), tmp, n * es)
            st.sz[(p.obj, p.off)] = const(n, 64)
            return ()
        if fn == "insert" and len(a) == 4 and all(isinstance(x, P) for x in a[1:]):
            k, n = self.nsize(st, p), (a[3].off - a[2].off) // es
            at = a[1].off // es
            if at != k:
                raise Broken("insertion in the middle")
            self.p.copy(st, P(D().obj, k * es), a[2], n * es)
            st.sz[(p.obj, p.off)] = const(k + n, 64)
            return P(D().obj, k * es)
        return None

    def earg(self, d):
        x = re.search(r"::emplace_back<(.*)>\(", d)
        return (targs("x<" + x.group(1) + ">") or [""])[0].replace(" const&", "").replace("&", "").strip() if x else ""

    def proto(self, st, el):
        """A default-initialised object of the type, or None."""
        k = ("proto", el)
        if k not in st.user:
            n = el.split("::")[-1]
            g = self.p.m.functions.get("bsa_init_Enc" + n) if "::enc::" in el else None
            g = g or self.p.m.functions.get("bsa_init_" + n)
            if g is None or not g.blocks:
                st.user[k] = None
                if "brunsli::" in el and self.p.ty.get(el):
                    raise Broken("no constructor known for " + el)
            else:
                q = P(st.fresh("proto", el), 0)
                st.user[("name", q.obj)] = "uninitialised " + el.split("::")[-1]
                st.user[k] = q
                self.p.sub(st, g, [q])
        return st.user[k]

    def ctor(self, st, q, el):
        o = self.proto(st, el)
        if o is not None:
            for k in range(self.p.ty.size(el) or 0):
                st.mem.pop((q.obj, q.off + k), None)
            self.push(st, q, o, el, self.p.ty.size(el), "")

    def push(self, st, q, src, el, es, d):
        self.p.copy(st, q, src, es)
        self.deep(st, q, src, es)

    def deep(self, st, q, src, es):
        """Copies the elements of the containers among the copied members."""
        t = self.p.otype(st, q.obj) or self.p.otype(st, src.obj)
        for (o, off) in [k for k in list(st.sz) if k[0] == src.obj and src.off <= k[1] < src.off + es]:
            so, do = ("D", o, off), ("D", q.obj, q.off + off - src.off)
            for k in [k for k in list(st.mem) if k[0] == so]:
                st.mem[(do, k[1])] = st.mem[k]
            st.sz[(q.obj, q.off + off - src.off)] = st.sz[(o, off)]

    def assign(self, st, p, s, el):
        n = self.size(st, s)
        es = self.p.ty.size(el)
        so, do = self.data(st, s, el), self.data(st, p, el)
        v = self.p.ev(n)
        if v is not None and v <= 100000:
            self.p.copy(st, do, so, v * es)
        elif v is None:
            st.user[("same", do.obj)] = so.obj
        st.sz[(p.obj, p.off)] = n

    def move(self, st, p, s, el):
        self.assign(st, p, s, el)
        st.sz[(s.obj, s.off)] = const(0, 64)

    def llvm(self, st, i, c, a):
        if re.match(r"llvm\.(lifetime|dbg|experimental|assume|donothing|invariant|stack|prefetch|var)", c):
            return ()
        x = re.match(r"llvm\.(expect|umin|umax|smin|smax|abs|ctlz|cttz|ctpop|bswap|memcpy|memmove|memset|fshl|objectsize|is\.constant|memcmp)", c)
        if not x:
            return None
        f = x.group(1)
        w = width(i.ty)
        if f == "expect":
            return a[0]
        if f in ("umin", "umax", "smin", "smax"):
            r = self.p.icmp(st, ("u" if f[0] == "u" else "s") + "lt", a[0], a[1])
            q = self.p.decide(st, r, i)
            if q is None:
                return self.p.term(f, w, a[0], a[1])
            return (a[0] if q else a[1]) if "min" in f else (a[1] if q else a[0])
        if f in ("abs", "ctlz", "cttz", "ctpop"):
            if iscon(a[0]):
                return const(calc(f, w, [num(a[0])], [w]), w)
            v = self.p.ev(a[0])
            if f == "ctlz" and v:       # the leading one is where the premise has it
                for k in range(w - 1, v.bit_length() - 2, -1):
                    if isinstance(a[0][k], tuple) and self.p.decide(st, (a[0][k],), i) != bool(v >> k & 1):
                        raise Broken("a bit differs from its premise")
                return const(w - v.bit_length(), w)
            if f == "abs" and v is not None:
                q = self.p.decide(st, self.p.icmp(st, "slt", a[0], const(0, w)), i)
                return self.p.binop("sub", const(0, w), a[0], w) if q else a[0]
            return self.p.term(f, w, a[0])
        if f == "is.constant":
            return const(0, 1)
        if f == "bswap":
            return tuple(y for k in range(len(a[0]) - 8, -8, -8) for y in a[0][k:k + 8])
        if f in ("memcpy", "memmove"):
            n = self.p.ev(a[2])
            if n is None:
                st.user.setdefault("copies", [])
                st.user["copies"] = st.user["copies"] + [(a[0], a[1], a[2], i)]
                return a[0] if i.ty == "ptr" else ()
            self.p.copy(st, a[0], a[1], n)
            self.deep(st, a[0], a[1], n)
            return a[0] if i.ty == "ptr" else ()
        if f == "memcmp":
            n = self.n(a[2])
            for k in range(n):
                x, y = (self.p.rd(st, P(q.obj, q.off + k), 1) for q in a[:2])
                if x == y:
                    continue
                e = self.p.icmp(st, "eq", x, y)
                d = self.p.decide(st, e, i)
                if d is None:
                    raise Broken("compares %s with %s" % (show(x), show(y)))
                if not d:
                    u, v = self.p.ev(x), self.p.ev(y)
                    return const(1 if u is None or u > v else -1, 32)
            return const(0, 32)
        if f == "memset":
            n = self.n(a[2])
            for k in range(n):
                self.p.wr(st, P(a[0].obj, a[0].off + k), a[1], 1)
            return a[0] if i.ty == "ptr" else ()
        return None


def fan(fn, items, jobs=8):
    """[fn(x) for x in items], computed by child processes."""
    import multiprocessing
    global _job
    items = list(items)
    _job = (fn, items)
    with multiprocessing.get_context("fork").Pool(min(jobs, len(items))) as pool:
        got = pool.map(_one, range(len(items)), 1)
    out = []
    bad = [v for ok, v in got if not ok]
    if bad:
        raise AnalysisBroken("; ".join(sorted(set(bad))[:4]))
    for ok, v in got:
        out.append(v)
    return out


def _one(k):
    try:
        return True, _job[0](_job[1][k])
    except AnalysisBroken as x:
        return False, str(x)
    except Exception as x:      # a construct the models did not foresee
        import traceback
        return False, "internal error: %s" % traceback.format_exc().strip().split("\n")[-1] + str(traceback.extract_tb(x.__traceback__)[-1])
