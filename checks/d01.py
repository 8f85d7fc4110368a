"""D01: every resumable step confirms enough input before consuming any.

R1  from each budget check that succeeded, the longest path to the next check
    or to the return consumes at most the budget (bsa/cost.py).
R2  from the entry of a step nothing is consumed before the first check.
R3  the primitives consume what R1 charges for them.
R4  the checks themselves say yes only if the amount is there.
R5  a reader is told that input is complete only if the rest of the section is there.
R6  a reader is given no more than what is both available and in the section.
"""
from bsa import vs, cost
from bsa.scen import TOP
from checks.lib import *

KEEP = ("GetNextWord", "ReadBits", "ReadBit", "ReadSymbol", "BrunsliBitReaderDrop", "ReadHistogram",
        "ReadFromBitStream", "ReadHuffmanCodeLengths", "DecodeContextMap", "DecodeCoeffOrder", "CanRead",
        "DecodeVarint", "DecodeLimitedVarint", "DecodeNumNonzeros", "DecodeAcBlock", "BrunsliBitReaderMaybeFetchByte",
        "BrunsliBitReaderUnload")
CHECKS = {"WordSource::CanRead": "w", "BrunsliBitReaderCanRead": "b"}
DOMAIN = list(range(0, 18)) + [64, 255, 256]


def place(f):
    return f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line", "?"))


# What the data a step works on is known to satisfy (decided by B06, C03).
PREMISE = {
    # suspended only inside of the loop, i.e. before the end of the map
    "brunsli::DecodeContextMap": lambda: Premise().size(None, vs.rng(1, 1 << 20)).field("arg", "2", vs.of(0)),
    "brunsli::ReadHistogram": lambda: Premise().size(None, vs.of(18)).local("[18 x i32]", vs.rng(0, 10)),
    "brunsli::HuffmanDecodingData::ReadFromBitStream": lambda: Premise().field("HuffmanCode", "bits", vs.rng(0, 4)),
}


class Costs(object):
    def __init__(self, um, kind):
        self.m, self.mods = um
        self.kind = kind
        self.memo = {}
        self.reach = {}
        self.cl = None

    def is_(self, i, name):
        q = self.qual(i)
        return q is not None and (q == name or q.endswith("::" + name))

    def qual(self, i):
        if i.op not in ("call", "invoke") or not i.callee:
            return None
        g = self.m.functions.get(i.callee)
        return g.qual if g else None

    def callee(self, i):
        g = self.m.functions.get(i.callee) if i.op in ("call", "invoke") and i.callee else None
        return g if g is not None and g.blocks else None

    def prim(self, i, env, s):
        """Upper bound of what the primitive consumes, in bits; None if not one."""
        if self.is_(i, "BrunsliBitReaderFinish"):
            return 0        # takes only what has been fetched already, see R3
        if self.kind == "w":
            if self.is_(i, "WordSource::GetNextWord"):
                return 16
            if self.is_(i, "BitSource::ReadBits"):
                v = s.val(i.ops[1], env)
                return vs.hi(v) if v is not TOP else 16
            if self.is_(i, "BinaryArithmeticDecoder::ReadBit") or self.is_(i, "ANSDecoder::ReadSymbol"):
                return 16
        else:
            if self.is_(i, "BrunsliBitReaderRead") or self.is_(i, "BrunsliBitReaderDrop"):
                v = s.val(i.ops[1], env)
                return vs.hi(v) if v is not TOP else 32
            if self.is_(i, "HuffmanDecodingData::ReadSymbol"):
                return 15
        return None

    def sub(self, g, seen=()):
        """'checked' if g checks by itself, 'plain' if it consumes unchecked, None."""
        r = self.reach.get(g.name)
        if r is None:
            r = "none"
            s = None
            for i in g.insts():
                if i.op not in ("call", "invoke"):
                    continue
                q = self.qual(i)
                if any(q == "brunsli::" + c and k == self.kind for c, k in CHECKS.items()):
                    r = "checked"
                    break
                if s is None:
                    s = Scen(g, self.mods)
                if self.prim(i, {}, s) is not None:
                    r = "plain"
                    continue
                h = self.callee(i)
                if h is not None and h is not g and h.name not in seen:
                    t = self.sub(h, seen + (g.name,))
                    if t == "checked":
                        r = t
                        break
                    if t == "plain":
                        r = t
            self.reach[g.name] = r
        return r

    def total(self, g, args=()):
        k = (g.name, args)
        if k not in self.memo:
            self.memo[k] = None
            c, tr, n = self.region(g, None, {("a", a): v for a, v in args}, {})
            self.memo[k] = (c, tr)
        return self.memo[k]

    def fork(self, i, env, s):
        if self.is_(i, "DecodeNumNonzeros"):
            return (0, 1, 2, 62, 63)
        if self.is_(i, "BrunsliBitReaderRead") or self.is_(i, "BitSource::ReadBits"):
            v = vs.single(s.val(i.ops[1], env))
            if v is not None and 0 <= v <= 3:
                return range(1 << v)
        return None

    def region(self, f, start, env, mem, pr=None, until=None):
        pr = pr or PREMISE.get(f.qual, Premise)()
        pr.call("DecodeNumNonzeros", vs.rng(0, 63))
        s = Scen(f, self.mods, pr)
        also = []
        self.unb = False

        def weight(i, e, m):
            if i.op not in ("call", "invoke"):
                return None
            if i is until:
                return "stop"
            q = self.qual(i)
            if any(q == "brunsli::" + c for c in CHECKS):
                return "stop"
            p = self.prim(i, e, s)
            if p is not None:
                if self.is_(i, "ReadBits"):
                    pass
                return p
            g = self.callee(i)
            if g is None or g is f:
                return None
            t = self.sub(g)
            if t == "checked":
                return "stop"
            if t == "plain":
                a = tuple((n, s.val(o, e)) for n, o in enumerate(i.ops)
                          if n < len(g.args) and s.val(o, e) is not TOP)
                r = self.special(g, i, e, s)
                if r is not None:
                    return r
                r = self.total(g, a)
                if r is None or r[0] is None:
                    self.unb = True
                    return 0
                return r[0]
            return None
        for i in f.insts():
            if i.op in ("call", "invoke") and i.callee and not i.callee.startswith("llvm."):
                if self.is_(i, "BitSource::ReadBits") or self.is_(i, "BrunsliBitReaderRead") or self.is_(i, "BrunsliBitReaderDrop"):
                    also.append(i.ops[1])
                elif self.prim(i, {}, s) is None and self.callee(i) is not None and self.sub(self.callee(i)) == "plain":
                    also.extend(o for o in i.ops if o[0] == "i" and f.inst[o[1]].ty[0] == "i")
        c, tr, n = cost.longest(s, weight, start, env, mem, also=also, fork=lambda i, e: self.fork(i, e, s),
                                result=lambda i, e: self.result(i, e, s))
        if self.unb:
            c = None
        return c, tr, n

    def result(self, i, env, s):
        """Range of what a primitive returns."""
        if self.is_(i, "BrunsliBitReaderRead") or self.is_(i, "BitSource::ReadBits"):
            v = s.val(i.ops[1], env)
            h = vs.hi(v) if v is not TOP else None
            if h is not None and 0 <= h < 31:
                return vs.rng(0, (1 << h) - 1)
        if self.is_(i, "ANSDecoder::ReadSymbol"):
            return vs.rng(0, 17)
        if self.is_(i, "HuffmanDecodingData::ReadSymbol"):
            return None
        return None

    def special(self, g, i, env, s):
        """Consumption of a loop that is bounded by progress, not by a counter."""
        if self.is_(i, "ReadHuffmanCodeLengths"):
            n = s.val(i.ops[1], env)
            if n is TOP:
                return None
            return vs.hi(n) * self.code_length()
        return None

    def code_length(self):
        """Consumption per code length read: symbol and repeat count."""
        if self.cl is None:
            f = self.m.one("ReadHuffmanCodeLengths")
            d = [i for i in f.insts() if self.is_(i, "BrunsliBitReaderDrop")]
            if len(d) != 1:
                raise AnalysisBroken("ReadHuffmanCodeLengths: %d symbol reads" % len(d))
            pr = lambda: Premise().field("HuffmanCode", "bits", vs.rng(0, 5)).field("HuffmanCode", "value", vs.rng(0, 17))
            c, tr, n = self.region(f, d[0], {}, {}, pr(), until=d[0])
            if c is None:
                raise AnalysisBroken("ReadHuffmanCodeLengths: reads without a bound per code length")
            self.cl = 5 + c
        return self.cl


def root(f, o):
    """The value `o` is an affine function of."""
    v = f.val(o)
    n = 0
    while v is not None and n < 12:
        n += 1
        if v.op in ("zext", "sext", "trunc", "freeze"):
            nx = f.val(v.ops[0])
        elif v.op in ("add", "sub", "mul", "shl", "or", "xor"):
            l = [x for x in v.ops if x[0] != "c"]
            if len(l) != 1:
                return v
            if l[0][0] == "a":
                return ("a", l[0][1])
            nx = f.val(l[0])
        elif v.op == "icmp" and v.ops[1][0] == "c":
            nx = f.val(v.ops[0])
        elif v.op == "select":
            nx = f.val(v.ops[0])
        elif v.op == "phi":
            return v
        else:
            return v
        if nx is None:
            return v
        v = nx
    if v is None and o[0] == "a":
        return ("a", o[1])
    return v


def closure(s, env, upto):
    """Values computed only from what is known in env."""
    pure = ("zext", "sext", "trunc", "freeze", "add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor",
            "icmp", "select", "udiv", "urem")
    ch = True
    n = 0
    while ch and n < 6:
        ch = False
        n += 1
        for i in s.fn.insts():
            if i.op in pure and i.id not in env and all(s.val(o, env) is not TOP for o in i.ops):
                s.step(i, env, {})
                ch = ch or i.id in env


def run(rep):
    rep.rule("R1", "after a successful check no path consumes more than was checked", 30)
    rep.rule("R2", "nothing is consumed before the first check", 6)
    rep.rule("R3", "the primitives consume what is charged for them", 9)
    rep.rule("R4", "the checks say yes only if the amount is there", 2)
    rep.rule("R5", "input is announced as complete iff the rest of the section is there", 3)
    rep.rule("R6", "no more than what is available of the section is used", 8)
    um = unit("dec", KEEP)
    m, mods = um
    primitives(rep, um)
    canread(rep, um)
    spans(rep, um)
    for kind in ("w", "b"):
        C = Costs(um, kind)
        for f in sorted(m.functions.values(), key=lambda f: f.qual):
            if not f.blocks:
                continue
            sites = [i for i in f.insts() if any(C.qual(i) == "brunsli::" + c and k == kind for c, k in CHECKS.items())]
            if not sites:
                continue
            c, tr, n = C.region(f, None, {}, {})
            rep.ob("R2", "%s up to its first check" % f.qual, place(f), c == 0,
                   "" if c == 0 else "consumes %s bits unchecked at %s" % (c, "; ".join(t.where() for t in tr[:4])))
            for u in sites:
                o = u.ops[1]
                s = Scen(f, mods)
                w = 16 if kind == "w" else 1
                if o[0] == "c":
                    cases = [(None, o[1], {u.id: vs.of(1)}, {})]
                else:
                    r = root(f, o)
                    dom = DOMAIN
                    rid = r if isinstance(r, tuple) else r.id
                    if not isinstance(r, tuple) and r.ty in ("i1",):
                        dom = [0, 1]
                    if not isinstance(r, tuple) and r.op == "load" and r.ty == "i8" and any(
                            x.op == "trunc" and x.ty == "i1" for x in f.insts() if ["i", r.id] in x.ops):
                        dom = [0, 1]
                    cell = None
                    if not isinstance(r, tuple) and r.op == "load" and r.bb is u.bb:
                        cell = s.paths.cell(r.ops[0], r.ty)
                        if any(x.op in ("store", "call", "invoke") and not (x.callee or "llvm.").startswith("llvm.")
                               for x in r.bb.insts[r.idx + 1:u.idx]):
                            cell = None
                    cases = []
                    for d in dom:
                        env = {rid: vs.of(d)}
                        closure(s, env, u)
                        b = vs.single(s.val(o, env))
                        if b is None:
                            raise AnalysisBroken("%s: budget is not a function of one value" % u.where())
                        env[u.id] = vs.of(1)
                        cases.append((d, b, env, {cell: vs.of(d)} if cell else {}))
                for d, b, env, mem in cases:
                    c, tr, n = C.region(f, u, env, mem)
                    ok = c is not None and (c + w - 1) // w <= b
                    rep.count("abstract states", n)
                    rep.ob("R1", "%s: check at most %d%s" % (f.qual, b, "" if d is None else " (case %d)" % d), u.where(), ok,
                           "" if ok else "up to %s consumed, %d checked, via %s" % (
                               "unbounded" if c is None else (c + w - 1) // w, b, " > ".join(t.where() for t in tr[-8:])))


def ends(um, fn, pr, ent, count=None, watch=None):
    """Explores fn; returns list of (return value, final memory, counter)."""
    m, mods = um
    f = first(m, fn) if isinstance(fn, str) else fn
    s = Scen(f, mods, pr)
    mem = entry(s, *ent)
    out = []

    def on(i, e, mm):
        if watch:
            r = watch(i, e, mm, s)
            if r:
                return r
        if count and count(i, s):
            e[("cnt", 0)] = vs.of(vs.lo(e.get(("cnt", 0), vs.of(0))) + 1)
        if i.op == "ret":
            out.append((s.val(i.ops[0], e) if i.ops else None, dict(mm), vs.lo(e.get(("cnt", 0), vs.of(0)))))
        return None
    s.run({("cnt", 0): vs.of(0)}, mem, on_inst=on)
    if s.capped:
        raise AnalysisBroken("exploration of %s does not converge" % f.qual)
    return f, s, out


def first(m, fn):
    """The function; copies of a header function in several units are one."""
    fs = m.find(fn)
    if len(set((f.file, f.d.get("line")) for f in fs)) != 1:
        return m.one(fn)
    return fs[0]


def fin(s, mm, st, fl):
    """Value of the field at the end, if all cells agree."""
    r = [mm.get(k) for k in cells(s, (st, fl))]
    return r[0] if len(r) == 1 else None


def primitives(rep, um):
    m, mods = um
    word = lambda i, s: i.op in ("call", "invoke") and i.callee and "GetNextWord" in i.callee
    for n in ("BinaryArithmeticDecoder::ReadBit", "ANSDecoder::ReadSymbol"):
        for f in m.find("brunsli::" + n):
            s = Scen(f, mods, Premise())
            c, tr, k = cost.longest(s, lambda i, e, mm: 1 if word(i, s) else None, None, {}, {})
            rep.ob("R3", "%s takes at most one word" % f.qual, place(f), c is not None and c <= 1, "takes %s" % c)
    bad = None
    N = 0
    for p in range(0, 17):
        for n in range(0, 17):
            N += 1
            f, s, out = ends(um, "brunsli::BitSource::ReadBits", Premise().arg(1, vs.of(n)),
                             [("BitSource", "bit_pos_", vs.of(p))], word)
            need = 1 if p + n > 16 else 0
            for r, mm, c in out:
                e = fin(s, mm, "BitSource", "bit_pos_")
                if c != need or vs.single(e if e is not None else []) != p + n - 16 * need:
                    bad = bad or "at bit %d, asked for %d: takes %d words and leaves bit %s" % (p, n, c, show(e))
            if not out:
                raise AnalysisBroken("BitSource::ReadBits does not return")
    rep.ob("R3", "BitSource::ReadBits takes one more word iff the bits left do not suffice", place(f), not bad, bad or "")
    rep.count("abstract cases", N)

    def data(i, s, k="WordSource", fl="data_"):
        if i.op != "load" or i.ty == "ptr":
            return False
        a = i.ops[0]
        for _ in range(6):
            v = s.fn.val(a)
            if v is None:
                return False
            if v.op == "load":
                q = absx.field_of(s.paths.cell(v.ops[0], v.ty))
                return isinstance(q, tuple) and q[1] == fl
            if v.op not in ("getelementptr", "bitcast"):
                return False
            a = v.ops[0]
        return False
    w = ("F", "WordSource", "pos_"), ("F", "WordSource", "len_")
    for n, v, want in (("before its end", vs.rng(-(1 << 40), -1), 1), ("at its end", vs.rng(0, 1 << 40), 0)):
        f, s, out = ends(um, "brunsli::WordSource::GetNextWord", Premise().rel(w[0], w[1], v), [], data)
        cs = set(c for _, _, c in out)
        rep.ob("R3", "GetNextWord %s reads %s" % (n, "the data" if want else "nothing"), place(f), cs == {want}, "%s loads" % sorted(cs))
    f, s, out = ends(um, "brunsli::WordSource::GetNextWord", Premise(), [("WordSource", "pos_", vs.of(100))])
    rep.ob("R3", "GetNextWord advances by one word", place(f),
           bool(out) and all(vs.single(fin(s, mm, "WordSource", "pos_") or []) == 102 for _, mm, _ in out), "")
    nx, en = ("F", "BrunsliBitReader", "next_"), ("F", "BrunsliBitReader", "end_")
    byte = lambda i, s: data(i, s, fl="next_")
    for n, v, want in (("before its end", vs.rng(-(1 << 40), -1), {0, 1}), ("at its end", vs.rng(0, 1 << 40), {0})):
        f, s, out = ends(um, "BrunsliBitReaderMaybeFetchByte", Premise().rel(nx, en, v), [], byte)
        cs = set(c for _, _, c in out)
        rep.ob("R3", "the bit reader %s reads %s" % (n, "at most a byte" if 1 in want else "nothing"), place(f), cs == want, "%s loads" % sorted(cs))
    bad = None
    for k in range(0, 8):
        f, s, out = ends(um, "BrunsliBitReaderFinish", Premise(), [("BrunsliBitReader", "num_bits_", vs.of(k))], None,
                         lambda i, e, mm, s: watchread(i, e, s, k))
        if any(r[2] for r in out):
            bad = "with %d bits left it takes more" % k
    rep.ob("R3", "finishing takes only bits that were fetched before", place(f), not bad, bad or "")
    for nm in ("BrunsliBitReaderSuspend", "BrunsliBitReaderIsHealthy"):
        unload(rep, um, nm)


def watchread(i, e, s, k):
    if i.op in ("call", "invoke") and i.callee and ("BrunsliBitReaderRead" in i.callee or "BrunsliBitReaderDrop" in i.callee):
        v = s.val(i.ops[1], e)
        if v is TOP or vs.hi(v) > k:
            e[("cnt", 0)] = vs.of(1)
    return None


def unload(rep, um, nm):
    m, mods = um
    bad = None
    f = m.find("BrunsliBitReaderUnload") or m.find(nm)
    f = f[0]
    back = lambda i, s: i.op == "store" and absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", "")))[1:] == ("next_",) and i.ops[0][0] != "c"
    for k in range(0, 33):
        for d in range(0, k // 8 + 1):
            _, s, out = ends(um, f, Premise(), [("BrunsliBitReader", "num_bits_", vs.of(k)),
                                                ("BrunsliBitReader", "num_debt_bytes_", vs.of(d))], back)
            for r, mm, c in out:
                nb, nd = fin(s, mm, "BrunsliBitReader", "num_bits_"), fin(s, mm, "BrunsliBitReader", "num_debt_bytes_")
                if (vs.single(nb or []), vs.single(nd or []), c) != (k % 8, 0, k // 8 - d):
                    bad = bad or "%d bits, %d missing bytes: %d bytes go back, %s bits stay, %s bytes missing" % (k, d, c, show(nb), show(nd))
            if not out:
                raise AnalysisBroken("%s does not return" % f.qual)
    rep.ob("R3", "%s gives back every whole byte not used (%s)" % (f.qual, nm), place(f), not bad, bad or "")


def canread(rep, um):
    m, mods = um
    # words
    bad = None
    n_ = 0
    for n in sorted(set(DOMAIN) | {297, 121, 207}):
        for have in sorted(set(x for k in (0, n - 1, n, n + 1, 2 * n) for x in (2 * k,) if x >= 0)):
            for pos in (0, 100):
                n_ += 1
                f, s, out = ends(um, "brunsli::WordSource::CanRead", Premise().arg(1, vs.of(n)),
                                 [("WordSource", "optimistic_", vs.of(0)), ("WordSource", "pos_", vs.of(pos)), ("WordSource", "len_", vs.of(pos + have))])
                got = set(vs.single(r) for r, _, _ in out)
                want = 2 * n <= have
                if got != ({1, } if want else {0}) and got != ({-1} if want else {0}):
                    bad = bad or "asked for %d words with %d bytes left: %s" % (n, have, sorted(map(str, got)))
    rep.ob("R4", "%s answers yes iff the words are there" % f.qual, place(f), not bad, bad or "")
    bad = None
    nx, en = ("F", "BrunsliBitReader", "next_"), ("F", "BrunsliBitReader", "end_")
    for n in list(range(0, 33)):
        for k in range(0, 8):
            for have in sorted(set(x for x in (0, (n - k + 7) // 8 - 1, (n - k + 7) // 8, (n - k + 7) // 8 + 1) if x >= 0)):
                for debt in (0, 1):
                    n_ += 1
                    f, s, out = ends(um, "BrunsliBitReaderCanRead", Premise().arg(1, vs.of(n)).rel(en, nx, vs.of(have)),
                                     [("BrunsliBitReader", "is_optimistic_", vs.of(0)), ("BrunsliBitReader", "num_bits_", vs.of(k)),
                                      ("BrunsliBitReader", "num_debt_bytes_", vs.of(debt))])
                    got = set(abs(vs.single(r)) if vs.single(r) is not None else None for r, _, _ in out)
                    want = {1 if k + 8 * have >= n and not debt else 0}
                    if got != want:
                        bad = bad or "asked for %d bits with %d bits and %d bytes left%s: %s" % (
                            n, k, have, " after overrun" if debt else "", sorted(map(str, got)))
    rep.ob("R4", "%s answers yes iff the bits are there" % f.qual, place(f), not bad, bad or "")
    rep.count("abstract cases", n_)


def from_data(f, s, o):
    """(index operands) if o is an address derived from the input pointer."""
    idx = []
    for _ in range(8):
        v = f.val(o)
        if v is None:
            return None
        if v.op == "load":
            q = absx.field_of(s.paths.cell(v.ops[0], v.ty))
            return idx if isinstance(q, tuple) and scen.smatch(q[0], "State") and q[1] == "data" else None
        if v.op == "getelementptr" and len(v.ops) == 2:
            idx.append(v.ops[1])
            o = v.ops[0]
        elif v.op in ("bitcast", "freeze"):
            o = v.ops[0]
        else:
            return None
    return None


def at(s, e, f, o):
    """Offset in the input of address o, as a number, or None."""
    if o[0] == "i" and e.get(("off", o[1])) is not None:
        return vs.hi(e[("off", o[1])])
    v = f.val(o)
    if v is not None and v.op == "getelementptr" and len(v.ops) == 2 and v.ops[0][0] == "i" and ("off", v.ops[0][1]) in e:
        d = s.val(v.ops[1], e)
        return TOP if d is TOP or not d else vs.hi(e[("off", v.ops[0][1])]) + vs.hi(d)
    idx = from_data(f, s, o)
    if idx is None:
        return None
    t = [0, 0]
    for x in idx:
        v = s.val(x, e)
        if v is TOP or not v:
            return TOP
        t = [t[0] + vs.lo(v), t[1] + vs.hi(v)]
    return t[1]


GRID = [(a, r) for a in (0, 1, 2, 3, 4, 5, 6, 7, 12) for r in (0, 1, 2, 3, 4, 6, 8, 20)]
WORDS = ("brunsli::DecodeDCDataSection", "brunsli::DecodeACDataSection")


def spans(rep, um):
    """All uses of the input, for concrete positions of its end and of the section's."""
    m, mods = um
    P = 100
    fs = []
    for f in sorted(m.functions.values(), key=lambda f: f.qual):
        if not f.blocks:
            continue
        s = Scen(f, mods)
        uses = {}
        for i in f.insts():
            if i.op == "load" and i.ty != "ptr" and from_data(f, s, i.ops[0]) is not None:
                uses[i.id] = "byte"
            elif i.op in ("call", "invoke") and i.callee and not i.callee.startswith("llvm.dbg"):
                for n, o in enumerate(i.ops):
                    if o[0] == "i" and f.inst[o[1]].ty == "ptr" and from_data(f, s, o) is not None:
                        uses.setdefault(i.id, n)
            elif i.op == "store" and i.ops[0][0] == "i" and f.inst[i.ops[0][1]].ty == "ptr" and from_data(f, s, i.ops[0]) is not None:
                uses[i.id] = "store"
        if uses:
            fs.append((f, uses))
    for f, uses in fs:
        bad = {}
        hit = {}
        deps, work = set(), [o for k in uses for o in f.inst[k].ops]
        while work:
            v = f.val(work.pop())
            if v is not None and v.id not in deps:
                deps.add(v.id)
                if v.op not in ("load", "call", "invoke"):
                    work.extend(v.ops)
        for a, r in GRID:
            if f.qual in WORDS and r & 1:
                continue
            pr = Premise().field("State", "len", vs.of(P + a)).field("SectionState", "projected_end", vs.of(P + r))
            if r == 0:
                pr.field("SectionState", "is_section", vs.of(0, 1))
            s = Scen(f, mods, pr)
            if not any(f.inst[k].op == "store" for k in uses):
                pr.call("BrunsliBitReaderSuspend", vs.of(min(a, r)))
            insec = bool(cells(s, ("SectionState", "projected_end")))
            lim = min(a, r) if insec else a
            s._important()
            s._imp[0].update(deps)

            def say(i, t):
                bad.setdefault(i.id, "with %d bytes there%s: %s" % (a, ", %d of the section" % r if insec else "", t))

            pc = cells(s, ("State", "pos"))

            def on(i, e, mm):
                if not any(mm.get(k) is not None and vs.single(mm[k]) is not None for k in pc):
                    return None     # moved on by a callee; the same code is judged from its entry
                if i.op == "getelementptr" and len(i.ops) == 2:
                    e.pop(("off", i.id), None)
                    o = at(s, e, f, ["i", i.id])
                    if o not in (None, TOP):
                        e[("off", i.id)] = vs.of(o)
                if i.op == "store" and i.id in uses:
                    hit[i.id] = "span"
                    z = [mm.get(k) for k in cells(s, ("JPEGData", "original_jpg_size"))]
                    q = absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", "")))
                    if isinstance(q, tuple) and q[1] == "original_jpg" and (not z or z[0] is None or vs.hi(z[0]) > lim):
                        say(i, "%s bytes are taken" % (show(z[0]) if z else "?"))
                if i.op == "store" and absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", "")))[:1]:
                    q = absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", "")))
                    if isinstance(q, tuple) and scen.smatch(q[0], "WordSource"):
                        v = s.val(i.ops[0], e)
                        if q[1] == "len_":
                            hit[i.id] = "span"
                            w = min(a & ~1, r)
                            if vs.single(v or []) != w:
                                say(i, "%s handed over, not %d" % (show(v), w))
                        if q[1] == "optimistic_":
                            hit[i.id] = "opt"
                            if vs.single(v or []) is None or bool(vs.single(v)) != ((a & ~1) >= r):
                                say(i, "input is %staken as complete (%s)" % ("" if (a & ~1) < r else "not ", show(v)))
                if i.op in ("call", "invoke") and i.callee:
                    g = m.functions.get(i.callee)
                    n = g.qual if g else i.callee
                    if n.endswith("BrunsliBitReaderResume"):
                        hit[i.id] = "span"
                        v = s.val(i.ops[2], e)
                        if vs.single(v or []) != lim:
                            say(i, "%s handed over, not %d" % (show(v), lim))
                    elif n.endswith("BrunsliBitReaderSetOptimistic"):
                        hit.setdefault(i.id, set()).add((a, r))
                        if a < r:
                            say(i, "input is taken as complete")
                    elif n == "memcmp":
                        v = s.val(i.ops[2], e)
                        hit[i.id] = "span"
                        o = at(s, e, f, i.ops[0])
                        if v is TOP or o in (None, TOP) or o + vs.hi(v) > P + lim:
                            say(i, "compares %s bytes at %s" % (show(v), o))
                    elif "6vectorIhSaIhEE6insert" in i.callee:
                        o, t = at(s, e, f, i.ops[2]), at(s, e, f, i.ops[3])
                        hit[i.id] = "span"
                        if o in (None, TOP) or t in (None, TOP) or t > P + a:
                            say(i, "copies %s..%s" % (o, t))
                    elif "BrotliDecoderDecompressStream" in n:
                        v = mm.get(s.paths.cell(i.ops[1], "i64"))
                        hit[i.id] = "span"
                        if v is None or vs.single(v) != lim:
                            say(i, "%s bytes handed over, not %d" % (show(v), lim))
                        return "stop"
                if i.id in uses and uses[i.id] == "byte":
                    hit[i.id] = "span"
                    o = at(s, e, f, i.ops[0])
                    if o in (None, TOP) or not P <= o < P + lim:
                        say(i, "reads byte %s" % (o - P if o not in (None, TOP) else "?"))
                return None
            s.run({}, entry(s, ("State", "pos", vs.of(P))), on_inst=on)
            if s.capped:
                raise AnalysisBroken("exploration of %s does not converge" % f.qual)
        for k, w in sorted(hit.items()):
            i = f.inst[k]
            if isinstance(w, set):
                miss = [(a, r) for a, r in GRID if a >= r and (a, r) not in w]
                if miss and k not in bad:
                    bad[k] = "with %d bytes there, %d of the section: complete input is never announced" % miss[0]
            rep.ob("R5" if w == "opt" or isinstance(w, set) else "R6", "%s line %s" % (f.qual, i.d.get("loc", ["?"])[-1]), i.where(), k not in bad, bad.get(k, ""))
        for k, w in sorted(uses.items()):
            if k not in hit and w != "store":
                rep.ob("R6", "%s: use of the input" % f.qual, f.inst[k].where(), False, "this use of the input is of no known form")

