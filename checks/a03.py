"""A03: coefficients come back, coded under the contexts they are decoded by.

The coefficient coders of encoder and decoder are composed: coding calls of the
encoder (binary decision, symbol, raw bits) become a queue which the reading
calls of the decoder take from.  The adaptive model, the histogram and the
number of bits a reader uses must be those of the writer, and each coefficient
that comes out must be the one that went in.
"""
from bsa import ir, prov
from bsa.build import AnalysisBroken
from bsa.prov import P, Prov, Types, State, Broken, const, iscon, num, show, var, clean, fan
from checks import a04
from checks.a04 import field, default

NAMES = ("BrunsliEncodeJpeg", "BrunsliSerialize", "EncodeDC", "EncodeAC", "PrepareEntropyCodes", "AddBit", "AddBits", "AddCode", "ResizeForBlock",
         "ComputeCoeffOrder", "SelectContextBits", "DecodeDC", "DecodeAC", "PrepareMeta", "WarmupMeta", "EnsureSubdecodersInitialized",
         "FinalizeSubdecoders", "ReadBit", "ReadBits", "ReadSymbol", "CanRead", "get_proba", "Add", "Resize")
COEF = 2


def unit():
    return ir.load("probe", keep=tuple(sorted(r"(^|[ :])%s(<[^(]*>)?\(" % n for n in NAMES)))


def short(m, i):
    g = m.functions.get(i.callee)
    if g is None or "brunsli" not in g.qual:
        return "", ""
    q = g.qual.split("::")
    return (q[-2] if len(q) > 1 else ""), q[-1]


class World(object):
    def __init__(self, name, comps, mcus, seed, density=4, orders=None, quant=None, legacy=False, big=0, cmap=0, stop=0, scheme=None, gaps=0):
        self.name, self.comps, self.mcus, self.legacy, self.cmap, self.stop = name, comps, mcus, legacy, cmap, stop
        self.scheme = seed if scheme is None else scheme
        self.orders = orders or {}
        self.quant = quant or (lambda c, k: 1 + (k * (3 + c)) % 50)
        r = [seed * 7919 + 12345]

        def rnd(n):
            r[0] = (r[0] * 1103515245 + 12345) & 0x7FFFFFFF
            return (r[0] >> 8) % n
        self.coef = []
        self.size = []
        hm, vm = max(h for h, v in comps), max(v for h, v in comps)
        for c, (h, v) in enumerate(comps):
            w, hh = mcus[0] * h, mcus[1] * v
            self.size.append((w, hh))
            blocks = []
            for b in range(w * hh):
                x = [0] * 64
                kind = 0 if gaps and rnd(gaps) == 0 else rnd(6)
                if kind and density:            # some blocks are empty
                    for k in range(1 + rnd(density) if density else 0):
                        at = rnd(64) if kind > 2 else rnd(10)
                        mag = (1, 2, 3, 8, 9, 10, 60, 1000, 2)[rnd(9 if not big else 8)]
                        x[at] = mag if rnd(2) else -mag
                x[0] = (3, 5, -7, 900, -1000, 1, 0, 8)[rnd(8)] if kind and density else x[0]
                blocks.append(x)
            if big and blocks:
                blocks[0][0], blocks[0][1], blocks[0][63] = big, -2 * big, 2 * big
                for x in blocks[1:]:
                    x[1], x[63], x[8], x[9] = big * 2, rnd(big), 7 + (1 << 1 + rnd(9)), -6 - (2 << 1 + rnd(9))
            self.coef.append(blocks)

    def cluster(self, k):
        return (k * 7 + k // 256) % 256 if self.cmap else k % 251

    def value(self, s):
        if s.startswith("coef"):
            c, b, k = s[4:].split(".")
            return self.coef[int(c)][int(b)][int(k)] & 0xFFFF
        if s.startswith("prob#"):
            return 128
        return None


def build(p, m, w, name):
    """The JPEG data of the world, with coefficients if it is the source."""
    st = State()
    jpg = default(p, st, name, "brunsli::JPEGData")
    W = lambda nm, v, base=jpg: p.wr(st, field(p, base, st, nm), const(v, 32), 4)
    W("width", 8 * w.mcus[0] * max(h for h, v in w.comps))
    W("height", 8 * w.mcus[1] * max(v for h, v in w.comps))
    W("version", 0 if w.legacy else 2)
    W("MCU_cols", w.mcus[0])
    W("MCU_rows", w.mcus[1])
    W("max_h_samp_factor", max(h for h, v in w.comps))
    W("max_v_samp_factor", max(v for h, v in w.comps))
    return st, jpg


def vector(p, st, base, nm, el, n):
    at = field(p, base, st, nm)
    p.stl.vset(st, at, el, 0, n)
    st.sz[(at.obj, at.off)] = const(n, 64)
    return P(("D", at.obj, at.off), 0)


def fillin(p, st, jpg, w, source):
    es = p.ty.size("brunsli::JPEGComponent")
    d = vector(p, st, jpg, "components", "brunsli::JPEGComponent", len(w.comps))
    for c, (h, v) in enumerate(w.comps):
        at = P(d.obj, c * es)
        W = lambda nm, x: p.wr(st, field(p, at, st, nm), const(x, 32), 4)
        W("h_samp_factor", h)
        W("v_samp_factor", v)
        W("quant_idx", min(c, 1))
        W("width_in_blocks", w.size[c][0])
        W("height_in_blocks", w.size[c][1])
        W("num_blocks", w.size[c][0] * w.size[c][1])
        co = field(p, at, st, "coeffs")
        if source:
            n = len(w.coef[c]) * 64
            st.sz[(co.obj, co.off)] = const(n, 64)
            o = ("D", co.obj, co.off)
            for b, blk in enumerate(w.coef[c]):
                for k, x in enumerate(blk):
                    p.wr(st, P(o, COEF * (b * 64 + k)), var("coef%d.%d.%d" % (c, b, k), 16) if x else const(0, 16), COEF)
    qs = p.ty.size("brunsli::JPEGQuantTable")
    n = 2 if len(w.comps) > 1 else 1
    d = vector(p, st, jpg, "quant", "brunsli::JPEGQuantTable", n)
    for j in range(n):
        at = field(p, P(d.obj, j * qs), st, "values")
        for k in range(64):
            p.wr(st, P(at.obj, at.off + 4 * k), const(w.quant(j, k), 32), 4)


class Out(Exception):
    pass


def coder(m, w, queue, cur, info):
    """The coding calls of the encoder: what goes into queue[cur[0]]."""
    def model(p, st, i, a):
        cls, fn = short(m, i)
        if cls == "DataStream":
            q = queue.get(cur[0])
            if fn == "AddBit":
                q.append(("bit", a[1], inits(p, st, a[1]), a[2], i))
                return ()
            if fn == "AddBits":
                n = p.ev(a[1])
                q.append(("raw", n, None, a[2][:n], i))
                return ()
            if fn in ("Resize", "ResizeForBlock"):
                return ()
        if cls == "EntropySource":
            if fn == "AddCode":
                queue[cur[0]].append(("sym", p.ev(a[2]), None, a[1], i))
            return ()
        if fn == "ComputeCoeffOrder":
            o = w.orders.get(len(info.setdefault("orders", [])) % len(w.comps), lambda z: z)(zig(m))
            info["orders"].append(o)
            for k, x in enumerate(o):
                p.wr(st, P(a[1].obj, a[1].off + 4 * k), const(x, 32), 4)
            return ()
        if fn == "SelectContextBits":
            info["schemes"] = info.get("schemes", w.scheme - 1) + 1
            return const(info["schemes"] % 7, 32)
        if fn == "PrepareEntropyCodes":
            p.wr(st, a[0], prov.NULL, 8)
            return ()
        return None
    return model


def encode(m, w):
    f = m.one("BrunsliEncodeJpeg")
    queue = {"DC": [], "AC": []}
    cur = [None]
    info = {}
    calls = coder(m, w, queue, cur, info)

    def model(p, st, i, a):
        cls, fn = short(m, i)
        if fn in ("EncodeDC", "EncodeAC"):
            cur[0] = fn[-2:]
            return None
        if fn == "BrunsliSerialize":
            for k in ("DC", "AC"):
                words(p, st, field(p, a[0], st, "data_stream_" + k.lower()), queue[k])
            info["meta"] = meta(p, st, a[0], len(w.comps), "brunsli::internal::enc::ComponentMeta")
            return const(1, 1)
        return calls(p, st, i, a)

    p = Prov(m, f, w.value, model, steps=30000000)
    p.nofork = True
    st, jpg = build(p, m, w, "jpg")
    fillin(p, st, jpg, w, True)
    res = p.run([jpg, P(("out", 0), 0), P(("outlen", 0), 0)], st)
    if len(res) != 1 or p.ev(res[0][0]) != 1:
        raise AnalysisBroken("world %s: encoder: %s %s" % (w.name, [show(r) for r, _s in res], sorted(p.forked)[:3]))
    return p, res[0][1], jpg, queue, info


def words(p, st, stream, queue):
    """The symbols in the output are those of the histograms, in order."""
    el = "brunsli::internal::enc::DataStream::CodeWord"
    es = p.ty.size(el)
    at = P(("D",) + (lambda z: (z.obj, z.off))(field(p, stream, st, "code_words_")), 0)
    j = 3
    for e in queue:
        if e[0] != "sym":
            continue
        w = P(at.obj, at.off + j * es)
        for nm, want in (("context", const(e[1], 32)), ("code", e[3][:8]), ("nbits", const(0, 8))):
            q = field(p, w, st, nm)
            if p.rd(st, q, len(want) // 8) != want:
                raise Mismatch((e[4], "the %s of the word is %s, that of the histogram %s" % (nm, show(p.rd(st, q, len(want) // 8)), show(want))))
        j += 1


def inits(p, st, at):
    return tuple(p.ev(p.rd(st, P(at.obj, at.off + k), 1)) for k in range(p.ty.size("brunsli::Prob")))


def zig(m):
    from checks.a01 import consts
    return [x for x in consts(m, "kJPEGNaturalOrder")["init"][:64]]


def meta(p, st, state, n, el):
    es = p.ty.size(el)
    d = p.stl.data(st, field(p, state, st, "meta"), el)
    return [tuple(p.ev(p.rd(st, field(p, P(d.obj, k * es), st, nm), sz)) for nm, sz in (("context_bits", 4), ("context_offset", 8))) for k in range(n)]


class Mismatch(Exception):
    pass


class Reader(object):
    """The coding calls of the decoder: what is taken from queue[cur]."""
    def __init__(self, m, w, queue):
        self.m, self.w = m, w
        self.queue = {k: list(v) for k, v in queue.items()}
        self.used = {k: {} for k in queue}
        self.cur = None
        self.pend, self.probs, self.room, self.again = [], {}, {}, False
        self.size = Types(m).size("brunsli::internal::dec::ANSDecodingData") or Types(m).size("brunsli::ANSDecodingData")

    def end(self):
        q = self.queue[self.cur]
        if q:
            raise Mismatch((q[0][4], "%d items the encoder wrote are not read, first a %s" % (len(q), NM[q[0][0]])))
        if self.pend:
            raise Mismatch((None, "a model is not updated"))

    def take(self, kind, i):
        q = self.queue[self.cur]
        if not q:
            raise Mismatch((i, "nothing is left of what the encoder wrote"))
        e = q.pop(0)
        if e[0] != kind:
            raise Mismatch((i, "reads a %s where the encoder wrote a %s (%s)" % (NM[kind], NM[e[0]], e[4].where())))
        return e

    def model(self, p, st, i, a):
        w, pend, probs = self.w, self.pend, self.probs
        cls, fn = short(self.m, i)
        if fn == "CanRead":
            n = self.room[i.where()] = self.room.get(i.where(), 0) + 1
            self.again = stop = w.stop and n % (w.stop + 1) == 0
            return const(0 if stop else 1, 1)
        if fn == "EnsureSubdecodersInitialized":
            return ()
        if fn == "FinalizeSubdecoders":
            return const(1, 1)
        if cls == "Prob" and fn == "get_proba":
            n = "prob#%d" % len(probs)
            probs[n] = a[0]
            return prov.fill(var(n, 8), prov.width(i.ty))
        if cls == "Prob" and fn == "Add":
            if not pend or pend[0][0] != a[0]:
                raise Mismatch((i, "updates a model it has not just read with"))
            if p.ev(a[1]) & 1 != p.ev(pend[0][1]) & 1 or p.ev(a[1]) not in (0, 1):
                raise Mismatch((i, "updates the model with another bit than it has read"))
            del pend[0]
            return ()
        if cls == "BinaryArithmeticDecoder" and fn == "ReadBit":
            if pend:
                raise Mismatch((i, "the model of the decision before was not updated"))
            x = a[1][0]
            if not isinstance(x, tuple) or x[0] not in probs:
                raise Mismatch((i, "the probability is not that of a model"))
            e = self.take("bit", i)
            d, mine = self.used[self.cur], probs[x[0]]
            theirs = e[1]
            if e[2] is not None and theirs not in d:
                if mine in d.values():
                    raise Mismatch((i, "shares a model where the encoder has two (%s)" % e[4].where()))
                d[theirs] = mine
                if inits(p, st, mine) != e[2]:
                    raise Mismatch((i, "the model starts from another probability than that of the encoder (%s)" % e[4].where()))
            if d[theirs] != mine:
                raise Mismatch((i, "the model is not the one the encoder used (%s)" % e[4].where()))
            pend.append((mine, e[3]))
            return prov.fill(e[3][:1], 32)
        if fn == "ReadBits":
            n = p.ev(a[1])
            e = self.take("raw", i)
            if e[1] != n:
                raise Mismatch((i, "reads %s bits where the encoder wrote %s (%s)" % (n, e[1], e[4].where())))
            return prov.fill(e[3], 32)
        if fn == "ReadSymbol":
            e = self.take("sym", i)
            k = a[1].off // self.size if a[1].obj == ("ec", 0) and a[1].off % self.size == 0 else None
            if k != w.cluster(e[1]):
                raise Mismatch((i, "the symbol's histogram is not that of the encoder, %s (%s)" % (e[1], e[4].where())))
            return prov.fill(e[3], 32)
        return None



def decode(m, w, st0, queue, info):
    rd = Reader(m, w, queue)
    f = m.one("PrepareMeta")
    p = Prov(m, f, w.value, rd.model, steps=30000000)
    st1, jpg = build(p, m, w, "jpg2")
    st1.assume = dict(st0.assume)
    st1.nobj = st0.nobj
    fillin(p, st1, jpg, w, False)
    Dec.lines, Dec.at, Dec.w = Lines(st0), coefs(p, st1, jpg, w), w
    s = default(p, st1, "decstate", "brunsli::internal::dec::State")
    p.wr(st1, field(p, s, st1, "use_legacy_context_model"), const(int(w.legacy), 8), 1)

    def go(name, args, st):
        g = m.one(name)
        q = Dec(m, g, w.value, rd.model, steps=30000000)
        r = q.run(args, st)
        if len(r) != 1:
            raise AnalysisBroken("world %s: %s %s %s" % (w.name, name, [show(x) for x, _s in r], sorted(q.forked)[:3]))
        return q, r[0][0], r[0][1]

    q, r, st = go("PrepareMeta", [jpg, s], st1)
    contexts(q, st, s, info["meta"])
    q, r, st = go("WarmupMeta", [jpg, s], st)
    histograms(q, st, s, w, queue)
    more = m.enum("BrunsliStatus")["BRUNSLI_NOT_ENOUGH_DATA"]
    for name in ("DecodeDC", "DecodeAC"):
        rd.cur = name[-2:]
        q, r, st = go(name, [s, P(("words", 0), 0)], st)
        n = 0
        while q.ev(r) == more and rd.again and n < 2000:
            q, r, st = go(name, [s, P(("words", 0), 0)], st)
            n += 1
        if q.ev(r) != 0:
            raise Mismatch((None, "%s reports failure" % name))
        rd.end()
    return q, st, jpg


def contexts(p, st, s, meta):
    """The section of histograms tells the decoder the context schemes."""
    ty = "brunsli::internal::dec::ComponentMeta"
    d = p.stl.data(st, field(p, s, st, "meta"), ty)
    sz = {n: z for n, t, o, z in p.ty.get(ty)["members"]}
    for k, mine in enumerate(meta):
        for nm, x in zip(("context_bits", "context_offset"), mine):
            p.wr(st, field(p, P(d.obj, k * p.ty.size(ty)), st, nm), const(x, 8 * sz[nm]), sz[nm])


def histograms(p, st, s, w, queue):
    """... and which histogram each context uses."""
    p.wr(st, field(p, s, st, "context_map"), P(("cmap", 0), 0), 8)
    p.wr(st, field(p, s, st, "entropy_codes"), P(("ec", 0), 0), 8)
    for k in range(max([e[1] for x in queue.values() for e in x if e[0] == "sym"] + [0]) + 600):
        p.wr(st, P(("cmap", 0), k), const(w.cluster(k), 8), 1)


NM = {"bit": "binary decision", "raw": "group of raw bits", "sym": "symbol"}


class Lines(object):
    """Linear forms of words modulo powers of two, with the ranges the path gives.

    A form is ({atom: factor}, constant, w): the word is the sum modulo 2^w.
    """
    def __init__(self, st):
        self.st = st
        self.memo = {}
        self.facts = {}
        self.zero = set()
        known = {}
        for (s, k), v in st.assume.items():
            if isinstance(s, prov.Term) and s[1] in ("icmp eq", "icmp ne") and bool(v) == (s[1] == "icmp eq"):
                if not isinstance(s[3], P) and not isinstance(s[4], P):
                    w = len(s[3])
                    f, c, _w = self.word(s[3])
                    g, d, _w = self.word(s[4])
                    f = dict(f)
                    for a, x in g.items():
                        f[a] = f.get(a, 0) - x
                    self.fact(f, d - c, 0, w)
                    f, c = self.wide(f, c - d, 16)
                    if f and w >= 16:
                        self.zero.add((self.canon(f, 16)[0], -c * self.canon(f, 16)[1] & 0xFFFF))
        for (s, k), v in st.assume.items():
            if isinstance(s, prov.Term) and s[1] in ("add", "sub", "mul"):
                known.setdefault(s, {})[k] = int(v)
        for t, b in known.items():
            w, k, v = t[2], t[2], 0
            while k and k - 1 in b:
                k -= 1
                v |= b[k] << k
            if k < w:
                f, c, w = self.term(t)
                self.fact(f, v - c, (1 << k) - 1, w)

    def fact(self, f, lo, n, w):
        """lo <= f <= lo + n modulo 2^w."""
        key, s = self.canon(f, w)
        if s < 0:
            lo = -(lo + n)
        self.facts.setdefault((key, w), []).append((lo & ((1 << w) - 1), n))

    def canon(self, f, w):
        m = (1 << w) - 1
        a = tuple(sorted(((k, v & m) for k, v in f.items() if v & m), key=repr))
        b = tuple((k, -v & m) for k, v in a)
        return (a, 1) if a <= b or repr(a) <= repr(b) else (b, -1)

    def term(self, t):
        if t not in self.memo:
            self.memo[t] = ({t: 1}, 0, t[2])
            self.memo[t] = self._term(t) or self.memo[t]
        return self.memo[t]

    def _term(self, t):
        op, w, a = t[1], t[2], t[3:]
        if op in ("add", "sub") and len(a) == 2:
            x, y = self.word(a[0]), self.word(a[1])
            s = 1 if op == "add" else -1
            f = dict(x[0])
            for k, v in y[0].items():
                f[k] = f.get(k, 0) + s * v
            return ({k: v for k, v in f.items() if v % (1 << w)}, x[1] + s * y[1], w)
        if op == "mul" and iscon(a[1]):
            x, n = self.word(a[0]), prov.snum(a[1])
            return ({k: v * n for k, v in x[0].items()}, x[1] * n, w)
        return None

    def word(self, b):
        """The form of a bit vector."""
        w = len(b)
        f, c, k = {}, 0, 0
        st = self.st
        while k < w:
            x = b[k]
            if isinstance(x, int):
                c += x << k
                k += 1
                continue
            s, j = x
            n = 1
            while k + n < w and b[k + n] == (s, j + n):
                n += 1
            if j:
                return ({b: 1}, 0, w)
            if not isinstance(s, prov.Term):
                # a source: its sign bit may be known, and repeated
                while k + n < w and n >= 15 and (b[k + n] == (s, 15) or (s, 15) in st.assume and b[k + n] == int(st.assume[(s, 15)])):
                    n += 1
                form = ({s: 1}, 0, w)
            else:
                form = self.term(s)
            if k + n < w and all(y == (s, n - 1) for y in b[k + n:]):
                form = ({("signed", s, n): 1}, 0, w)
                n = w - k
            elif k + n < w:
                form = self.cut(form, n)
                if form is None:
                    return ({b: 1}, 0, w)
            for a, v in form[0].items():
                f[a] = f.get(a, 0) + (v << k)
            c += form[1] << k
            k += n
        return ({a: v for a, v in f.items() if v % (1 << w)}, c, w)

    def cut(self, form, n):
        """The form of the low n bits as a number, if the range allows."""
        f, c, w = form
        if n >= w:
            return form if not f else None
        key, s = self.canon(f, w)
        for lo, ln in self.facts.get((key, w), ()):
            if s < 0:
                lo = -(lo + ln)
            lo = (lo + c) % (1 << w)
            if lo + ln < 1 << w and lo >> n == (lo + ln) >> n:
                return (f, c - (lo >> n << n), w)
        return None

    def is_(self, b, s):
        """Whether the word is the source s, or nought."""
        f, c, w = self.word(b)
        m = (1 << w) - 1
        f, c = self.wide(f, c, w)
        if s:
            f[s] = f.get(s, 0) - 1
        f = {k: v & m for k, v in f.items() if v & m}
        if not f:
            return not c & m
        key, g = self.canon(f, w)
        return (key, -c * g & m) in self.zero

    def wide(self, f, c, w):
        """The form modulo 2^w, with words cut to w bits or more written out."""
        f = dict(f)
        for a in [a for a in f if a[0] == "signed" and a[2] >= w]:
            v = f.pop(a)
            g, d, _w = self.term(a[1])
            c += v * d
            for k, x in g.items():
                f[k] = f.get(k, 0) + v * x
        return f, c


class Dec(Prov):
    """A decoded coefficient is written as the source it equals."""
    lines = at = w = None

    def __init__(self, *a, **k):
        Prov.__init__(self, *a, **k)
        self.nofork = True

    def wr(self, st, p, v, n):
        c = self.at.get(p.obj)
        if c is not None and n == COEF and not iscon(v):
            b, k = p.off // 128, p.off // 2 % 64
            if not 0 <= b < len(self.w.coef[c]):
                raise Mismatch((self.cur, "block %d of component %d is stored, which has %d" % (b, c, len(self.w.coef[c]))))
            s = "coef%d.%d.%d" % (c, b, k) if self.w.coef[c][b][k] else None
            if self.lines.is_(v, s):
                v = var(s, 16) if s else const(0, 16)
        return Prov.wr(self, st, p, v, n)


def coefs(p, st, jpg, w):
    es = p.ty.size("brunsli::JPEGComponent")
    d = field(p, jpg, st, "components")
    r = {}
    for c in range(len(w.comps)):
        co = field(p, P(("D", d.obj, d.off), c * es), st, "coeffs")
        r[("D", co.obj, co.off)] = c
    return r


def unwritten(e):
    """In a world everything is known but memory which was not written."""
    if not e.names or any(n.startswith("the address") for n in e.names):
        raise e
    return "decides on %s, which was not written" % ", ".join(e.names[:3])


def world(m, w):
    obs = []
    rel = lambda i: i.where() if i is not None else "c/dec/brunsli_decode.cc"
    try:
        p, st, jpg, queue, info = encode(m, w)
    except Mismatch as e:
        i, t = e.args[0]
        return [("R1", w.name, rel(i), False, t)]
    except prov.Unknown as e:
        return [("R1", w.name, rel(e.inst), False, unwritten(e))]
    obs.append(("count", "coding calls matched", sum(len(v) for v in queue.values())))
    obs.append(("count", "instructions followed", st.steps))
    try:
        q, st, jpg2 = decode(m, w, st, queue, info)
    except Mismatch as e:
        i, t = e.args[0]
        obs.append(("R1", w.name, rel(i), False, t))
        return obs
    except prov.Unknown as e:
        return obs + [("R1", w.name, rel(e.inst), False, unwritten(e))]
    obs.append(("R1", w.name, "c/dec/brunsli_decode.cc", True, ""))
    obs.append(("count", "instructions followed", st.steps))
    for o, c in sorted(Dec.at.items(), key=lambda x: x[1]):
        bad = None
        for b, x in enumerate(w.coef[c]):
            for k in range(64):
                g = q.rd(st, P(o, COEF * (64 * b + k)), COEF)
                if g == (var("coef%d.%d.%d" % (c, b, k), 16) if x[k] else const(0, 16)):
                    continue
                bad = bad or "coefficient %d of block %d comes back as %s%s" % (k, b, show(g), "" if q.ev(g) == x[k] & 0xFFFF else ": %s instead of %d" % (q.ev(g), x[k]))
        obs.append(("R2", "%s: component %d" % (w.name, c), "c/dec/brunsli_decode.cc", not bad, bad or ""))
    return obs


def worlds():
    y420, y444, y422 = [(2, 2), (1, 1), (1, 1)], [(1, 1)] * 3, [(2, 1), (1, 1), (1, 1)]

    def near(seed):         # places moved a little
        def of(z):
            k = sorted(range(1, 64), key=lambda j: j + (j * seed * 37 + seed) % 9)
            return [z[0]] + [z[j] for j in k]
        return of

    def back(z):            # all places reversed
        return [z[0]] + z[:0:-1]
    W = World
    big = 1020
    return [
        W("one block", [(1, 1)], (1, 1), 1),
        W("one component, row", [(1, 1)], (5, 1), 2),
        W("one component, column", [(1, 1)], (1, 5), 3),
        W("one component, square", [(1, 1)], (3, 3), 4, 6),
        W("one component, dense", [(1, 1)], (2, 2), 5, 60),
        W("one component, sampled", [(2, 2)], (1, 1), 6, 9),
        W("older context model", [(1, 1)], (3, 2), 7, 8, legacy=True),
        W("older context model, colour", y420, (1, 1), 8, 8, legacy=True),
        W("4:2:0", y420, (2, 1), 9),
        W("4:2:0, two rows", y420, (1, 2), 10),
        W("4:4:4", y444, (2, 2), 11),
        W("4:2:2", y422, (1, 2), 12, cmap=1),
        W("four components", [(1, 1), (2, 1), (1, 2), (1, 1)], (1, 1), 13, cmap=1),
        W("two components", [(1, 2), (1, 1)], (2, 1), 14),
        W("large values", [(1, 1)], (2, 2), 15, 6, big=big),
        W("large values, colour", y444, (1, 2), 16, 6, big=big),
        W("large negative values", [(1, 1)], (2, 2), 17, 6, big=-big),
        W("places moved", [(1, 1)], (2, 2), 18, 20, orders={0: near(1)}),
        W("places reversed", [(1, 1)], (2, 1), 19, 20, orders={0: back}),
        W("places moved by component", y444, (1, 1), 20, 20, orders={0: near(2), 1: back, 2: near(5)}, cmap=1),
        W("four components, full", [(1, 1), (1, 1), (1, 1), (1, 1)], (2, 2), 31, 9, cmap=1),
        W("tall", [(1, 1)], (2, 7), 32, 25),
        W("tall, older context model", [(1, 1)], (2, 7), 33, 25, legacy=True),
        W("large values at all places", [(1, 1)], (2, 5), 34, 60, big=700),
        W("gaps", [(1, 1)], (3, 8), 35, 200, gaps=2),
        W("gaps, older context model", [(1, 1)], (3, 8), 36, 200, gaps=2, legacy=True),
        W("gaps, colour", y420, (2, 4), 37, 90, gaps=2),
        W("empty", y420, (2, 1), 21, 0),
        W("quantized by one", [(1, 1)], (3, 2), 22, 12, quant=lambda c, k: 1),
        W("quantized coarsely", [(1, 1)], (3, 2), 23, 12, quant=lambda c, k: 255 - 3 * k),
        W("large quantizers", y444, (1, 1), 24, 12, quant=lambda c, k: 9000 + 700 * k),
        W("odd sampling", [(4, 1), (1, 2), (2, 1)], (1, 1), 25, 5),
        W("all places used", [(1, 1)], (1, 2), 26, 300),
        W("interrupted everywhere", y420, (2, 2), 27, 4, stop=1),
        W("interrupted", y420, (1, 2), 28, 4, stop=3),
        W("interrupted, places moved", y422, (2, 2), 29, 9, stop=2, orders={0: near(3), 2: near(4)}),
    ]


def run(rep):
    rep.rule("R1", "decoder and encoder make the same coding calls, in order, with the same models, histograms and bit counts", 24)
    rep.rule("R2", "each coefficient of a component comes back", 40)
    m = unit()
    for obs in fan(lambda w: world(m, w), worlds()):
        for o in obs:
            if o[0] == "count":
                rep.count(o[1], o[2])
            else:
                rep.ob(*o)


if __name__ == "__main__":
    import sys
    import time
    m = unit()
    for w in worlds():
        if not sys.argv[1:] or sys.argv[1] in w.name:
            t = time.time()
            for o in world(m, w):
                print(w.name, str(o)[:600], round(time.time() - t, 1))
