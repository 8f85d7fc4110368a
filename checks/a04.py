"""A04: every element of the JPEG file comes back at its place.

The reader and the writer are composed: the bits of a JPEG file are followed
through ReadJpeg into the JPEG data and from there through the serializer into
the output. Every bit of the output has to be the bit of the input at the same
place (or the constant the input has there).
"""
import re
from bsa import ir, prov
from bsa.build import AnalysisBroken
from bsa.prov import P, Prov, State, Broken, const, iscon, num, show, var, clean, width, objname

CHUNK = "brunsli::internal::dec::OutputChunk"


def unit():
    return ir.load("probe", keep=tuple(sorted(
        r"(^|[ :])%s(<[^(]*>)?\(" % n for n in ("ProcessScan", "ProcessSOS", "EncodeSOS", "DoEncodeScan", "SerializeJpeg", "ReadJpeg"))))


def chunks(p, st, i, a):
    """Construction of queue elements."""
    d = i.cdem or ""
    mm = p.stl.member(d)
    if not mm or mm[0] != "deque" or not mm[1].startswith(CHUNK):
        return None
    fn, c = mm[2], a[0]
    el = CHUNK
    k = None
    if fn in ("emplace_back", "push_back"):
        n = p.stl.nsize(st, c)
        q = P(p.stl.data(st, c, el).obj, n * p.ty.size(el))
        st.sz[(c.obj, c.off)] = const(n + 1, 64)
        e = p.stl.earg(d) if fn == "emplace_back" else CHUNK
        F = p.m.functions
        if len(a) == 1:
            p.sub(st, F["bsa_init_OutputChunk"], [q])
        elif e == CHUNK:
            if d.rstrip().endswith("const&)"):
                raise Broken("a chunk is copied")
            p.sub(st, F["bsa_chunk_move"], [q, a[1]])
        elif e.startswith("std::vector<unsigned char"):
            p.sub(st, F["bsa_chunk_bytes"], [q, a[1]])
        elif len(a) == 3:
            p.sub(st, F["bsa_chunk_view"], [q, p.ptr(st, a[1]), p.rd(st, a[2], 8)])
        elif p.ty.size(e):
            p.sub(st, F["bsa_chunk_size"], [q, prov.fill(p.rd(st, a[1], p.ty.size(e)), 64)])
        else:
            raise Broken("a chunk is made of %s" % e)
        return q if i.ty == "ptr" else ()
    return None


def default(p, st, name, ty):
    o = (name, 0)
    st.types[o] = ty
    st.user[("name", o)] = name
    g = p.m.functions.get("bsa_init_" + ty.split("::")[-1])
    if g is None:
        raise AnalysisBroken("no constructor of %s" % ty)
    p.boot(st, g, [P(o, 0)])
    return P(o, 0)


def arg(f, name, dflt):
    for k, x in enumerate(f.args):
        if x[0] == name:
            return k
    return dflt


def read(m, data, fixed=()):
    """ReadJpeg on the file `data`; the bytes at `fixed` are constants."""
    f = m.one("ReadJpeg")
    n = len(data)
    inp = ("in", 0)
    scan = m.find("ProcessSOS")

    def value(s):
        if isinstance(s, str) and s.startswith("in["):
            return data[int(s[3:-1])]
        return None

    def model(p, st, i, a):
        g = p.m.functions.get(i.callee)
        if g is not None and g.qual.split("::")[-1].split("<")[0] == "ProcessScan":
            # the header; the entropy coded data is empty here
            h = p.m.one("ProcessSOS")
            args = []
            for x in h.args:
                k = [y[0] for y in g.args].index(x[0])
                args.append(a[k])
            return p.enter(st, h, args, i)
        return None

    p = Prov(m, f, value, model)
    st = State()
    st.types[inp] = "unsigned char[%d]" % n
    st.user[("name", inp)] = "in"
    for k in fixed:
        st.mem[(inp, k)] = const(data[k], 8)
    jpg = default(p, st, "jpg", "brunsli::JPEGData")
    args = {"data": P(inp, 0), "len": const(n, 64), "jpg": jpg,
            "mode": const(m.enum("JpegReadMode")["JPEG_READ_ALL"], 32)}
    res = p.run([args[x[0]] for x in f.args], st)
    return p, res, jpg


def write(m, st0, jpg, value):
    f = m.one("SerializeJpeg")

    def model(p, st, i, a):
        r = chunks(p, st, i, a)
        if r is not None:
            return r
        g = p.m.functions.get(i.callee)
        if g is not None and "DoEncodeScan" in g.qual:
            ss = a[arg(g, "state", 2)]
            h = p.m.one("EncodeSOS")
            off = field(p, ss, st, "scan_index")
            k = p.stl.n(p.rd(st, off, 4))
            jp = a[arg(g, "jpg", 0)]
            vec = field(p, jp, st, "scan_info")
            el = p.stl.data(st, vec, "brunsli::JPEGScanInfo")
            si = P(el.obj, k * p.ty.size("brunsli::JPEGScanInfo"))
            if k >= p.stl.nsize(st, vec):
                raise Broken("scan %d of %d" % (k, p.stl.nsize(st, vec)))
            v = {"jpg": jp, "scan_info": si, "state": ss}

            def after(st, ok):
                p.wr(st, off, const(k + 1, 32), 4)
                return const(3 if num(ok) & 1 else 2, 32)

            return p.enter(st, h, [v[x[0]] for x in h.args], i, after=after)
        return None

    p = Prov(m, f, value, model)
    p.track = {}
    st = st0.copy()
    stp = default(p, st, "state", "brunsli::internal::dec::State")
    p.wr(st, field(p, stp, st, "stage"), const(5, 32), 4)
    ao, no = P(("avail", 0), 0), P(("next", 0), 0)
    p.wr(st, ao, const(0, 64), 8)
    p.wr(st, no, P(("out", 0), 0), 8)
    args = [stp, jpg, ao, no]
    res = p.run(args, st)
    return p, res, stp


def field(p, base, st, name):
    """Address of a member of the object at `base`."""
    t, off = clean(p.otype(st, base.obj)), base.off
    while t:
        r = p.ty.get(t)
        x = re.match(r"(.*)\[\d+\]$", t)
        if x and r is None:
            t = clean(x.group(1))
            off %= p.ty.size(t)
            continue
        if r is None:
            break
        if off == 0:
            for nm, ty, o, sz in r["members"]:
                if nm == name:
                    return P(base.obj, base.off + o)
        for nm, ty, o, sz in r["members"]:
            if o <= off < o + sz:
                t, off = clean(ty), off - o
                break
        else:
            break
    raise AnalysisBroken("no member %s at %s" % (name, show(base)))


class Any(object):
    """A byte of any value, with an example."""
    def __init__(self, ex=1):
        self.ex = ex & 255


_ = Any()


def seg(t, *b):
    n = len(b) + 2
    return [0xFF, t, n >> 8, n & 255] + list(b)


def rep_(n):
    return [Any(7 * k + 1) for k in range(n)]


def dqt(*tables):
    b = []
    for t in tables:
        prec, slot = t[:2]
        v = t[2] if len(t) > 2 else [3 + k % 61 + (k % 5) * 40 for k in range(64)]
        b += [prec << 4 | slot]
        for x in v:
            b += ([Any(x >> 8)] if prec else []) + [Any(x)]
    return seg(0xDB, *b)


def dht(*tables):
    b = []
    for slot, counts in tables:
        b += [slot] + counts + [0] * (16 - len(counts)) + [Any(37 * k + 17 if slot & 16 else (5 * k + 3) % 12) for k in range(sum(counts))]
    return seg(0xC4, *b)


def sof(t, h, w, *comps):
    return seg(t, 8, h >> 8, h & 255, w >> 8, w & 255, len(comps), *[x for c in comps for x in c])


def sos(comps, ss=0, se=63, a=0):
    return seg(0xDA, len(comps), *([x for c in comps for x in c] + [ss, se, a]))


SOI, EOI = [0xFF, 0xD8], [0xFF, 0xD9]
DC, AC = [0, 1, 5, 1, 1, 1, 1, 1, 1], [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 100]
SMALL = [0, 1, 2]
C3 = [(1, 0x22, 0), (2, 0x11, 1), (3, 0x11, 1)]
S3 = [(1, 0x00), (2, 0x11), (3, 0x11)]
TABLES = [("DHT", dht((0x00, SMALL))), ("DHT", dht((0x10, SMALL))), ("DHT", dht((0x01, SMALL))), ("DHT", dht((0x11, SMALL)))]


def worlds():
    """[(name, [(segment name, bytes)])], without SOI."""
    Q = [("DQT", dqt((0, 0))), ("DQT", dqt((0, 1)))]
    end = [("EOI", EOI)]
    out = []

    def add(name, *parts):
        out.append((name, [("SOI", SOI)] + [x for p in parts for x in (p if isinstance(p, list) else [p])]))

    add("baseline, three components", Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos(S3)), end)
    add("one component, least file", ("DQT", dqt((0, 0))), ("SOF", sof(0xC0, 1, 1, (1, 0x11, 0))),
        ("DHT", dht((0x00, SMALL))), ("DHT", dht((0x10, SMALL))), ("SOS", sos([(1, 0)])), end)
    add("full size Huffman tables", Q, ("SOF", sof(0xC0, 16, 24, *C3)), ("DHT", dht((0x00, DC))), ("DHT", dht((0x10, AC))),
        ("DHT", dht((0x01, DC))), ("DHT", dht((0x11, AC))), ("SOS", sos(S3)), end)
    add("several tables in a segment", ("DQT", dqt((0, 0), (0, 1))), ("SOF", sof(0xC0, 16, 24, *C3)),
        ("DHT", dht((0x00, SMALL), (0x10, [1, 0, 2]), (0x01, [0, 0, 5]), (0x11, [1, 1, 1]))), ("SOS", sos(S3)), end)
    add("tables grouped by kind", ("DQT", dqt((0, 0), (0, 1))), ("SOF", sof(0xC1, 16, 24, *C3)),
        ("DHT", dht((0x00, SMALL), (0x01, [0, 2]))), ("DHT", dht((0x10, SMALL), (0x11, [1]))), ("SOS", sos(S3)), end)
    add("precision of quantization tables", ("DQT", dqt((1, 0))), ("DQT", dqt((0, 1), (1, 2))), ("DQT", dqt((1, 3))),
        ("SOF", sof(0xC1, 8, 8, (1, 0x11, 0), (2, 0x11, 1), (3, 0x11, 3))), TABLES, ("SOS", sos(S3)), end)
    add("tables redefined", Q, ("DQT", dqt((1, 0))), ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("DHT", dht((0x00, [1, 1]))),
        ("SOS", sos([(1, 0x00)])), ("DHT", dht((0x00, SMALL))), ("DQT", dqt((0, 1))), ("SOS", sos([(2, 0x11), (3, 0x01)])), end)
    add("tables after the frame", ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, Q, ("SOS", sos(S3)), end)
    add("tables of high slots", ("DQT", dqt((0, 2))), ("DQT", dqt((0, 3))), ("SOF", sof(0xC0, 8, 8, (1, 0x11, 3), (2, 0x11, 2), (3, 0x11, 3))),
        ("DHT", dht((0x02, SMALL), (0x13, SMALL))), ("DHT", dht((0x12, SMALL), (0x03, SMALL))),
        ("SOS", sos([(1, 0x23), (2, 0x32), (3, 0x33)])), end)
    add("four components, odd sampling", Q, ("SOF", sof(0xC0, 40, 72, (1, 0x42, 0), (2, 0x21, 1), (3, 0x11, 1), (4, 0x41, 0))), TABLES,
        ("SOS", sos([(1, 0x00), (2, 0x11), (3, 0x01), (4, 0x10)])), end)
    add("two components", Q, ("SOF", sof(0xC0, 16, 24, (0, 0x12, 0), (1, 0x11, 1))), TABLES, ("SOS", sos([(0, 0x00), (1, 0x11)])), end)
    add("component ids", Q, ("SOF", sof(0xC0, 16, 24, (0, 0x11, 0), (255, 0x11, 1), (82, 0x11, 0))), TABLES,
        ("SOS", sos([(0, 0x00), (255, 0x11), (82, 0x01)])), end)
    add("component ids RGB", Q, ("SOF", sof(0xC0, 16, 24, (82, 0x11, 0), (71, 0x11, 1), (66, 0x11, 0))), TABLES,
        ("SOS", sos([(82, 0x00), (71, 0x11), (66, 0x01)])), end)
    add("large dimensions", Q, ("SOF", sof(0xC0, 0x010F, 0x1234, *C3)), TABLES, ("SOS", sos(S3)), end)
    add("scans by component", Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos([(1, 0x00)])), ("SOS", sos([(3, 0x11)])),
        ("SOS", sos([(2, 0x10)])), end)
    add("scan in another order", Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos([(3, 0x00), (1, 0x11), (2, 0x01)])), end)
    add("progressive", Q, ("SOF", sof(0xC2, 16, 24, *C3)), ("DHT", dht((0x00, SMALL), (0x01, SMALL))), ("SOS", sos(S3, 0, 0, 0x01)),
        ("DHT", dht((0x10, SMALL))), ("SOS", sos([(1, 0x00)], 1, 5, 0x02)), ("DHT", dht((0x11, SMALL))),
        ("SOS", sos([(3, 0x01)], 1, 63, 0x01)), ("SOS", sos([(2, 0x01)], 1, 63, 0x01)), ("SOS", sos([(1, 0x00)], 6, 63, 0x02)),
        ("SOS", sos([(1, 0x00)], 1, 63, 0x21)), ("SOS", sos(S3, 0, 0, 0x10)), ("SOS", sos([(2, 0x01)], 1, 63, 0x10)), end)
    add("unusual approximation", Q, ("SOF", sof(0xC2, 16, 24, *C3)), TABLES, ("SOS", sos(S3, 0, 0, 0x0D)), ("SOS", sos([(1, 0x00)], 17, 40, 0x93)), end)
    add("restart interval", Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("DRI", seg(0xDD, _, _)), ("SOS", sos(S3)), end)
    add("restart interval before the frame", ("DRI", seg(0xDD, _, _)), Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos(S3)), end)
    add("stray restart markers", ("RST", [0xFF, 0xD0]), Q, ("SOF", sof(0xC0, 16, 24, *C3)), ("RST", [0xFF, 0xD7]), ("RST", [0xFF, 0xD3]), TABLES,
        ("SOS", sos(S3)), ("RST", [0xFF, 0xD5]), end)
    add("application segments", [("APP%d" % k, seg(0xE0 + k, *rep_(3 + k))) for k in range(16)], Q,
        ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos(S3)), end)
    add("application segments everywhere", ("APP2", seg(0xE2, *rep_(300))), ("DQT", dqt((0, 0))), ("APP0", seg(0xE0, *rep_(5))), ("DQT", dqt((0, 1))),
        ("APP1", seg(0xE1)), ("SOF", sof(0xC0, 16, 24, *C3)), ("APP14", seg(0xEE, *rep_(12))), TABLES, ("APP2", seg(0xE2, _)), ("SOS", sos(S3)),
        ("APP15", seg(0xEF, _, _)), end)
    add("comments", ("COM", seg(0xFE, *rep_(7))), Q, ("COM", seg(0xFE)), ("COM", seg(0xFE, *rep_(260))), ("SOF", sof(0xC0, 16, 24, *C3)), TABLES,
        ("COM", seg(0xFE, _)), ("SOS", sos(S3)), ("COM", seg(0xFE, _)), end)
    add("comments and application segments mixed", ("COM", seg(0xFE, _)), ("APP1", seg(0xE1, _, _)), ("COM", seg(0xFE, _, _, _)), Q,
        ("APP1", seg(0xE1, _)), ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos(S3)), ("APP3", seg(0xE3, _)), ("COM", seg(0xFE, _, _)), end)
    add("data between markers", ("gap", [0]), Q, ("gap", [1, 2, 3, 4]), ("SOF", sof(0xC0, 16, 24, *C3)), ("gap", [0xFF]), TABLES, ("gap", [0xFF, 0, 7]),
        ("DRI", seg(0xDD, _, _)), ("SOS", sos(S3)), ("gap", [9]), ("APP4", seg(0xE4, _)), ("gap", [8]), end)
    for n in (1, 2, 40):
        add("%d bytes after the end" % n, Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos(S3)), end, ("tail", rep_(n)))
    add("another image after the end", Q, ("SOF", sof(0xC0, 16, 24, *C3)), TABLES, ("SOS", sos(S3)), end, ("tail", [0xFF, 0xD8, 0xFF, 0xD9]))
    add("everything", ("APP0", seg(0xE0, *rep_(14))), ("gap", [5]), ("COM", seg(0xFE, _)), ("DQT", dqt((0, 0), (1, 1))), ("RST", [0xFF, 0xD1]),
        ("SOF", sof(0xC2, 33, 257, *C3)), ("DRI", seg(0xDD, _, _)), TABLES, ("gap", [1, 1]), ("SOS", sos(S3, 0, 0, 0x01)), ("APP9", seg(0xE9, _)), ("gap", [3]),
        ("DHT", dht((0x12, [1, 1]))), ("SOS", sos([(2, 0x02)], 1, 63, 0x00)), ("COM", seg(0xFE)), end, ("tail", rep_(3)))
    return out


class Same(object):
    """Bits and words which are equal under the assumptions of a path."""
    def __init__(self, st):
        self.up = {}
        terms = set()
        for (s, k), v in st.assume.items():
            if isinstance(s, tuple) and (v and s[:2] == ("t", "icmp eq") or not v and s[:2] == ("t", "icmp ne")):
                a, b = s[3], s[4]
                if not isinstance(a, P) and not isinstance(b, P):
                    for x, y in zip(a, b):
                        for z in (x, y):
                            if isinstance(z, tuple) and isinstance(z[0], prov.Term):
                                terms.add(z[0])
                        self.union(x, y)
            elif not isinstance(s, tuple):
                self.union((s, k), int(v))
        self.words = {}
        self.memo = {}
        self.subst = {}
        for t in sorted(terms, key=repr):
            self.words.setdefault(tuple(self.find((t, k)) for k in range(t[2])), t)
        for t in terms:         # sums known to be equal to something else
            if t[1] in ("add", "sub") and len(t) == 5:
                self.relate(self.terms(t), self.linear(tuple(self.find((t, k)) for k in range(t[2]))), t[2])

    def relate(self, a, b, w):
        m = (1 << w) - 1
        d = {k: (a.get(k, 0) - b.get(k, 0)) & m for k in set(a) | set(b)}
        d = {k: v for k, v in d.items() if v}
        for k in sorted((k for k in d if k != 1), key=repr, reverse=True):
            if d[k] in (1, m):
                s = -1 if d[k] == 1 else 1
                self.subst[k] = {j: (s * v) & m for j, v in d.items() if j != k}
                self.memo = {}
                return

    def union(self, x, y):
        x, y = self.find(x), self.find(y)
        if x != y:
            if isinstance(x, int):
                x, y = y, x
            if not isinstance(x, int):
                self.up[x] = y

    def find(self, x):
        while x in self.up and self.up[x] != x:
            x = self.up[x]
        return x

    def linear(self, b):
        """{word: coefficient}, 1 for the constant, of a bit vector."""
        if b in self.memo:
            return self.memo[b]
        w = len(b)
        m = (1 << w) - 1
        c = tuple(self.find(x) for x in b)
        t = None
        if iscon(c):
            r = {1: num(c)} if num(c) else {}
        elif any(x == 1 for x in c):        # bits which are set: no carry from them
            r = dict(self.linear(tuple(0 if x == 1 else x for x in c)))
            k = sum(1 << j for j, x in enumerate(c) if x == 1)
            r[1] = (r.get(1, 0) + k) & m
        else:
            x = b[0][0] if isinstance(b[0], tuple) else None
            t = x if isinstance(x, prov.Term) and b == var(x, w) and x[2] == w else self.words.get(c)
            r = self.terms(t) if t is not None and len(t) > 3 and t[2] == w else None
            if r is None:
                r = {c: 1}
        while True:
            hit = [k for k in r if k in self.subst]
            if not hit:
                break
            v = r.pop(hit[0])
            for k, x in self.subst[hit[0]].items():
                r[k] = (r.get(k, 0) + v * x) & m
        r = {k: v for k, v in r.items() if v}
        self.memo[b] = r
        return r

    def equal(self, a, b):
        """Whether two words (bytes, least significant first) are the same number."""
        a, b = [sum(x, ()) for x in (a, b)]
        return self.low(a) == self.low(b)

    def low(self, b):
        """Linear form of a word that may be the lower part of another."""
        n = len(b)
        t = b[0][0] if isinstance(b[0], tuple) else None
        if isinstance(t, prov.Term) and t[2] > n and b == var(t, n):
            r = self.linear(var(t, t[2]))
        else:
            r = self.linear(b + (0,) * max(32 - n, 0))
        r = {k: v & ((1 << n) - 1) for k, v in r.items()}
        return {k: v for k, v in r.items() if v}

    def terms(self, t):
        """The linear form of a term by its operands."""
        op, a, m = t[1], t[3:], (1 << t[2]) - 1
        if op in ("add", "sub"):
            r = dict(self.linear(a[0]))
            for k, v in self.linear(a[1]).items():
                r[k] = (r.get(k, 0) + (v if op == "add" else -v)) & m
            return r
        if op == "mul" and iscon(a[1]):
            return {k: (v * num(a[1])) & m for k, v in self.linear(a[0]).items()}
        return None

    def bit(self, x):
        """The bit, followed through words that are equal to known ones."""
        x = self.find(x)
        for _k in range(3):
            if not isinstance(x, tuple):
                return x
            if isinstance(x[0], prov.Term):
                r, j = self.linear(var(x[0], x[0][2])), x[1]
            else:
                k = [k for k in self.subst if x in k]
                if not k:
                    return x
                r, j = self.linear(k[0]), k[0].index(x)
            if not r or list(r) == [1]:
                return (r.get(1, 0) >> j) & 1
            if len(r) != 1 or list(r.values()) != [1]:
                return x
            y = self.find(list(r)[0][j])
            if y == x:
                return x
            x = y
        return x


def output(p, st):
    """[(bits, where)] of the bytes in the output queue."""
    q = []
    for k, v in list(st.sz.items()):
        t = p.ftype(st, k[0], k[1])
        if t and clean(t).startswith("std::deque<" + CHUNK):
            n = p.ev(v)
            if n is None:
                raise Broken("the number of chunks is %s" % show(v))
            if n:
                q.append((k, n))
    if len(q) > 1:
        raise AnalysisBroken("%d output queues" % len(q))
    out = []
    for k, n in q:
        el = P(("D",) + k, 0)
        size = p.ty.size(CHUNK)
        for j in range(n):
            c = P(el.obj, j * size)
            d = p.ptr(st, field(p, c, st, "next"))
            ln = p.ev(p.rd(st, field(p, c, st, "len"), 8))
            if ln is None:
                raise Broken("the length of a chunk is not known")
            for b in range(ln):
                out.append((p.rd(st, P(d.obj, d.off + b), 1), p.track.get((d.obj, d.off + b)), objname(d.obj)))
    return out


def world(m, name, parts):
    """[(rule or counter, key, where, ok, detail)] of one structure."""
    obs = []
    f, g = m.one("ReadJpeg"), m.one("SerializeJpeg")
    w = lambda h: h.file.replace(ir.build.REPO + "/", "") + ":" + str(h.d.get("line", "?"))
    data = [None if isinstance(b, Any) else b for _n, s in parts for b in s]
    p, res, jpg = read(m, data)
    good = [st for r, st in res if not isinstance(r, P) and p.ev(r) == 1]
    unsure = [r for r, st in res if isinstance(r, P) or p.ev(r) is None]
    if unsure:
        raise AnalysisBroken("ReadJpeg returns %s" % show(unsure[0]))
    obs.append(("count", "paths of ReadJpeg", len(res)))
    why = ""
    if not good:
        why = "the file is rejected"
    outs = []
    for st in good:
        p2, res2, stp = write(m, st, jpg, p.value)
        obs.append(("count", "paths of SerializeJpeg", len(res2)))
        obs.append(("count", "instructions followed", sum(s.steps for r, s in res2)))
        for r, s in res2:
            v = None if isinstance(r, P) else p2.ev(r)
            if v != 1:
                why = "serialization ends with %s" % (show(r) if v is None else v)
                continue
            outs.append((Same(s), output(p2, s)))
    if good and not outs and not why:
        why = "nothing is written"
    obs.append(("R1", name, w(f) if not good else w(g), not why, why))
    pos = 0
    for k, (sn, s) in enumerate(parts):
        bad = None
        for same, out in outs:
            for b in range(pos, pos + len(s)):
                if b >= len(out):
                    bad = (w(g), "the output ends %d bytes into it" % (b - pos))
                    break
                got, at, on = out[b]
                at = at.where() if at is not None else "%s (%s)" % (w(g), on)
                want = [("in[%d]" % b, j) for j in range(8)] if data[b] is None else const(data[b], 8)
                for j in range(8):
                    x, y = same.bit(got[j]), same.bit(want[j])
                    if x == y or data[b] is not None and x == same.find(("in[%d]" % b, j)):
                        continue
                    if data[b] is not None and isinstance(x, tuple) and isinstance(x[0], prov.Term) and p.ev((x,)) == want[j]:
                        continue        # computed: a length or a count
                    bad = (at, "byte %d of it, bit %d, is bit %d of %s" % (b - pos, j, j, show(got)))
                    break
                if bad:
                    break
            if not bad and k == len(parts) - 1 and len(out) > pos + len(s):
                bad = (w(g), "%d more bytes follow" % (len(out) - pos - len(s)))
            if bad:
                break
        if outs:
            obs.append(("R2", "%s: %s %d" % (name, sn, k), bad[0] if bad else w(g), not bad, bad[1] if bad else ""))
        pos += len(s)
    return obs


def run(rep):
    rep.rule("R1", "a file of this structure is read and written", 25)
    rep.rule("R2", "every bit of a segment is written back at its place, from its own bit of the file", 250)
    m = unit()
    for obs in prov.fan(lambda x: world(m, *x), worlds()):
        for o in obs:
            if o[0] == "count":
                rep.count(o[1], o[2])
            else:
                rep.ob(*o)
