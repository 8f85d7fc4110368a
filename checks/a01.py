"""A01: what the encoder writes about the JPEG headers, the decoder reads back.

Parser, encoder, decoder and serializer are composed (the entropy coded
sections are left out, as the "groups" workflow does): the bits of a JPEG file
are followed into the sections of the brunsli stream and out of them again.
"""
import re
from bsa import ir, prov
from bsa.build import AnalysisBroken
from bsa.prov import P, Prov, State, Broken, const, iscon, num, show, var, clean, width, objname, fan
from checks import a04
from checks.a04 import field, default

SKIP = (1 << 6) | (1 << 7) | (1 << 8)
NAMES = ("ProcessScan", "ProcessSOS", "EncodeSOS", "DoEncodeScan", "SerializeJpeg", "ReadJpeg", "BrunsliSerialize", "ProcessJpeg", "FindBestMatrix", "FillQuantMatrix")


def unit():
    return ir.load("probe", keep=tuple(sorted(r"(^|[ :])%s(<[^(]*>)?\(" % n for n in NAMES)))


def encode(m, st0, jpg, value, q=17, room=1 << 20):
    """[(return value, state)], stream at ("brn", 0), its length at ("brnlen", 0)."""
    f = m.one("BrunsliSerialize")

    def model(p, st, i, a):
        if (i.callee or "").startswith("BrotliEncoderCompress"):
            # by contract the decompressor restores it; stored as it is
            n = p.stl.n(a[3])
            have = p.stl.n(p.rd(st, a[5], 8))
            if have < n:
                return const(0, 32)
            p.copy(st, a[6], a[4], n)
            p.wr(st, a[5], const(n, 64), 8)
            return const(1, 32)
        g = p.m.functions.get(i.callee)
        if g is not None and g.qual.split("::")[-1] == "FindBestMatrix":
            # any choice has to do; R5 decides that the matrix is that of the choice
            h = p.m.one("FillQuantMatrix")
            v = {x[0]: a[k] for k, x in enumerate(g.args)}
            names = [x[0] for x in h.args]
            v[names[1]] = const(q, 32)
            return p.enter(st, h, [v[x] for x in names], i, after=lambda st, r: const(q, 32))
        return None

    p = Prov(m, f, value, model, steps=6000000)
    st = st0.copy()
    es = ("encstate", 0)
    st.types[es] = "brunsli::internal::enc::State"
    st.user[("name", es)] = "enc"
    g = m.functions.get("bsa_init_EncState")
    p.boot(st, g, [P(es, 0)])
    d, ln = P(("brn", 0), 0), P(("brnlen", 0), 0)
    st.user[("name", ("brn", 0))] = "brn"
    p.wr(st, ln, const(room, 64), 8)
    v = {"state": P(es, 0), "jpg": jpg, "skip_sections": const(SKIP, 32), "data": d, "len": ln}
    return p, p.run([v[x[0]] for x in f.args], st)


def decode(m, st0, value, n, split=None):
    f = m.one("ProcessJpeg")

    def model(p, st, i, a):
        c = i.callee or ""
        if c == "BrotliDecoderCreateInstance":
            return P(st.fresh("brotli"), 0)
        if c == "BrotliDecoderDestroyInstance":
            return ()
        if c == "BrotliDecoderDecompressStream":
            n = p.stl.n(p.rd(st, a[1], 8))
            src = p.ptr(st, a[2])
            take = min(n, split) if split else n
            if not n:
                return const(2, 32)
            st.user[("out", a[0].obj)] = (src, take)
            p.wr(st, a[1], const(n - take, 64), 8)
            p.wr(st, a[2], P(src.obj, src.off + take), 8)
            return const(1 if take == n else 3, 32)
        if c == "BrotliDecoderTakeOutput":
            src, take = st.user.pop(("out", a[0].obj), (None, 0))
            p.wr(st, a[1], const(take, 64), 8)
            return src if take else P(("empty", 0), 0)
        return None

    p = Prov(m, f, value, model, steps=6000000)
    st = st0.copy()
    stp = default(p, st, "decstate", "brunsli::internal::dec::State")
    jpg = default(p, st, "jpg2", "brunsli::JPEGData")
    p.wr(st, field(p, stp, st, "data"), P(("brn", 0), 0), 8)
    p.wr(st, field(p, stp, st, "len"), const(n, 64), 8)
    p.wr(st, field(p, stp, st, "skip_tags"), const(SKIP, 32), 4)
    v = {"state": stp, "jpg": jpg}
    return p, p.run([v[x[0]] for x in f.args], st), jpg, stp


def q(f):
    return [f(k) for k in range(64)]


def worlds(m):
    """[(name, parts, best q, decompression step, extras)]"""
    A = a04
    out = []
    for n, parts in A.worlds():
        out.append((n, parts, 17, None, False))
    base = [("SOF", A.sof(0xC0, 16, 24, *A.C3))] + A.TABLES + [("SOS", A.sos(A.S3)), ("EOI", A.EOI)]

    def add(name, *parts, **k):
        out.append((name, [("SOI", A.SOI)] + [x for p in parts for x in (p if isinstance(p, list) else [p])],
                    k.get("q", 17), k.get("split"), k.get("extras", False)))

    def quant(name, *tables, **k):
        add("quantization: " + name, ("DQT", A.dqt(*tables)), base, **k)

    stock = quants(m)
    for c in (0, 1):
        for j, t in enumerate(stock[c]):
            tb = [(0, 0, q(lambda k: 9)), (0, 1, q(lambda k: 8))]
            tb[c] = (0, c, t)
            quant("stock table %d.%d" % (c, j), *tb)
            if j in (0, 3, 7):
                tb[c] = (0, c, t[:63] + [t[63] + 1])
                quant("nearly stock table %d.%d" % (c, j), *tb)
    quant("16 bits, far apart", (1, 0, q(lambda k: 32768 if k % 2 else 1)), (1, 1, q(lambda k: 1 if k % 3 else 32769)))
    quant("16 bits, powers", (1, 0, q(lambda k: 1 << (k % 16))), (1, 1, q(lambda k: (1 << (k % 16)) - 1 or 2)))
    quant("16 bits, falling", (1, 0, q(lambda k: 65535 - 1000 * k)), (0, 1, q(lambda k: 255 - 3 * k)))
    quant("16 bits, small values", (1, 0, q(lambda k: 1)), (1, 1, q(lambda k: 2 + k)))
    for b in (0, 1, 16, 63):
        quant("matrix %d" % b, (0, 0, q(lambda k: 1 + 2 * k)), (0, 1, q(lambda k: 255)), q=b)
    quant("ones", (0, 0, q(lambda k: 1)), (0, 1, q(lambda k: 1)), q=0)
    Q = [("DQT", A.dqt((0, 0))), ("DQT", A.dqt((0, 1)))]
    meta = [("APP0", A.seg(0xE0, *A.rep_(20))), ("APP1", A.seg(0xE1)), ("COM", A.seg(0xFE, *A.rep_(9))), ("COM", A.seg(0xFE)), ("APP2", A.seg(0xE2, *A.rep_(2)))]
    for s in (1, 2, 3, 7, 24):
        add("metadata decompressed by %d bytes" % s, meta, Q, base, ("tail", A.rep_(5)), split=s)
    for n in (0xE0, 0xE2, 0xEC, 0xEE):
        b = canned(m, n)
        at = {0xE0: 11, 0xE2: 84, 0xEC: 15, 0xEE: 10}[n]
        mid = list(b)
        mid[at] ^= 0x55
        last = b[:-1] + [b[-1] ^ 1]
        segs = [("APP", [0xFF] + b), ("APP", [0xFF] + mid), ("APP", [0xFF] + last), ("APP", [0xFF] + b[:5] + [b[5] ^ 1] + b[6:])]
        add("canned segment %X" % n, segs, ("COM", A.seg(0xFE, 1)), Q, base)
    e0 = canned(m, 0xE0)
    dens = consts(m, "kApp0Densities")["init"]
    for n, f in enumerate((lambda d: (1 + n_ % 2, n_ % 4, d, d), lambda d: (2, 1, d, d ^ 1), lambda d: (1, 2, d, d + 256), lambda d: (2, 0, d + 256, d),
                           lambda d: (3, 1, d, d), lambda d: (1, 4, d, d), lambda d: (0, 1, d, d), lambda d: (1, 1, d + 1, d + 1))):
        segs = []
        for n_, d in enumerate(dens):
            v, u, x, y = f(d)
            segs.append(("APP", [0xFF] + e0[:9] + [v, u, (x >> 8) & 255, x & 255, (y >> 8) & 255, y & 255, 0, 0]))
        add("JFIF segments %d" % n, segs, Q, base)
    for ids in ((1, 2, 3), (1, 2, 4), (1, 4, 3), (4, 2, 3), (82, 71, 66), (82, 71, 67), (82, 72, 66), (83, 71, 66), (0, 1, 2), (3, 2, 1), (255, 0, 128),
                (1, 2), (82, 71), (1,), (0,), (2,), (82,), (255,), (1, 2, 3, 4), (82, 71, 66, 65), (1, 2, 3, 0)):
        add("component ids %s" % " ".join(map(str, ids)), Q, ("SOF", A.sof(0xC0, 16, 24, *[(i, 0x11, j % 2) for j, i in enumerate(ids)])), A.TABLES,
            ("SOS", A.sos([(i, 0x11 * (j % 2)) for j, i in enumerate(ids)])), ("EOI", A.EOI))
    S = A.SMALL
    for n, order in enumerate(((0x00, 0x01, 0x10, 0x11), (0x11, 0x10, 0x01, 0x00), (0x10, 0x00, 0x11, 0x01), (0x01, 0x11, 0x00, 0x10))):
        for cut in ((4,), (1, 3), (3, 1), (2, 2), (1, 1, 1, 1)):
            at, segs = 0, []
            for c in cut:
                segs.append(("DHT", A.dht(*[(x, S) for x in order[at:at + c]])))
                at += c
            if (n + len(cut)) % 2 or len(cut) == 1:
                add("Huffman tables %d in segments %s" % (n, cut), Q, ("SOF", A.sof(0xC0, 16, 24, *A.C3)), segs, ("SOS", A.sos(A.S3)), ("EOI", A.EOI))
    for kind, name in ((0, "DC"), (0x10, "AC")):
        cs, vs = consts(m, "kStock%sHuffmanCodeCounts" % name), consts(m, "kStock%sHuffmanCodeValues" % name)
        for j in range(cs["shape"][0]):
            c = cs["init"][16 * j:16 * j + 16]
            n = vs["shape"][1]
            v = vs["init"][n * j:n * j + n - 1]
            last = max(k for k, x in enumerate(c) if x)
            c = c[:last] + [c[last] - 1] + c[last + 1:]
            w2, w3, w4 = list(v), list(v), list(v)
            w2[-2:] = w2[:-3:-1]
            w3[:2] = w3[1::-1]
            w4[-1] = (set(range(256)) - set(v)).pop()
            c6 = list(c)
            c6[last] -= 1
            c6[last + 1 if last < 15 else last] += 1
            for what, cc, vv in (("", c, v), (" with its last values swapped", c, w2), (" with its first values swapped", c, w3), (" with another last value", c, w4), (" with a longer code", c6, v), (" less a value", c[:last] + [c[last] - 1] + c[last + 1:], v[:-1])):
                if kind == 0 and vv is w4:
                    continue
                add("stock %s table %d%s" % (name, j, what), Q, ("SOF", A.sof(0xC0, 16, 24, *A.C3)),
                    ("DHT", A.seg(0xC4, *([kind] + cc + vv))), [x for x in A.TABLES if x[1][4] != kind], ("SOS", A.sos(A.S3)), ("EOI", A.EOI))
    add("single abbreviated segment", ("APP", [0xFF] + canned(m, 0xE0)), Q, base)
    add("reset points, zero runs and padding", Q, ("SOF", A.sof(0xC2, 64, 64, *A.C3)), A.TABLES, ("SOS", A.sos(A.S3, 0, 0, 1)),
        ("SOS", A.sos([(1, 0)], 1, 5, 0)), ("SOS", A.sos([(2, 1)], 1, 63, 0)), ("EOI", A.EOI), extras=True)
    add("reset points, zero runs and padding in one scan", Q, ("SOF", A.sof(0xC0, 64, 64, *A.C3)), A.TABLES, ("DRI", A.seg(0xDD, 0, 1)), ("SOS", A.sos(A.S3)),
        ("EOI", A.EOI), extras=True)
    for w, h in ((1, 1), (127, 128), (128, 16383), (16384, 129), (65535, 8), (9, 65535)):
        add("dimensions %dx%d" % (w, h), ("DQT", A.dqt((0, 0))), ("SOF", A.sof(0xC0, h, w, (1, 0x11, 0))),
            ("DHT", A.dht((0x00, A.SMALL), (0x10, A.SMALL))), ("SOS", A.sos([(1, 0)])), ("EOI", A.EOI))
    for k, s in enumerate(([0x11], [0x44], [0x13], [0x21, 0x11, 0x11], [0x12, 0x11, 0x11], [0x22, 0x12, 0x21], [0x11, 0x22, 0x11],
                           [0x11, 0x11, 0x44], [0x42, 0x12, 0x21, 0x11], [0x33, 0x11, 0x31, 0x13])):
        comps = [(j + 1, f, j % 2) for j, f in enumerate(s)]
        add("sampling %s" % " ".join("%02X" % f for f in s), Q, ("SOF", A.sof(0xC0, 70, 90, *comps)), A.TABLES,
            ("SOS", A.sos([(j + 1, 0x11 * (j % 2)) for j in range(len(s))])), ("EOI", A.EOI))
    return out


def consts(m, pat):
    """Bytes or numbers of a constant table."""
    for n, g in sorted(m.globals.items()):
        if pat in n and g.get("const") and g.get("init"):
            return g
    raise AnalysisBroken("no table %s" % pat)


def quants(m):
    g = consts(m, "kStockQuantizationTables")
    v = g["init"]
    if len(v) % 128:
        raise AnalysisBroken("%d stock quantization values" % len(v))
    n = len(v) // 128
    order = consts(m, "kJPEGNaturalOrder")["init"]
    t = [[v[(c * n + j) * 64:(c * n + j + 1) * 64] for j in range(n)] for c in (0, 1)]
    return [[[x[order[k]] for k in range(64)] for x in c] for c in t]


def canned(m, n):
    b = [x & 255 for x in consts(m, "AppData_0x%02x" % n)["init"]]
    if n == 0xE0:       # version, units, density, no thumbnail
        b = b[:9] + [1, 1, 0, 72, 0, 72, 0, 0]
    return b


def poke(p, st, jpg):
    """Scan details which are not in marker segments."""
    val = {}
    el = P(("D", jpg.obj, field(p, jpg, st, "scan_info").off), 0)
    size = p.ty.size("brunsli::JPEGScanInfo")
    n = p.ev(st.sz[(jpg.obj, el.obj[2])])
    what = []

    def vector(at, name, numbers, es=4):
        st.sz[(at.obj, at.off)] = const(len(numbers), 64)
        d = ("D", at.obj, at.off)
        for k, x in enumerate(numbers):
            for j, v in enumerate(x if isinstance(x, tuple) else (x,)):
                s = "%s[%d].%d" % (name, k, j)
                val[s] = v
                p.wr(st, P(d, k * es + 4 * j), prov.fill(var(s, max(v.bit_length(), 1)), 32), 4)
        what.append((name, at.obj, at.off, len(numbers), es))

    for k in range(n):
        si = P(el.obj, k * size)
        vector(field(p, si, st, "reset_points"), "reset%d" % k, [[0, 1, 2, 7], [3], []][k % 3])
        vector(field(p, si, st, "extra_zero_runs"), "runs%d" % k, [[(0, 1), (1, 3), (9, 1)], [], [(5, 2)]][k % 3], 8)
    vector(field(p, jpg, st, "padding_bits"), "padding", [1, 0, 0, 1, 1])
    at = field(p, jpg, st, "has_zero_padding_bit")
    p.wr(st, at, const(1, 8), 1)
    return val, what


def world(m, name, parts, bestq, split, extras):
    obs = []
    fr, fe, fd, fs = (m.one(x) for x in ("ReadJpeg", "BrunsliSerialize", "ProcessJpeg", "SerializeJpeg"))
    w = lambda h: h.file.replace(ir.build.REPO + "/", "") + ":" + str(h.d.get("line", "?"))
    raw = [b for _n, s in parts for b in s]
    data = [b.ex if isinstance(b, a04.Any) else b for b in raw]
    fixed = [k for k, b in enumerate(raw) if not isinstance(b, a04.Any)]
    p, res, jpg = a04.read(m, data, fixed)
    good = [st for r, st in res if not isinstance(r, P) and p.ev(r) == 1]
    if len(res) != 1 or len(good) != 1:
        raise AnalysisBroken("world %s: ReadJpeg %s" % (name, [show(r) for r, s in res]))
    st, val, what = good[0], {}, []
    if extras:
        val, what = poke(p, st, jpg)

    def value(s):
        v = val.get(s)
        return p.value(s) if v is None else v

    def end(stage, got, f, want):
        if len(got) != 1:
            raise AnalysisBroken("world %s: %s has %d ends: %s" % (name, stage, len(got), sorted(stage_p.forked)))
        v = None if isinstance(got[0][0], P) else stage_p.ev(got[0][0])
        obs.append(("count", "instructions followed", got[0][1].steps))
        return got[0][1], v, v == want

    stage_p, got = encode(m, st, jpg, value, q=bestq)
    st, v, ok = end("encoder", got, fe, 1)
    obs.append(("R1", name + ": encoder", w(fe), ok, "" if ok else "the encoder refuses the file"))
    if not ok:
        return obs
    n = stage_p.ev(stage_p.rd(st, P(("brnlen", 0), 0), 8))
    stage_p, got, jpg2, dst = decode(m, st, value, n, split)
    st, v, ok = end("decoder", got, fd, 7)
    pos = stage_p.ev(stage_p.rd(st, field(stage_p, dst, st, "pos"), 8)) if ok else None
    ok = ok and pos == n
    obs.append(("R1", name + ": decoder", w(fd), ok, "" if ok else "returns %s at byte %s of %d" % (v, pos, n)))
    if not ok:
        return obs
    if extras:
        same = a04.Same(st)
        off = jpg2.off - jpg.off
        for nm, o, of, cnt, es in what:
            o2 = ("D", jpg2.obj, o[2]) if o[0] == "D" else jpg2.obj
            have = st.sz.get((o2, of))
            k = stage_p.ev(have) if have is not None else 0
            bad = "" if k == cnt else "%s elements instead of %d" % (k, cnt)
            if not bad:
                for j in range(cnt * es // 4):
                    s = "%s[%d].%d" % (nm, j * 4 // es, j * 4 % es // 4)
                    b = stage_p.rd(st, P(("D", o2, of), 4 * j), 4)
                    if nm == "padding":
                        b = b[:1] if stage_p.rd(st, P(("D", o2, of), 4 * j), 4)[1:] == (0,) * 31 else b
                    exp = prov.fill(var(s, max(val[s].bit_length(), 1)), len(b))
                    x = {k_: v_ for k_, v_ in same.linear(b).items()} if len(b) > 1 else None
                    eq = tuple(same.bit(y) for y in b) == tuple(same.find(y) for y in exp)
                    if not eq and x is not None:
                        eq = x == same.linear(exp)
                    if not eq and stage_p.ev(b) != val[s]:
                        bad = "element %d is %s" % (j, show(b))
                        break
            obs.append(("R3", name + ": " + nm, w(fd), not bad, bad))
    out = []
    p2, got, _s = a04.write(m, st, jpg2, value)
    stage_p = p2
    st, v, ok = end("serializer", got, fs, 1)
    obs.append(("R1", name + ": serializer", w(fs), ok, "" if ok else "returns %s" % v))
    if not ok:
        return obs
    out, same = a04.output(p2, st), a04.Same(st)
    at = 0
    for k, (sn, s) in enumerate(parts):
        bad = None
        for b in range(at, at + len(s)):
            if b >= len(out):
                bad = (w(fs), "the output ends %d bytes into it" % (b - at))
                break
            g, wr, on = out[b]
            wr = wr.where() if wr is not None else "%s (%s)" % (w(fd), on)
            want = const(data[b], 8) if not isinstance(raw[b], a04.Any) else tuple(("in[%d]" % b, j) for j in range(8))
            for j in range(8):
                x, y = same.bit(g[j]), same.bit(want[j])
                if x != y and number(same, [z[0] for z in out], raw, b):
                    break
                if x == y:
                    continue
                if iscon(want) and isinstance(x, tuple) and isinstance(x[0], prov.Term) and p2.ev((x,)) == want[j]:
                    continue        # computed: a length or a count
                bad = (wr, "byte %d of it, bit %d, is bit %d of %s" % (b - at, j, j, show(g)))
                break
            if bad:
                break
        if not bad and k == len(parts) - 1 and len(out) > at + len(s):
            bad = (w(fs), "%d more bytes follow" % (len(out) - at - len(s)))
        obs.append(("R2", "%s: %s %d" % (name, sn, k), bad[0] if bad else w(fs), not bad, bad[1] if bad else ""))
        at += len(s)
    return obs


def number(same, out, raw, b):
    """Whether the byte is part of a number of one or two bytes which is that
    of the file."""
    for at, n in ((b, 1), (b - 1, 2), (b, 2)):
        r = range(at, at + n)
        if at >= 0 and at + n <= min(len(out), len(raw)):
            want = [tuple(("in[%d]" % k, j) for j in range(8)) for k in r]
            if same.equal([out[k] for k in r][::-1], want[::-1]):
                return True
    return False


def search(m, chroma, k, extra):
    """The matrix search, for a table near matrix k: [(rule, key, where, ok, detail)]"""
    f, g = m.one("FindBestMatrix"), m.one("FillQuantMatrix")
    w = f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line", "?"))

    def model(p, st, i, a):
        return None

    def matrix(n):
        p = Prov(m, g, lambda s: None, model)
        st = State()
        o = P(("matrix", 0), 0)
        r = p.run([const(chroma, 1), const(n, 32), o][:len(g.args)], st)
        return [p.ev(p.rd(r[0][1], P(o.obj, j), 1)) for j in range(64)] if len(r) == 1 else None

    near = matrix(k)
    p = Prov(m, f, lambda s: None, model, steps=6000000)
    st = State()
    src, dst = P(("src", 0), 0), P(("dst", 0), 0)
    if not near or None in near:
        raise AnalysisBroken("quantization matrix %d is not a constant" % k)
    for j in range(64):
        p.wr(st, P(src.obj, 4 * j), const(near[j] + extra(j), 32), 4)
    r = p.run([src, const(chroma, 1), dst], st)
    if len(r) != 1:
        raise AnalysisBroken("the matrix search has %d ends" % len(r))
    n = p.ev(r[0][0])
    got = [p.ev(p.rd(r[0][1], P(dst.obj, j), 1)) for j in range(64)]
    ok = n is not None and got == matrix(n)
    return [("count", "instructions followed", r[0][1].steps),
            ("R5", "search near matrix %d of %s" % (k, "chroma" if chroma else "luma"), w, ok,
             "" if ok else "the matrix left by the search is not that of the choice %s it returns" % n)]


def run(rep):
    rep.rule("R1", "the headers of a file of this structure are encoded, decoded completely and written", 150)
    rep.rule("R2", "every bit of a segment comes out of the stream at its place, from its own bit of the file", 600)
    rep.rule("R3", "scan details outside of the segments come back", 8)
    rep.rule("R5", "the search for a quantization matrix leaves the matrix of the choice it returns", 4)
    m = unit()
    near = [(0, 3, lambda j: 0), (1, 50, lambda j: j % 2), (0, 40, lambda j: 700 * (j % 3)), (1, 0, lambda j: 3)]
    for obs in fan(lambda x: search(m, *x[1:]) if x[0] is None else world(m, *x), [(None,) + x for x in near] + worlds(m)):
        for o in obs:
            if o[0] == "count":
                rep.count(o[1], o[2])
            else:
                rep.ob(*o)
