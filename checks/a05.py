"""A05: the JPEG reader and the encoder hold their data to the limits of the
format, so nothing they accept is beyond what a bit field can carry or what a
decoder accepts.

R1  every value the JPEG reader stores is within the limits (either the set of
    stored values is, or storing a value beyond makes the step fail)
R2  the extreme legal values are accepted
R3  under the limits of R1 every value fits the bit field it is written to
R4  the encoder refuses data it can not represent
R5  ... and accepts data at the limit
"""
from bsa import vs, scen
from bsa.scen import call_is
from checks.lib import *

READER = ("ProcessSOF", "ProcessSOS", "ProcessDQT", "ProcessDRI", "ProcessDHT", "ProcessAPP", "ProcessCOM",
          "ProcessScan", "DecodeDCTBlock", "RefineDCTBlock", "ProcessRestart", "FixupIndexes", "FindNextMarker",
          "FinishStream", "BuildJpegHuffmanTable", "ReadBits", "ReadSymbol", "IsUnhealthy", "FillBitWindow")
ENCODER = ("WriteBits", "EncodeVarint", "EncodeLimitedVarint", "EncodeHuffmanCode", "EncodeScanInfo",
           "EncodeQuantTables", "EncodeAuxData", "MatchComponentIds", "PaddingBitsLimit", "GetQuantTableId",
           "EncodeHeader", "EncodeMetaData", "EncodeSection", "EncodeSignature", "EncodeOriginalJpg",
           "CalculateMeta", "PredictDCCoeffs", "RemoveValue", "FrameTypeCode", "Base128Size", "EncodeCodeWords",
           "PredictWithAdaptiveMedian", "EncodeBase128", "TransformApp0Marker", "TransformApp2Marker",
           "TransformApp12Marker", "TransformApp14Marker", "JumpToByteBoundary")
BIG = (1 << 31) - 1

# step, struct, field, lowest, highest legal value, values beyond
LIMITS = [
    ("ProcessSOF", "JPEGData", "width", 1, 65535, (0,)),
    ("ProcessSOF", "JPEGData", "height", 1, 65535, (0,)),
    ("ProcessSOF", "JPEGComponent", "id", 0, 255, ()),
    ("ProcessSOF", "JPEGComponent", "h_samp_factor", 1, 15, (0,)),
    ("ProcessSOF", "JPEGComponent", "v_samp_factor", 1, 15, (0,)),
    ("ProcessSOF", "JPEGComponent", "num_blocks", 0, 1 << 21, ()),
    ("ProcessSOS", "JPEGScanInfo", "Ss", 0, 63, (64, 65, 128, 255)),
    ("ProcessSOS", "JPEGScanInfo", "Se", 0, 63, (64, 65, 128, 255)),
    ("ProcessSOS", "JPEGScanInfo", "Ah", 0, 15, ()),
    ("ProcessSOS", "JPEGScanInfo", "Al", 0, 15, ()),
    ("ProcessSOS", "JPEGComponentScanInfo", "dc_tbl_idx", 0, 3, (4, 5, 15)),
    ("ProcessSOS", "JPEGComponentScanInfo", "ac_tbl_idx", 0, 3, (4, 5, 15)),
    ("ProcessDQT", "JPEGQuantTable", "precision", 0, 1, (2, 3, 15)),
    ("ProcessDQT", "JPEGQuantTable", "index", 0, 3, (4, 5, 15)),
    ("ProcessDRI", "JPEGData", "restart_interval", 0, 65535, ()),
    ("ProcessDHT", "JPEGHuffmanCode", "slot_id", 0, 19,
     tuple(range(4, 16)) + tuple(range(20, 48)) + (48, 64, 128, 131, 144, 240, 255)),
    ("ProcessDHT", "JPEGHuffmanCode", "values", 0, 256, ()),
]
SLOTS = vs.of(0, 1, 2, 3, 16, 17, 18, 19)


def argno(f, name, dflt):
    for n, a in enumerate(f.args):
        if a[0] == name:
            return n
    return dflt


def collect(um, fn, pr, want):
    """Union of the values at the instructions `want` maps to a key."""
    m, mods = um
    f = m.one(fn)
    s = Scen(f, mods, pr)
    got = {}

    def oi(i, e, mem):
        k = want(i, s)
        if k is not None:
            key, op = k
            v = s.val(i.ops[op], e)
            if key not in got:
                got[key] = (v, i)
            else:
                got[key] = (vs.union(got[key][0], v), got[key][1])
    s.run({}, {}, on_inst=oi)
    if s.capped:
        raise AnalysisBroken("exploration of %s does not converge" % f.qual)
    return got


def stored(i, s):
    if i.op == "store":
        k = scen.prem_field(s.paths.cell(i.ops[1], i.d.get("vty", "")))
        if isinstance(k, tuple):
            return ("S", scen.last(k[0]), k[1]), 0
    if scen.taker(i) and call_is(i, "resize", None, s):
        return ("R", scen.recv_field(i, s.paths)), 1
    return None


def run(rep):
    rep.rule("R1", "values the JPEG reader stores are within the limits of the format", 40)
    rep.rule("R2", "extreme legal values are accepted by the JPEG reader", 40)
    rep.rule("R3", "values fit the bit fields they are written to", 30)
    rep.rule("R4", "the encoder refuses what the format can not represent", 40)
    rep.rule("R5", "the encoder accepts data at the limits", 20)
    um = unit("enc", READER + ENCODER)
    m, mods = um
    P = Premise

    def bad(key, fn, pr, *ent, **kw):
        scenario(rep, kw.pop("rule", "R4"), key, um, fn, pr, "fail", ent, **kw)

    def ok(key, fn, pr, *ent, **kw):
        scenario(rep, kw.pop("rule", "R5"), key, um, fn, pr, "ok", ent, **kw)

    # ---- R1/R2: what the reader stores
    cols = {}
    for fn in sorted(set(l[0] for l in LIMITS)):
        cols[fn] = collect(um, fn, P(), stored)
    for fn, st, fl, lo, hi, beyond in LIMITS:
        key = "%s.%s" % (st, fl)
        got = cols[fn].get(("S", st, fl))
        if got is None:
            raise AnalysisBroken("%s no longer stores %s" % (fn, key))
        v, i = got
        if fl == "slot_id":
            inside = v is not None and vs.subset(v, SLOTS)
        else:
            inside = v is not None and vs.subset(v, vs.rng(lo, hi))
        if inside or not beyond:
            rep.ob("R1", key, i.where(), inside, "%s stores %s, legal are %d..%d" % (fn, show(v), lo, hi))
        if not inside:
            for b in beyond:
                bad("%s = %d" % (key, b), fn, P().store_of(st, fl, vs.of(b)), rule="R1", good=vs.of(1, -1))
        else:
            for b in beyond:
                rep.ob("R1", "%s = %d" % (key, b), i.where(), True, "never stored")
        ends = {lo, hi, (lo + hi) // 2} if fl != "slot_id" else {0, 3, 16, 19}
        for b in sorted(ends):
            if fl == "num_blocks" and b == 0:
                continue
            has = v is None or vs.has(v, b)
            rep.ob("R2", "%s = %d can be stored" % (key, b), i.where(), has, "%s stores only %s" % (fn, show(v)))
            if fl in ("values",):
                continue
            p = P().store_of(st, fl, vs.of(b))
            if st == "JPEGScanInfo" and fl == "Ss":
                p.store_of("JPEGScanInfo", "Se", vs.of(63))
            if st == "JPEGScanInfo" and fl == "Se":
                p.store_of("JPEGScanInfo", "Ss", vs.of(0))
            ok("%s = %d" % (key, b), fn, p, rule="R2", good=vs.of(1, -1))
    ncomp = cols["ProcessSOF"].get(("R", "components"))
    if ncomp is None:
        raise AnalysisBroken("no resize of components in ProcessSOF")
    v = ncomp[0]
    rep.ob("R1", "number of components", ncomp[1].where(), v is not None and vs.subset(v, vs.rng(1, 4)),
           "components resized to %s, legal are 1..4" % show(v))
    for n in range(1, 5):
        rep.ob("R2", "%d components" % n, ncomp[1].where(), v is None or vs.has(v, n), "only %s" % show(v))
    q = cols["ProcessDQT"].get(("S", "container", "*data"))
    if q is None:
        raise AnalysisBroken("ProcessDQT stores no table values")
    rep.ob("R1", "quantization value", q[1].where(), q[0] is not None and vs.subset(q[0], vs.rng(1, 65535)),
           "%s stored, legal are 1..65535" % show(q[0]))
    for n in (1, 255, 256, 65535):
        rep.ob("R2", "quantization value %d" % n, q[1].where(), q[0] is None or vs.has(q[0], n), "only %s" % show(q[0]))
    # order of the spectral band
    for ss, se in ((1, 0), (5, 4), (63, 0), (63, 62), (2, 1)):
        bad("scan band %d..%d" % (ss, se), "ProcessSOS",
            P().store_of("JPEGScanInfo", "Ss", vs.of(ss)).store_of("JPEGScanInfo", "Se", vs.of(se)), rule="R1")
    for ss, se in ((0, 0), (0, 63), (63, 63), (1, 1), (1, 63)):
        ok("scan band %d..%d" % (ss, se), "ProcessSOS",
           P().store_of("JPEGScanInfo", "Ss", vs.of(ss)).store_of("JPEGScanInfo", "Se", vs.of(se)), rule="R2")
    # number of components of a scan
    for nc in range(1, 5):
        nn = lambda v: P().store_of("JPEGScanInfo", "num_components", vs.of(v)).size("components", vs.of(nc))
        for k in (0, nc + 1, nc + 5, 255):
            bad("scan with %d of %d components" % (k, nc), "ProcessSOS", nn(k), rule="R1")
        for k in (1, nc):
            ok("scan with %d of %d components" % (k, nc), "ProcessSOS", nn(k), rule="R2")
    # number of quantization tables: no table is added to four
    g = collect(um, "ProcessDQT", P().size("quant", vs.of(4)),
                lambda i, s: (("P",), 0) if scen.taker(i) and scen.recv_field(i, s.paths) == "quant" else None)
    rep.ob("R1", "fifth quantization table", "c/enc/jpeg_data_reader.cc:ProcessDQT", not g,
           "added at %s" % (g[("P",)][1].where() if g else ""))
    g = collect(um, "ProcessDQT", P().size("quant", vs.of(3)),
                lambda i, s: (("P",), 0) if scen.taker(i) and scen.recv_field(i, s.paths) == "quant" else None)
    rep.ob("R2", "fourth quantization table", "c/enc/jpeg_data_reader.cc:ProcessDQT", bool(g), "never added")
    fd = argno(m.one("ProcessDRI"), "found_dri", 3)
    bad("second restart interval", "ProcessDRI", P().field("arg", str(fd), vs.of(1)), rule="R1")
    ok("first restart interval", "ProcessDRI", P().field("arg", str(fd), vs.of(0)), rule="R2")
    bad("second frame header", "ProcessSOF", P().field("JPEGData", "width", vs.rng(1, 65535)), rule="R1")
    # whole file
    mode = argno(m.one("ReadJpeg"), "mode", 2)
    RA = lambda n: P().size("huffman_code", vs.of(n)).arg(mode, vs.of(m.enum("JpegReadMode")["JPEG_READ_ALL"]))
    for n in (0, 512, 513, 5000):
        bad("%d Huffman tables" % n, "ReadJpeg", RA(n), rule="R1")
    for n in (1, 511):
        ok("%d Huffman tables" % n, "ReadJpeg", RA(n), rule="R2")
    bad("component without quantization table", "ReadJpeg", RA(4).call("FixupIndexes", vs.of(0)), rule="R1")
    for al in (11, 12, 15):
        bad("scan with Al = %d" % al, "ProcessScan", P().field("JPEGScanInfo", "Al", vs.of(al))
            .arg(argno(m.one("ProcessScan"), "is_progressive", 6), vs.of(1)), rule="R1")
    for al in (0, 1, 10):
        ok("scan with Al = %d" % al, "ProcessScan", P().field("JPEGScanInfo", "Al", vs.of(al))
           .arg(argno(m.one("ProcessScan"), "is_progressive", 6), vs.of(1)), rule="R2", cap=200000)
    # coefficient magnitudes
    f = m.one("DecodeDCTBlock")
    A = lambda n, d: argno(f, n, d)

    def blk(ss, al, sym):
        p = P().arg(A("Ss", 2), vs.of(ss)).arg(A("Se", 3), vs.of(max(ss, 0))).arg(A("Al", 4), vs.of(al))
        p.call("ReadSymbol", vs.of(sym)).field("arg", str(A("eobrun", 5)), vs.of(0))
        s = sym & 15
        p.call("ReadBits", vs.rng(0, (1 << s) - 1))
        return p
    for sym in (12, 13, 15, 16, 255, 256, 0xffff):
        bad("DC symbol %d" % sym, "DecodeDCTBlock", blk(0, 0, sym), rule="R1")
    for sym in (0, 1, 11):
        ok("DC symbol %d" % sym, "DecodeDCTBlock", blk(0, 0, sym), rule="R2")
    for al in range(0, 11):
        for s in range(1, 16):
            (bad if s + al >= 12 else ok)("AC magnitude of %d bits, shifted by %d" % (s, al), "DecodeDCTBlock",
                                          blk(5, al, s), rule="R1" if s + al >= 12 else "R2")
    for sym in (256, 257, 0xffff):
        bad("AC symbol %d" % sym, "DecodeDCTBlock", blk(5, 0, sym), rule="R1")
    for sym in (0x11, 0xf1):
        bad("AC symbol 0x%x at the end of the band" % sym, "DecodeDCTBlock", blk(5, 0, sym), rule="R1")
    f = m.one("RefineDCTBlock")

    def ref(sym):
        p = P().arg(A2("Ss", 1), vs.of(5)).arg(A2("Se", 2), vs.of(10)).arg(A2("Al", 3), vs.of(1))
        return p.call("ReadSymbol", vs.of(sym)).field("arg", str(A2("eobrun", 4)), vs.of(0))
    A2 = lambda n, d: argno(f, n, d)
    for sym in list(range(2, 16)) + [0x12, 0xff, 256, 0xffff]:
        bad("refinement symbol 0x%x" % sym, "RefineDCTBlock", ref(sym), rule="R1")
    for sym in (0, 1, 0x11, 0xe0):
        ok("refinement symbol 0x%x" % sym, "RefineDCTBlock", ref(sym), rule="R2")

    # ---- R3: fields fit
    lim = P()
    for fn, st, fl, lo, hi, beyond in LIMITS:
        if fl in ("values",):
            continue
        lim.field(st, fl, SLOTS if fl == "slot_id" else vs.rng(lo, hi))
    lim.field("JPEGScanInfo", "num_components", vs.rng(1, 4)).field("JPEGComponentScanInfo", "comp_idx", vs.rng(0, 3))
    lim.field("JPEGComponent", "quant_idx", vs.rng(0, 3)).field("JPEGData", "padding_bits", vs.rng(0, 1))
    lim.field("JPEGQuantTable", "is_last", vs.rng(0, 1)).field("JPEGHuffmanCode", "is_last", vs.rng(0, 1))
    lim.field("ComponentMeta", "context_bits", vs.rng(0, 6))
    lim.field("JPEGData", "marker_order", vs.rng(-64, -1))
    lim.size("quant", vs.rng(1, 4)).size("components", vs.rng(1, 4))
    lim.call("MatchComponentIds", vs.rng(0, 3)).call("GetQuantTableId", vs.rng(0, 8 + 63))
    nfit = 0
    for fn in ("EncodeAuxData", "EncodeScanInfo", "EncodeQuantTables", "EncodeHuffmanCode", "EncodeHistogramData"):
        g = collect(um, fn, lim,
                    lambda i, s: (("W", i.id), 1) if call_is(i, "WriteBits", None, s) and i.ops[0][0] == "c"
                    or call_is(i, "EncodeVarint", None, s) and fn == "EncodeQuantTables" else
                    (("V", i.id), 0) if call_is(i, "EncodeVarint", None, s) else None)
        for key, (v, i) in sorted(g.items(), key=lambda x: x[1][1].id):
            if key[0] == "V":
                if fn == "EncodeQuantTables":
                    rep.ob("R3", "%s: difference of 16 bits" % fn, i.where(),
                           v is not None and vs.subset(v, vs.rng(0, 65535)), "may be %s" % show(v))
                continue
            if call_is(i, "EncodeVarint", None, Scen(m.one(fn), mods, P())):
                # operand 0 is the value
                continue
            n = i.ops[0][1]
            if not i.where().split(":")[0].endswith("brunsli_encode.cc"):
                continue     # entropy code data, not a limit of the JPEG data
            okv = v is not None and vs.subset(v, vs.rng(0, (1 << n) - 1))
            nfit += 1
            rep.ob("R3", "%s: field of %d bits" % (fn, n), i.where(), okv, "may hold %s" % show(v))
    g = collect(um, "EncodeQuantTables", lim, lambda i, s: (("V",), 0) if call_is(i, "EncodeVarint", None, s) else None)
    if g:
        v, i = g[("V",)]
        rep.ob("R3", "EncodeQuantTables: difference of 16 bits", i.where(),
               v is not None and vs.hi(v) <= 65535, "may be %s" % show(v))
    rep.count("bit_fields", nfit)

    encoder(rep, um, bad, ok)


def encoder(rep, um, bad, ok):
    m, mods = um
    P = Premise
    # header
    def H(w=8, h=8, n=3, v=0):
        p = P().field("JPEGData", "width", vs.of(w)).field("JPEGData", "height", vs.of(h))
        p.field("JPEGData", "version", vs.of(v)).size("components", vs.of(n))
        p.call("Base128Size", vs.of(1))
        return p.field("arg", str(argno(m.one("EncodeHeader"), "len", 3)), vs.of(1000))
    for k, p in (("width 0", H(w=0)), ("height 0", H(h=0)), ("no components", H(n=0)), ("5 components", H(n=5)),
                 ("6 components", H(n=6)), ("version 8", H(v=8)), ("version 16", H(v=16)), ("version 10", H(v=10)),
                 ("version 3", H(v=3)), ("version 5", H(v=5)), ("version 7", H(v=7)), ("version 9", H(v=9))):
        bad("header with " + k, "EncodeHeader", p)
    for k, p in (("1 component", H(n=1)), ("4 components", H(n=4)), ("version 2", H(v=2)), ("version 4", H(v=4)),
                 ("version 6", H(v=6)), ("fallback version", H(v=1)), ("fallback version, no size", H(w=0, h=0, v=1)),
                 ("65535x65535 pixels", H(w=65535, h=65535))):
        ok("header with " + k, "EncodeHeader", p)
    # metadata: the number of transformed markers is whatever makes the count hit
    T = ("TransformApp0Marker", "TransformApp2Marker", "TransformApp12Marker", "TransformApp14Marker")

    def M(app, com, hit):
        p = P().size("app_data", vs.of(app)).size("com_data", vs.of(com)).size("tail_data", vs.of(0))
        for t in T:
            p.call(t, vs.of(hit))
        return p
    for n in (1025, 1026, 5000):
        bad("%d comments" % n, "EncodeMetaData", M(0, n, 0))
        bad("%d application records" % n, "EncodeMetaData", M(n, 0, 0), cap=400000)
    for n in (2049, 4000):
        bad("%d application records of any kind" % n, "EncodeMetaData",
            P().size("app_data", vs.of(n)).size("com_data", vs.of(0)).size("tail_data", vs.of(0)), cap=400000)
    for n in (0, 1, 1024):
        ok("%d comments" % n, "EncodeMetaData", M(0, n, 0))
    bad("metadata that can not be compressed", "EncodeMetaData",
        P().call("BrotliEncoderCompress", vs.of(0)).size(None, vs.of(100)))
    # tables
    for n in (0, 5, 6, 100):
        bad("%d quantization tables" % n, "EncodeQuantTables", P().size("quant", vs.of(n)))
    for n in (1, 4):
        ok("%d quantization tables" % n, "EncodeQuantTables", P().size("quant", vs.of(n)).size("components", vs.of(1)))
    bad("quantization value 0", "EncodeQuantTables",
        P().size("quant", vs.of(1)).field("JPEGQuantTable", "values", vs.of(0)).field("container", "*data", vs.of(0)))
    # component refers to a table that exists
    for nq in (1, 2, 4):
        for q in (nq, nq + 1, 200):
            bad("component refers to table %d of %d" % (q, nq), "CalculateMeta",
                P().size("quant", vs.of(nq)).field("JPEGComponent", "quant_idx", vs.of(q)).size("components", vs.of(1)))
        ok("component refers to table %d of %d" % (nq - 1, nq), "CalculateMeta",
           P().size("quant", vs.of(nq)).field("JPEGComponent", "quant_idx", vs.of(nq - 1)).size("components", vs.of(1)))
    # Huffman codes
    f = m.one("EncodeHuffmanCode")
    kl = argno(f, "is_known_last", 1)
    bad("last Huffman code not marked as last", "EncodeHuffmanCode",
        P().arg(kl, vs.of(1)).field("JPEGHuffmanCode", "is_last", vs.of(0)))
    # auxiliary data
    aux = "EncodeAuxData"
    for mk in (0, 0x7f, 0xbf):
        bad("marker 0x%02x" % mk, aux, P().field("JPEGData", "marker_order", vs.of(mk) if mk < 128 else vs.of(mk, mk - 256))
            .size("marker_order", vs.of(3)))
    bad("no markers", aux, P().size("marker_order", vs.of(0)))
    bad("failing Huffman code", aux, P().call("EncodeHuffmanCode", vs.of(0)).size("huffman_code", vs.rng(1, 4)))
    bad("failing scan", aux, P().call("EncodeScanInfo", vs.of(0)).size("scan_info", vs.rng(1, 4)))
    for nq in (1, 2, 4):
        bad("last of %d quantization tables not marked as last" % nq, aux,
            P().size("quant", vs.of(nq)).field("JPEGQuantTable", "is_last", vs.of(0)))
    pad = lambda n, z, l: P().size("padding_bits", vs.of(n)).field("JPEGData", "has_zero_padding_bit", vs.of(z)) \
        .call("PaddingBitsLimit", vs.of(l))
    for n, l in ((1, 0), (101, 100), (1 << 20, 1 << 10)):
        bad("%d padding bits of at most %d" % (n, l), aux, pad(n, 1, l))
    for n, z, l in ((100, 1, 100), (0, 1, 0), (5, 0, 0)):
        ok("%d padding bits of at most %d%s" % (n, l, "" if z else ", unused"), aux, pad(n, z, l))
    # original file and signature
    o = argno(m.one("EncodeOriginalJpg"), "len", 3)
    oj = lambda n, c: P().field("JPEGData", "original_jpg_size", vs.of(n)).field("arg", str(o), vs.of(c))
    for n, c in ((1, 0), (101, 100), (1 << 40, 1 << 20)):
        bad("original of %d bytes into %d" % (n, c), "EncodeOriginalJpg", oj(n, c))
    for n, c in ((100, 100), (1, 100)):
        ok("original of %d bytes into %d" % (n, c), "EncodeOriginalJpg", oj(n, c))
    f = m.one("EncodeSignature")
    ln, ps = argno(f, "len", 0), argno(f, "pos", 2)
    sg = lambda l, p: P().arg(ln, vs.of(l)).field("arg", str(ps), vs.of(p))
    for l, p in ((0, 0), (5, 0), (6, 1), (100, 95), (100, 100)):
        bad("signature at %d of %d bytes" % (p, l), "EncodeSignature", sg(l, p))
    for l, p in ((6, 0), (100, 94)):
        ok("signature at %d of %d bytes" % (p, l), "EncodeSignature", sg(l, p))
    # DC prediction errors
    g = collect(um, "PredictDCCoeffs", P().field("arg", "*", vs.of(0)),
                lambda i, s: (("S",), 0) if i.op == "store" and i.d.get("vty") == "i16" else None)
    if not g:
        raise AnalysisBroken("PredictDCCoeffs stores no prediction errors")
    v, i = g[("S",)]
    rep.ob("R4", "DC prediction error within the coded range", i.where(),
           v is not None and vs.subset(v, vs.rng(-2054, 2054)), "may store %s, coded are -2054..2054" % show(v))
    for n in (-2054, 2054, 0):
        rep.ob("R5", "DC prediction error %d" % n, i.where(), v is None or vs.has(v, n), "only %s" % show(v))
