"""B06: every declared size, count, factor, index or position is compared with
the limit of the format: beyond it the stream is refused, at it the stream is
accepted.

Scenario obligations (bsa/scen.py): for each limit a premise puts the declared
quantity just beyond (success must be unreachable) and exactly at the limit
(success must stay reachable).
"""
from bsa import vs, scen
from checks.lib import *

EXTRA = ("PaddingBitsLimit", "DecodeVarint", "DecodeLimitedVarint", "UpdateSubsamplingDerivatives",
         "DecodeCoeffOrder", "ReadBits", "DecodeLehmerCode", "DecodeVarLenUint8", "Remove",
         "BrunsliBitReaderGet", "BrunsliBitReaderDrop", "ReadSymbol", "GenerateApp0Marker", "GenerateAppMarker",
         "BuildHuffmanTable", "ReadShortHuffmanCode", "ReadSimpleCode", "ReadHuffmanCodeLengths")


def run(rep):
    rep.rule("R1", "a declared quantity beyond its limit is refused", 60)
    rep.rule("R2", "a declared quantity at its limit is accepted", 40)
    um = unit("dec", EXTRA)
    m, mods = um
    P = Premise

    def bad(key, fn, pr, *ent, **kw):
        # enough input: "not enough data" would be no refusal
        pr.call("BrunsliBitReaderCanRead", vs.of(1, -1))
        scenario(rep, "R1", key, um, fn, pr, "fail", ent, **kw)

    def ok(key, fn, pr, *ent, **kw):
        scenario(rep, "R2", key, um, fn, pr, "ok", ent, **kw)

    # --- header
    hst = m.enum("HeaderState::Stage")

    def H(v3=8, w=64, h=64, sub=0, ders=1):
        p = P().bit("SectionState", "tags_met", ones=0x1e)
        p.field("HeaderState", "varint_values", vs.of(w), 1)
        p.field("HeaderState", "varint_values", vs.of(h), 2)
        p.field("HeaderState", "varint_values", vs.of(v3), 3)
        p.field("HeaderState", "varint_values", vs.of(sub), 4)
        p.size("components", vs.of((v3 & 3) + 1))
        p.call("UpdateSubsamplingDerivatives", vs.of(ders))
        return p
    fin = ("HeaderState", "stage", vs.of(hst["FINALE"]))
    for n, k in (("width", "w"), ("height", "h")):
        for v in (0, 65536, 65537, 1 << 17, 1 << 31, (1 << 32) + 64, (1 << 48) + 1, (1 << 62) + 64):
            bad("%s %d" % (n, v), "DecodeHeader", H(**{k: v}), fin)
        for v in (1, 2, 32768, 65535):
            ok("%s %d" % (n, v), "DecodeHeader", H(**{k: v}), fin)
    for nc in range(1, 5):
        for j in range(2 * nc):
            bad("%d components, sampling factor %d of 16" % (nc, j), "DecodeHeader", H(v3=8 | (nc - 1), sub=0xF << (4 * j)), fin)
        ok("%d components, all sampling factors 15" % nc, "DecodeHeader", H(v3=8 | (nc - 1), sub=0xEEEEEEEE & ((1 << (8 * nc)) - 1)), fin)
    bad("too many blocks", "DecodeHeader", H(ders=0), fin)

    big = lambda w, h: P().store_of("JPEGComponent", "width_in_blocks", vs.of(w)) \
        .store_of("JPEGComponent", "height_in_blocks", vs.of(h)).size("components", vs.rng(1, 4))
    for w, h in ((8192, 257), (257, 8192), (2048, 1025), (8205, 8205), (1 << 11, (1 << 10) + 1)):
        bad("component of %dx%d blocks" % (w, h), "UpdateSubsamplingDerivatives", big(w, h))
    for w, h in ((8192, 256), (2048, 1024), (1, 1), (8205, 255)):
        ok("component of %dx%d blocks" % (w, h), "UpdateSubsamplingDerivatives", big(w, h))

    # --- metadata records
    ms = m.enum("MetadataState::Stage")
    at = lambda st: ("MetadataState", "stage", vs.of(ms[st]))
    def meta(st, b):
        return P().field("arg", "0", vs.of(b) if b < 128 else vs.of(b, b - 256)).arg(1, vs.of(1))
    for b in range(256):
        valid = b < 0x40 or 0x80 <= b <= 0x82 or b == 0xD9 or b == 0xFE or 0xE0 <= b <= 0xEF
        if valid:
            ok("metadata record 0x%02x" % b, "ProcessMetaData", meta("READ_MARKER", b), at("READ_MARKER"))
        else:
            bad("metadata record 0x%02x" % b, "ProcessMetaData", meta("READ_MARKER", b), at("READ_MARKER"))
    for lo in (0, 1):
        bad("metadata record of length %d" % lo, "ProcessMetaData", meta("", lo), at("READ_LENGTH_LO"),
            ("MetadataState", "length_hi", vs.of(0)))
    for hi, lo in ((0, 2), (1, 0), (255, 255)):
        ok("metadata record of length %d" % (hi * 256 + lo), "ProcessMetaData", meta("", lo), at("READ_LENGTH_LO"),
           ("MetadataState", "length_hi", vs.of(hi)))
    lim = 0x40 + 3 * 0x100
    for b in (0x00, 0x3f, 0x80, 0x81, 0x82):
        smc = lambda v: ("MetadataState", "short_marker_count", vs.of(v))
        bad("short record 0x%02x number %d" % (b, lim + 1), "ProcessMetaData", meta("", b), at("READ_MARKER"), smc(lim))
        ok("short record 0x%02x number %d" % (b, lim), "ProcessMetaData", meta("", b), at("READ_MARKER"), smc(lim - 1))
    for mk, cont in ((0xFE, "com_data"), (0xE0, "app_data"), (0xEF, "app_data")):
        for short in (0, 7):
            n = 1024 + (short if mk != 0xFE else 0)
            e = (at("READ_LENGTH_LO"), ("MetadataState", "length_hi", vs.of(1)),
                 ("MetadataState", "marker", vs.of(mk) if mk < 128 else vs.of(mk, mk - 256)),
                 ("MetadataState", "short_marker_count", vs.of(short)))
            bad("long record 0x%02x number %d after %d short ones" % (mk, n + 1, short), "ProcessMetaData",
                meta("", 9).size(None, vs.of(n)), *e)
            ok("long record 0x%02x number %d after %d short ones" % (mk, n, short), "ProcessMetaData",
               meta("", 9).size(None, vs.of(n - 1)), *e)

    # --- Huffman tables
    js = m.enum("JpegInternalsState::Stage")
    J = lambda f, v: ("JpegInternalsState", f, v)
    jat = lambda st: J("stage", vs.of(js[st]))
    cont = vs.of(0, 7)
    def count_env(i, maxlen, maxc, total, space):
        return (jat("READ_HUFFMAN_COUNT"), J("i", vs.of(i)), J("max_len", vs.of(maxlen)), J("max_count", vs.of(maxc)),
                J("total_count", vs.of(total)), J("space", vs.of(space)))
    can = lambda: P().call("BrunsliBitReaderCanRead", vs.of(1, -1)).size("huffman_code", vs.rng(1, 511))
    for i, maxc, total, space, limit in ((1, 12, 0, 32768, 1), (2, 12, 0, 40000, 2), (8, 256, 255, 60000, 1),
                                         (16, 256, 100, 50, 50), (16, 12, 3, 65535, 9), (4, 256, 250, 1 << 15, 6)):
        # one step: reading continues (stage unchanged), so stop at the next request for bits
        for c, want in ((limit + 1, "fail"), (limit, "ok"), (0, "ok")):
            if want == "ok" and c > limit:
                continue
            s = dict(key="Huffman code length %d: %d of at most %d" % (i, c, limit))
            p = can().call("BrunsliBitReaderRead", vs.of(c))
            (bad if want == "fail" else ok)(s["key"], "DecodeHuffmanCode", p, *count_env(i, i, maxc, total, space), good=cont)
    upd = lambda n, last: P().size("huffman_code", vs.of(n)).field("JpegInternalsState", "is_known_last_huffman_code", vs.of(last))
    for n in (512, 513, 600):
        bad("Huffman table number %d" % (n + 1), "DecodeHuffmanCode", upd(n, 0), jat("HUFFMAN_UPDATE"), good=cont)
    ok("Huffman table number 512", "DecodeHuffmanCode", upd(511, 0), jat("HUFFMAN_UPDATE"), good=cont)
    ok("last Huffman table number 512", "DecodeHuffmanCode", upd(512, 1), jat("HUFFMAN_UPDATE"), good=cont)
    bad("Huffman symbol that does not exist", "DecodeHuffmanCode", P().call("Remove", vs.of(0)),
        jat("READ_HUFFMAN_PERMUTATION"), J("i", vs.of(0)), J("total_count", vs.of(4)), good=vs.of(0))

    # --- scan positions
    for st in ("READ_SCAN_RESET_POINT_DATA", "READ_SCAN_ZERO_RUN_DATA"):
        inc = 1 if "RESET" in st else 0
        for last_, val in ((1 << 30, 1), ((1 << 30) - 1, 2), (1 << 30, (1 << 28) - 1), ((1 << 30) - (1 << 27), 1 << 28)):
            bad("%s: position %d" % (st, last_ + val + inc), "DecodeScanInfo",
                P().call("DecodeVarint", vs.of(1)).field("VarintState", "value", vs.of(val)),
                jat(st), J("last_block_idx", vs.of(last_)), good=cont)
        for last_, val in ((0, 0), ((1 << 30) - 5, 4), (5, 1 << 27)):
            ok("%s: position %d" % (st, last_ + val + inc), "DecodeScanInfo",
               P().call("DecodeVarint", vs.of(1)).field("VarintState", "value", vs.of(val)),
               jat(st), J("last_block_idx", vs.of(last_)), good=cont)
    ok("first reset position", "DecodeScanInfo",
       P().call("DecodeVarint", vs.of(1)).field("VarintState", "value", vs.of(0)),
       jat("READ_SCAN_RESET_POINT_DATA"), J("last_block_idx", vs.of(-1)), good=cont)

    # --- JPEG internals
    fi = "DecodeJPEGInternalsSection"
    q = lambda v: P().store_of("JPEGQuantTable", "precision", vs.of(v)).size("quant", vs.of(1))
    for v in (2, 3, 15):
        bad("table precision %d" % v, fi, q(v), jat("READ_QUANT"), J("i", vs.of(0)), good=cont)
    for v in (0, 1):
        ok("table precision %d" % v, fi, q(v), jat("READ_QUANT"), J("i", vs.of(0)), good=vs.of(0))
    for ids, need in ((0, 3), (1, 1), (2, 3), (3, 0)):
        for n in range(1, 5):
            p = P().size("components", vs.of(n)).call("BrunsliBitReaderRead", vs.of(ids))
            k = "component id scheme %d with %d components" % (ids, n)
            if n < need:
                bad(k, fi, p, jat("READ_COMP_ID_SCHEME"), good=cont)
            else:
                ok(k, fi, p, jat("READ_COMP_ID_SCHEME"), good=cont)
    for l, n in ((100, 101), (100, 1 << 31), (7, (1 << 32) - 1), (0, 1)):
        bad("%d padding bits where %d are possible" % (n, l), fi,
            P().call("PaddingBitsLimit", vs.of(l)).call("DecodeLimitedVarint", vs.of(1)).field("VarintState", "value", vs.of(n)),
            jat("READ_NUM_PADDING_BITS"), good=cont)
    for l, n in ((100, 100), (7, 0)):
        ok("%d padding bits where %d are possible" % (n, l), fi,
           P().call("PaddingBitsLimit", vs.of(l)).call("DecodeLimitedVarint", vs.of(1)).field("VarintState", "value", vs.of(n)),
           jat("READ_NUM_PADDING_BITS"), good=cont)
    for rem, n in ((3, 4), (0, 1), (100, 1 << 40)):
        bad("%d bytes between markers with %d left" % (n, rem), fi,
            P().field("JpegInternalsState", "intermarker_length", vs.of(n)).rel(END, POS, vs.of(rem)).call("DecodeBase128", vs.of(0)),
            jat("READ_INTERMARKER_LENGTH"), good=cont)
    ok("4 bytes between markers with 4 left", fi,
       P().field("JpegInternalsState", "intermarker_length", vs.of(4)).rel(END, POS, vs.of(4)).call("DecodeBase128", vs.of(0)),
       jat("READ_INTERMARKER_LENGTH"), good=cont)

    # --- quantization data
    fq = "DecodeQuantDataSection"
    qs = m.enum("QuantDataState::Stage")
    Q = lambda f, v: ("QuantDataState", f, v)
    qat = lambda st: Q("stage", vs.of(qs[st]))
    for have in range(1, 5):
        for said in range(1, 5):
            p = P().size("quant", vs.of(have)).call("BrunsliBitReaderRead", vs.of(said - 1)).call("BrunsliBitReaderCanRead", vs.of(1))
            k = "%d quantization tables where %d were announced" % (said, have)
            if have != said:
                bad(k, fq, p, qat("READ_NUM_QUANT"), good=cont)
            else:
                ok(k, fq, P().size("quant", vs.of(have)).call("BrunsliBitReaderRead", vs.of(said - 1)), qat("READ_NUM_QUANT"), good=cont)
    ad = lambda pred: P().field("QuantDataState", "predictor", vs.of(pred))
    for pred, delta in ((1, -1), (1, -2), (255, -255), (255, -65000), (255, 65281), (1, 65535), (255, 1 << 20)):
        bad("quantization value %d" % (pred + delta), fq, ad(pred), qat("APPLY_DIFF"), Q("j", vs.of(3)), Q("delta", vs.of(delta)), good=cont)
    for pred, delta in ((1, 0), (255, -254), (255, 65280), (10, 255), (10, 245)):
        ok("quantization value %d" % (pred + delta), fq, ad(pred), qat("APPLY_DIFF"), Q("j", vs.of(3)), Q("delta", vs.of(delta)), good=cont)
    up = lambda a, b: ((P().field("JPEGQuantTable", "precision", vs.of(a))), Q("data_precision", vs.of(b)))
    for a, b in ((0, 0), (1, 0), (1, 1)):
        p, e = up(a, b)
        ok("precision %d for values of precision %d" % (a, b), fq, p, qat("UPDATE"), e, good=cont)
    p, e = up(0, 1)
    bad("precision 0 for values of precision 1", fq, p, qat("UPDATE"), e, good=cont)
    for n in range(1, 5):
        for i in range(4):
            p = P().size("quant", vs.of(n)).size("components", vs.of(1)).store_of("JPEGComponent", "quant_idx", vs.of(i)) \
                .call("BrunsliBitReaderCanRead", vs.of(1))
            k = "quantization table %d of %d" % (i, n)
            if i >= n:
                bad(k, fq, p, qat("READ_QUANT_IDX"), Q("i", vs.of(0)), good=cont)
            else:
                ok(k, fq, p, qat("READ_QUANT_IDX"), Q("i", vs.of(0)), good=vs.of(0))

    # --- histogram data
    fh = "DecodeHistogramDataSection"
    hs = m.enum("HistogramDataState::Stage")
    for nc in range(1, 5):
        p = lambda v: P().size("components", vs.of(nc)).call("BrunsliBitReaderRead", vs.of(v)).call("BrunsliBitReaderCanRead", vs.of(1))
        bad("context scheme 7 with %d components" % nc, fh, p(7), ("HistogramDataState", "stage", vs.of(hs["READ_SCHEME"])), good=cont)
    for v in range(7):
        ok("context scheme %d" % v, fh, P().size("components", vs.of(1)).store_of("ComponentMeta", "context_bits", vs.of(v)),
           ("HistogramDataState", "stage", vs.of(hs["READ_SCHEME"])), good=cont)
    bad("invalid context map code", fh, P().call("ReadFromBitStream", vs.of(0)),
        ("HistogramDataState", "stage", vs.of(hs["READ_CONTEXT_MAP_CODE"])), good=vs.of(0))

    # --- coefficient order
    fo = "DecodeCoeffOrder"
    lehmer = lambda v: P().local("[64 x i32]", vs.of(v)).call("DecodeLehmerCode", vs.of(1))
    bad("coefficient position beyond the block", fo, P().call("ReadBits", vs.of(7)).call("DecodeLehmerCode", vs.of(1)))
    bad("coefficient order that is no permutation", fo, P().call("DecodeLehmerCode", vs.of(0)))
    bad("coefficient order with a superfluous tail", fo, lehmer(1))
    ok("natural coefficient order", fo, P().call("ReadBits", vs.of(0)).call("DecodeLehmerCode", vs.of(1)))
    ok("coefficient order of positions one after the other", fo, lehmer(2))

    # --- symbol distributions
    fr = "ReadHistogram"
    dist = lambda rd: P().call("BrunsliBitReaderIsHealthy", vs.of(1)).call("BrunsliBitReaderRead", vs.of(rd)).arg(0, vs.of(10)).size(None, vs.of(18))
    bad("distribution over one symbol twice", fr, dist(1).local("[2 x i32]", vs.of(5)))
    ok("distribution over two symbols", fr, P().call("BrunsliBitReaderIsHealthy", vs.of(1)).arg(0, vs.of(10)).size(None, vs.of(18)))
    for code in range(2, 12):
        low = 2 << (code - 1)       # two counted symbols of at least 2^(code-1)
        p = dist(0).call("ReadShortHuffmanCode", vs.of(3)).local("[18 x i32]", vs.of(code))
        if low >= 1024:
            bad("distribution with counts of at least %d of 1024" % low, fr, p)
        else:
            ok("distribution with counts of at least %d of 1024" % low, fr, p)

    # --- prefix codes of the context map
    fp = "ReadFromBitStream"
    for n in (32769, 40000):
        bad("alphabet of %d symbols" % n, fp, P().arg(1, vs.of(n)))
    ok("alphabet of 272 symbols", fp, P().arg(1, vs.of(272)))
    bad("no code length code", fp, P().call("BrunsliBitReaderRead", vs.of(0)).call("ReadHuffmanCodeLengths", vs.of(0)))
    bad("code lengths read past the end", fp, P().call("BrunsliBitReaderRead", vs.of(0)).call("BrunsliBitReaderIsHealthy", vs.of(0)))
    bad("code lengths give no table", fp, P().call("BrunsliBitReaderRead", vs.of(0)).call("BuildHuffmanTable", vs.of(0)))
    fs = "ReadSimpleCode"
    for n, v in ((2, 2), (3, 3), (256, 256), (256, 511)):
        bad("symbol %d of %d" % (v, n), fs, P().arg(0, vs.of(n)).call("BrunsliBitReaderRead", vs.of(v)))
    for v in range(1, 4):
        bad("simple code with %d equal symbols" % (v + 1), fs, P().arg(0, vs.of(256)).call("BrunsliBitReaderRead", vs.of(v)).local("[4 x i16]", vs.of(v)))
    ok("simple code of one symbol", fs, P().arg(0, vs.of(256)).call("BrunsliBitReaderRead", vs.of(0)).call("BrunsliBitReaderIsHealthy", vs.of(1)))
    bad("simple code read past the end", fs, P().call("BrunsliBitReaderIsHealthy", vs.of(0)))
    fl = "ReadHuffmanCodeLengths"
    bad("code length code gives no table", fl, P().call("BuildHuffmanTable", vs.of(0)))
    bad("code lengths read past the end of input", fl, P().call("BrunsliBitReaderIsHealthy", vs.of(0)))
