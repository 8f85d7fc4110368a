"""C02: a decode that reports success passed every integrity condition.

Each condition of the format is negated as a premise; under that premise the
step that must notice it can not return success on any path (value-set
dataflow, bsa/scen.py).  The positive premise must leave success reachable, so
that the rule is not met by rejecting everything.
"""
from bsa import vs
from checks.lib import *

T = {"sig": 1, "hdr": 2, "meta": 3, "int": 4, "quant": 5, "histo": 6, "dc": 7, "ac": 8, "jpg": 9}


def run(rep):
    rep.rule("R1", "a step whose integrity condition is violated never succeeds", 60)
    rep.rule("R2", "a step whose integrity conditions all hold can succeed", 20)
    um = unit("dec")
    m, mods = um

    def bad(key, fn, pr, *ent, **kw):
        scenario(rep, "R1", key, um, fn, pr, "fail", ent, **kw)

    def ok(key, fn, pr, *ent, **kw):
        scenario(rep, "R2", key, um, fn, pr, "ok", ent, **kw)

    P = Premise
    # --- signature
    bad("signature bytes differ", "VerifySignature", P().call("memcmp", vs.of(-1, 1)))
    bad("input shorter than signature", "VerifySignature", P().rel(LEN, POS, vs.rng(0, 5)))
    ok("signature matches", "VerifySignature", P().call("memcmp", vs.of(0)).rel(LEN, POS, vs.of(6)))

    # --- tags and lengths
    def tag(t, w, met=0):
        return P().field("State", "*data", vs.of(*[(t << 3 | w) - (256 if t > 15 else 0), t << 3 | w])) \
            .rel(LEN, POS, vs.rng(1, 1 << 20)).bit("SectionState", "tags_met", zeros=~met & 0xffff, ones=met)
    bad("no input left for a tag", "ReadTag", P().rel(LEN, POS, vs.of(0)))
    for t in range(0, 32):
        for w in range(8):
            if 1 <= t <= 15 and w in (0, 2):
                ok("tag %d type %d" % (t, w), "ReadTag", tag(t, w))
            elif t in (0, 16, 31) or w not in (0, 2):
                bad("tag %d with undefined tag or type %d" % (t, w), "ReadTag", tag(t, w))
        if 1 <= t <= 15:
            bad("tag %d repeated" % t, "ReadTag", tag(t, 2, 1 << t))
    bad("length with nine continuation bytes", "DecodeBase128",
        P().field("State", "*data", vs.rng(-128, -1)))
    bad("length is truncated", "DecodeBase128", P().rel(LEN, POS, vs.of(0)))
    ok("length of one byte", "DecodeBase128", P().field("State", "*data", vs.rng(0, 127)).rel(LEN, POS, vs.of(1)))

    # --- header
    hst = m.enum("HeaderState::Stage")
    live = ("HeaderState", "stage", vs.rng(0, hst["FINALE"]))

    def H(v3=8, w=64, h=64, sub=0):
        p = P().bit("SectionState", "tags_met", ones=0x1e)
        p.field("HeaderState", "varint_values", vs.of(w), 1)
        p.field("HeaderState", "varint_values", vs.of(h), 2)
        p.field("HeaderState", "varint_values", vs.of(v3), 3)
        p.field("HeaderState", "varint_values", vs.of(sub), 4)
        p.size("components", vs.of((v3 & 3) + 1))
        p.call("ReadTag", vs.of(0)).call("EnterSection", vs.of(0)).call("DecodeBase128", vs.of(0))
        p.call("UpdateSubsamplingDerivatives", vs.of(1))
        return p
    fin = ("HeaderState", "stage", vs.of(hst["FINALE"]))
    ok("well-formed header", "DecodeHeader", H(), fin)
    for n, bits in (("width", 2), ("height", 4), ("version", 8), ("subsampling", 16)):
        p = P().bit("SectionState", "tags_met", zeros=bits)
        p.field("HeaderState", "varint_values", vs.of(8), 3)
        p.size("components", vs.of(1))
        bad("header without " + n, "DecodeHeader", p, live)
    for v in (3, 5, 7, 9, 8, 10, 16, 1 << 20, (1 << 32) + 2, (1 << 32) | 1, 1 << 61):
        if v == 1:
            continue
        bad("header version %d" % v, "DecodeHeader", H(v3=v << 2), live)
    for v in (0, 2):
        ok("header version %d" % v, "DecodeHeader", H(v3=v << 2), fin)
    bad("section tag is not the header tag", "DecodeHeader",
        P().field("SectionState", "tag", vs.of(1, 3, 4, 5, 6, 7, 8, 9, 10, 15)),
        ("HeaderState", "stage", vs.of(hst["READ_TAG"])))
    bad("header tag with a plain value", "DecodeHeader", P().field("SectionState", "is_section", vs.of(0)),
        ("HeaderState", "stage", vs.of(hst["READ_TAG"])))
    for t in (1, 2, 3, 4):
        p = P().field("SectionState", "tag", vs.of(t)).field("SectionState", "is_section", vs.of(1, -1))
        p.rel(END, POS, vs.of(3))
        bad("header value %d stored as a section" % t, "DecodeHeader", p,
            ("HeaderState", "stage", vs.of(hst["ITEM_READ_TAG"])))

    for t in (T["sig"], T["hdr"], T["meta"], T["int"], T["quant"], T["histo"], T["dc"], T["ac"], T["jpg"]):
        p = P().call("ReadTag", vs.of(0)).field("SectionState", "tag", vs.of(t)).field("SectionState", "is_section", vs.of(0))
        p.field("SectionHeaderState", "stage", vs.of(0))
        bad("known section %d stored as a plain value" % t, "ParseSection", p)
    bad("stream ends before the AC section", "ParseSection",
        P().call("ReadTag", vs.of(7)).bit("SectionState", "tags_met", zeros=1 << T["ac"]).bit("State", "tags_met", zeros=1 << T["ac"]),
        ("SectionHeaderState", "stage", vs.of(0)))
    fs = m.enum("FallbackState::Stage")
    bad("fallback payload under another tag", "DecodeOriginalJpg",
        P().field("SectionState", "tag", vs.rng(1, 8)), ("FallbackState", "stage", vs.of(fs["READ_TAG"])))
    bad("fallback payload stored as a plain value", "DecodeOriginalJpg",
        P().field("SectionState", "is_section", vs.of(0)), ("FallbackState", "stage", vs.of(fs["READ_TAG"])))
    bad("fallback payload incomplete", "DecodeOriginalJpg",
        P().rel(LEN, POS, vs.of(0)), ("FallbackState", "stage", vs.of(fs["READ_CONTENTS"])))

    # --- metadata
    ms = m.enum("MetadataDecompressionStage")
    dec = ("MetadataState", "decompression_stage", vs.of(ms["READ_LENGTH"], ms["DECOMPRESSING"]))

    def M(res=1, proc=1, fin_=1):
        return P().call("BrotliDecoderDecompressStream", vs.of(res)).call("ProcessMetaData", vs.of(proc)) \
            .call("CanFinish", vs.of(fin_)).call("DecodeBase128", vs.of(0))
    ds, mz = F("MetadataState", "decompressed_size"), F("MetadataState", "metadata_size")
    big = vs.rng(1, 1 << 40)
    neg = vs.rng(-(1 << 40), -1)
    ok("metadata that matches its declared size", "DecodeMetaDataSection", M().rel(ds, mz, vs.of(0)).rel(END, POS, vs.of(0)),
       ("MetadataState", "decompression_stage", vs.of(ms["DECOMPRESSING"])))
    bad("metadata longer than declared", "DecodeMetaDataSection", M().rel(ds, mz, big), dec)
    bad("metadata shorter than declared", "DecodeMetaDataSection", M().rel(ds, mz, neg), dec)
    bad("unused bytes after compressed metadata", "DecodeMetaDataSection", M().rel(END, POS, big), dec)
    bad("compressed metadata crosses the section end", "DecodeMetaDataSection", M().rel(END, POS, neg),
        ("MetadataState", "decompression_stage", vs.of(ms["READ_LENGTH"])))
    bad("metadata compression error", "DecodeMetaDataSection", M(res=0), dec)
    bad("compressed metadata is truncated", "DecodeMetaDataSection", M(res=2), dec)
    bad("metadata ends inside a record", "DecodeMetaDataSection", M(fin_=0), dec)
    bad("single metadata byte does not complete a record", "DecodeMetaDataSection",
        M(fin_=0).rel(END, POS, vs.of(1)), ("MetadataState", "decompression_stage", vs.of(ms["INITIAL"])))
    mst = m.enum("MetadataState::Stage")
    for n, v in mst.items():
        p = P().field("MetadataState", "stage", vs.of(v))
        if n in ("READ_MARKER", "READ_TAIL"):
            ok("metadata may end in state " + n, "MetadataState::CanFinish", p)
        else:
            bad("metadata may not end in state " + n, "MetadataState::CanFinish", p)

    # --- section contents end where the section ends
    js = m.enum("JpegInternalsState::Stage")
    before = vs.of(*[v for n, v in js.items() if v < js["ITERATE_MARKERS"] and not n.endswith("MASK")])
    jst = ("JpegInternalsState", "stage", before)
    off = vs.norm([(-(1 << 40), -1), (1, 1 << 40)])
    bad("JPEG internals do not fill their section", "DecodeJPEGInternalsSection", P().rel(END, POS, off))
    bad("quantization data does not fill its section", "DecodeQuantDataSection", P().rel(END, POS, off))
    hds = m.enum("HistogramDataState::Stage")
    bad("histogram data does not fill its section", "DecodeHistogramDataSection",
        P().rel(END, POS, off).field("InternalState", "shallow_histograms", vs.of(0)), ("HistogramDataState", "stage", vs.rng(0, hds["READ_HISTOGRAMS"])))
    for fn in ("DecodeDCDataSection", "DecodeACDataSection"):
        st = {"DecodeDCDataSection": "DecodeDC", "DecodeACDataSection": "DecodeAC"}[fn]
        bad("%s: read past the end" % fn, fn, P().field("WordSource", "error_", vs.of(1, -1)))
        ok("%s: consumed exactly" % fn, fn,
           P().field("WordSource", "error_", vs.of(0)).rel(END, POS, vs.of(0)).call(st, vs.of(0)))
    for n in ("meta", "int", "quant", "histo", "dc", "ac"):
        p = P().field("SectionState", "tag", vs.of(T[n])).rel(END, POS, vs.norm([(-(1 << 40), -2), (2, 1 << 40)]))
        p.field("State", "skip_tags", vs.of(0))
        bad("%s section not consumed exactly" % n, "ProcessSection", p)
        p = P().field("SectionState", "tag", vs.of(T[n])).rel(END, POS, vs.of(0)).field("State", "skip_tags", vs.of(0))
        ok("%s section consumed exactly" % n, "ProcessSection", p)
    for n in ("dc", "ac"):
        bad("%s section of odd length" % n, "ProcessSection",
            P().field("SectionState", "tag", vs.of(T[n])).rel(END, POS, vs.of(1)).field("State", "skip_tags", vs.of(0)))
    bad("skipped section is incomplete", "ProcessSection",
        P().field("SectionState", "tag", vs.rng(10, 15)).rel(END, POS, vs.of(100)).rel(LEN, POS, vs.of(99)))
    bad("bytes after the end of the stream", "DoProcessJpeg", P().rel(LEN, POS, big).field("InternalState", "result", vs.rng(1, 7)))
    ok("stream ends at the end of input", "DoProcessJpeg", P().rel(LEN, POS, vs.of(0)))

    # --- entropy coders end in their final state, unused bits are zero
    healthy = lambda v: P().call("BrunsliBitReaderIsHealthy", vs.of(v))
    bad("unused bits set at the end of JPEG internals", "DecodeJPEGInternalsSection", healthy(0), jst)
    bad("unused bits set at the end of quantization data", "DecodeQuantDataSection", healthy(0))
    bad("unused bits set at the end of histogram data", "DecodeHistogramDataSection", healthy(0),
        ("HistogramDataState", "stage", vs.rng(0, hds["READ_HISTOGRAMS"])))
    bad("histogram code read past the end", "ReadHistogram", healthy(0))
    bad("context map read past the end", "DecodeContextMap", healthy(0))
    for st in ("DecodeDC", "DecodeAC"):
        bad("%s: entropy coders not in final state" % st, st, P().call("FinalizeSubdecoders", vs.of(0)))
    bad("ANS final state differs", "FinalizeSubdecoders", P().call("CheckCRC", vs.of(0)))
    bad("raw bits padding not zero", "FinalizeSubdecoders", P().call("Finish", vs.of(0)))
    ok("entropy coders in final state", "FinalizeSubdecoders",
       P().call("CheckCRC", vs.of(1)).call("Finish", vs.of(1)))
    sig = 0x13 << 16
    bad("ANS state is not the final state", "ANSDecoder::CheckCRC",
        P().field("ANSDecoder", "state_", vs.norm([(0, sig - 1), (sig + 1, (1 << 32) - 1)])))
    ok("ANS state is the final state", "ANSDecoder::CheckCRC", P().field("ANSDecoder", "state_", vs.of(sig)))
    for p_ in range(0, 17):
        if p_ < 16:
            bad("raw bits: padding set after %d bits" % p_, "BitSource::Finish",
                P().field("BitSource", "bit_pos_", vs.of(p_)).field("BitSource", "val_", vs.of(1 << p_, 1 << 15)))
        ok("raw bits: padding clear after %d bits" % p_, "BitSource::Finish",
           P().field("BitSource", "bit_pos_", vs.of(p_)).field("BitSource", "val_", vs.of((1 << p_) - 1)))
    bad("ANS frequencies do not add up", "ANSDecodingData::Init", P().size(None, vs.of(0)))
    bad("metadata compression error is final", "DecodeMetaDataSection", M(proc=0), dec)

    # --- agreement between parts of the JPEG internals
    dh, th = F("JpegInternalsState", "dht_count"), F("JpegInternalsState", "terminal_huffman_code_count")
    early = vs.of(*[v for n, v in js.items() if v <= js["PREPARE_READ_SCANS"] and not n.endswith("MASK")])
    bad("number of Huffman tables differs from number of table markers", "DecodeJPEGInternalsSection",
        P().rel(dh, th, off), ("JpegInternalsState", "stage", early))
    bad("bytes between markers exceed the section", "DecodeJPEGInternalsSection",
        P().rel(F("JpegInternalsState", "intermarker_length"), POS, off)
        .rel(END, POS, vs.of(3)).field("JpegInternalsState", "intermarker_length", vs.of(4)),
        ("JpegInternalsState", "stage", vs.of(js["READ_INTERMARKER_LENGTH"])))
    qs = m.enum("QuantDataState::Stage")
    bad("table precision too small for its values", "DecodeQuantDataSection",
        P().field("JPEGQuantTable", "precision", vs.of(0)).field("QuantDataState", "data_precision", vs.of(1)),
        ("QuantDataState", "stage", vs.of(qs["UPDATE"])))
