"""C03: an error reported by any step reaches the caller of the API.

For every call of a status-returning step, all paths that continue from "the
step failed" end in a failure of the enclosing step (finite-value path
exploration on IR in which everything but the steps themselves is inlined, so
helpers, lambdas and the stage machine in between are seen through).
"""
import re
from bsa import ir, absx
from bsa.build import AnalysisBroken

# step name -> kind of result.  bool: false = failure.  status: anything but OK.
# ser: ERROR of the serializer.  zero: 0 = failure
STEPS = {
    # decoder
    "DecodeVarint": "bool", "DecodeLimitedVarint": "bool", "DecodeLehmerCode": "bool",
    "ANSDecodingData::Init": "bool", "ProcessMetaData": "bool",
    "FinalizeSubdecoders": "bool", "ANSDecoder::CheckCRC": "bool",
    "BitSource::Finish": "bool", "DecodeCoeffOrder": "bool",
    "UpdateSubsamplingDerivatives": "bool", "PermutationCoder::Remove": "bool",
    "ReadHistogram": "bool", "ReadHuffmanCodeLengths": "bool",
    "HuffmanDecodingData::ReadFromBitStream": "bool",
    "DecodeHuffmanCode": "status", "DecodeScanInfo": "status", "DecodeDC": "status",
    "DecodeAC": "status", "DecodeBase128": "status", "ReadTag": "status",
    "EnterSection": "status", "DecodeMetaDataSection": "status",
    "DecodeJPEGInternalsSection": "status", "DecodeQuantDataSection": "status",
    "DecodeHistogramDataSection": "status", "DecodeDCDataSection": "status",
    "DecodeACDataSection": "status", "DecodeContextMap": "status",
    "DoProcessJpeg": "status", "ProcessJpeg": "status", "BrunsliDecodeJpeg": "status",
    "IsBitReaderHealthy": "bool", "MetadataState::CanFinish": "bool",
    "BuildHuffmanTable": "zero",
    # writer
    "WriteJpeg": "bool", "EncodeSOI": "bool", "EncodeSOF": "bool", "EncodeDHT": "bool",
    "EncodeRestart": "bool", "EncodeEOI": "bool", "EncodeDQT": "bool", "EncodeDRI": "bool",
    "EncodeAPP": "bool", "EncodeCOM": "bool", "EncodeInterMarkerData": "bool",
    "EncodeSOS": "bool", "JumpToByteBoundary": "bool", "EncodeRefinementBits": "bool",
    "EncodeDCTBlockProgressive": "bool", "EncodeDCTBlockSequential": "bool",
    "BuildHuffmanCodeTable": "bool",
    "SerializeSection": "ser", "DoEncodeScan": "ser", "SerializeJpeg": "ser",
    "EncodeScan": "ser",
    # encoder
    "EncodeQuantTables": "bool", "EncodeHuffmanCode": "bool",
    "PermutationCoder::RemoveValue": "bool", "EncodeScanInfo": "bool",
    "EncodeAuxData": "bool", "EncodeSignature": "bool", "EncodeHeader": "bool",
    "EncodeMetaData": "bool", "EncodeJPEGInternals": "bool", "EncodeQuantData": "bool",
    "EncodeHistogramData": "bool", "EncodeDCData": "bool", "EncodeACData": "bool",
    "EncodeSection": "bool", "PredictDCCoeffs": "bool", "CalculateMeta": "bool",
    "BrunsliSerialize": "bool", "BrunsliEncodeJpeg": "bool", "EncodeOriginalJpg": "bool",
    "BrunsliEncodeJpegBypass": "bool", "TransformApp0Marker": None,
    # JPEG reader
    "ReadJpeg": "bool", "ProcessSOF": "bool", "ProcessDHT": "bool", "ProcessScan": "bool",
    "ProcessDQT": "bool", "ProcessDRI": "bool", "ProcessAPP": "bool", "ProcessCOM": "bool",
    "FixupIndexes": "bool", "ProcessSOS": "bool", "ProcessRestart": "bool",
    "DecodeDCTBlock": "bool", "RefineDCTBlock": "bool",
    "BitReaderState::FinishStream": "bool", "BitReaderState::IsUnhealthy": "istrue",
    # groups
    "DecodeGroups": "bool", "EncodeGroups": "bool", "SkipSection": "bool",
    # tools
    "ReadFile": "bool", "ReadFileInternal": "bool", "WriteFile": "bool",
    "WriteFileInternal": "bool", "ProcessFile": "bool",
    # external
    "BrotliEncoderCompress": "zero", "BrotliDecoderDecompress": "zero",
}
STEPS = {k: v for k, v in STEPS.items() if v}
STEPS["callback"] = "bool"
FAIL = {
    "bool": frozenset([0]), "status": frozenset(range(1, 8)), "ser": frozenset([2]),
    "zero": frozenset([0]), "istrue": frozenset([1]),
}


def step_kind(f):
    parts = f.qual.split("::")
    for n in (2, 1):
        k = "::".join(parts[-n:])
        if k in STEPS and (f.repo or f.decl):
            kind = STEPS[k]
            r = (f.ditypes or ["?"])[0]
            if kind == "bool" and r != "bool" and not f.decl:
                return None
            return k
    return None


def may_fail(f):
    """Can the step return a failure at all (constants through phis)?"""
    if f.decl:
        return True
    for b in f.blocks:
        t = b.term
        if t.op != "ret" or not t.ops:
            continue
        seen = set()
        st = [t.ops[0]]
        while st:
            o = st.pop()
            if o[0] == "c":
                if o[1] in (0,):
                    return True
                continue
            v = f.val(o)
            if v is None or v.op not in ("phi", "select", "zext", "freeze"):
                return True
            if v.id in seen:
                continue
            seen.add(v.id)
            st.extend(v.ops if v.op != "select" else v.ops[1:])
    return False


KEEP = None


def keep():
    names = set(k.split("::")[-1] for k in STEPS)
    return tuple(sorted(r"^(?!.*(\$_|'lambda)).*(^|[ :])%s(<[^(]*>)?\(" % n for n in names))


def sv_bool(f):
    return (f.ditypes or ["?"])[0] == "bool"


def success_values(f):
    r = (f.ditypes or ["?"])[0]
    if r == "bool":
        return frozenset([1, -1])
    if r.endswith("BrunsliStatus"):
        return frozenset([0])
    if r.endswith("SerializationStatus") or r.endswith("BrunsliDecoder::Status"):
        return frozenset([0, 1, 3])
    if r.endswith("internal::dec::Stage"):
        return frozenset([0, 1, 2, 3, 4, 5])
    if r == "int":
        return "int"
    return None


# Absorbed failures, confirmed by reading:
#  * end of input when a section tag is expected ends the stream once the AC
#    section has been met (ReadTag, NOT_ENOUGH_DATA, guarded by the AC tag bit);
#  * "not enough data" from the stage machine is retried with more input;
#  * the common part of a groups stream ends before DC, so "not enough data" is
#    the expected outcome there (and the only one accepted);
#  * bypass mode stores input that is not a valid JPEG.
NED = 7


def run(rep):
    rep.rule("R1", "a failing step makes its caller fail on every path", 110)
    rep.rule("R2", "a parallel task that fails raises the shared failure flag", 3)
    rep.rule("R3", "a raised failure flag makes the group codec fail", 3)
    rep.rule("R4", "once failed, a decoder instance stays failed", 2)
    for u in ["groups", "cbrunsli", "dbrunsli"]:
        m = ir.load(u, keep=keep())
        analyse(rep, m, u)
        if u == "groups":
            sticky(rep, m)


def cells(f, ex, field):
    ks = set()
    for x in f.insts():
        if x.op in ("load", "store"):
            kk = ex.paths.cell(x.ops[0], x.ty) if x.op == "load" else ex.paths.cell(x.ops[1], x.d.get("vty", ""))
            if kk[0] == "f" and (kk[2].split("::")[-1], kk[3]) == field:
                ks.add(kk)
    if not ks:
        raise AnalysisBroken("no access to %s in %s" % (field, f.qual))
    return ks


def sticky(rep, m):
    mods = absx.ModSets(m)
    err = m.enum("internal::dec::Stage")["ERROR"]
    f = m.one("internal::dec::ProcessJpeg")
    ex = absx.Explorer(f, mods)
    mem = {}
    for k in cells(f, ex, ("State", "stage")):
        mem[k] = frozenset([err])
    for k in cells(f, ex, ("InternalState", "result")):
        mem[k] = frozenset(range(1, 7))
    badv = lambda v: v is None or 0 in v or 7 in v
    res = ex.explore(None, {}, mem, bad=badv, cap=4000)
    bad = [x for x in res if badv(x[1])]
    rep.ob("R4", "parser re-entered after an error", "c/dec:%s" % f.qual, not bad,
           "a failed parser may report %s via %s" % (bad and bad[0][1], bad and trail_text(f, bad[0][2])))
    f = m.one("internal::dec::SerializeJpeg")
    ex = absx.Explorer(f, mods)
    mem = {}
    se = m.enum("SerializationState::Stage")["ERROR"]
    for k in cells(f, ex, ("SerializationState", "stage")):
        mem[k] = frozenset([se])
    badv = lambda v: v is None or v != frozenset([2])
    res = ex.explore(None, {}, mem, bad=badv, cap=4000)
    bad = [x for x in res if badv(x[1])]
    rep.ob("R4", "serializer re-entered after an error", "c/dec:%s" % f.qual, not bad,
           "a failed serializer may report %s via %s" % (bad and bad[0][1], bad and trail_text(f, bad[0][2])))


def flag_store(i):
    d = i.cdem or ""
    if i.op in ("call", "invoke") and "atomic" in d and ("::store(" in d or "::operator=(" in d or "::exchange(" in d or "fetch_or" in d):
        return len(i.ops) > 1 and i.ops[1] != ["c", 0, 1] and i.ops[1] != ["c", 0, 8]
    if i.op == "store" and i.d.get("atomic"):
        return i.ops[0][0] != "c" or i.ops[0][1] != 0
    return False


def flag_load(i):
    d = i.cdem or ""
    return i.op in ("call", "invoke") and "atomic" in d and "bool" in d and ("::load(" in d or "::operator bool" in d)


def trail_text(f, tr):
    lines = []
    for b in tr:
        for x in f.blocks[b].insts:
            if x.d.get("loc"):
                w = x.where()
                if not w.endswith(":0") and (not lines or lines[-1] != w):
                    lines.append(w)
                break
    return " > ".join(lines[:14])


def analyse(rep, m, u):
    mods = absx.ModSets(m)
    nfn = 0
    for f in m.functions.values():
        if f.decl:
            continue
        sites = []
        for i in f.insts():
            if i.op in ("call", "invoke") and i.callee:
                g = m.functions.get(i.callee)
                k = step_kind(g) if g else None
                if k and may_fail(g):
                    sites.append((i, k, g))
            elif i.op in ("call", "invoke") and i.callee is None and i.ty == "i1" \
                    and f.repo and sv_bool(f):
                sites.append((i, "callback", None))
        if not sites and not any(flag_load(i) for i in f.insts()):
            continue
        nfn += 1
        sv = success_values(f)
        if f.dem == "main":
            sv = frozenset([0])
        if sv == "int":
            sv = frozenset([1])
        r = (f.ditypes or ["?"])[0]
        ex = absx.Explorer(f, mods)
        if r in ("bool",) and "atomic" not in f.qual:
            for i in f.insts():
                if flag_load(i):
                    res = ex.explore(i, {i.id: frozenset([1])}, {}, bad=lambda v: v is None or v & sv, cap=3000)
                    bad = [x for x in res if x[1] is None or x[1] & sv]
                    rep.ob("R3", "%s: failure flag in %s" % (u, f.qual), i.where(), not bad,
                           "flag raised but success returned via " + (trail_text(f, bad[0][2]) if bad else ""))
        for i, k, g in sites:
            kind = STEPS[k]
            key = "%s: %s in %s" % (u, k, site_fn(i, f))
            if r == "void":
                hit = []

                def on(x, e, mm):
                    if flag_store(x):
                        return "stop"
                fs = FAIL[kind]
                res = ex.explore(i, {i.id: fs}, {}, on_inst=on, bad=lambda v: True, cap=3000)
                rep.ob("R2", key, i.where(), not res,
                       "task failure not recorded via " + (trail_text(f, res[0][2]) if res else ""))
                continue
            if r == "unsigned long":
                svx = None
                bad_v = lambda v: v is None or v != frozenset([0])
            elif sv is None:
                rep.ob("R1", key, i.where(), False,
                       "caller cannot report failure (returns %s)" % r)
                continue
            else:
                bad_v = lambda v: v is None or v & sv
            runs = []
            if kind == "status":
                runs.append((frozenset(range(1, 7)), None))
                ned_ok = (sv == frozenset([0, 1, 3]) or
                          (k == "ProcessJpeg" and f.qual.endswith("DecodeGroups")))
                if k == "DoProcessJpeg":
                    runs.append((frozenset([NED]), "retry"))
                elif k == "ReadTag":
                    runs.append((frozenset([NED]), "actag"))
                elif not ned_ok:
                    runs.append((frozenset([NED]), None))
            elif k == "ReadJpeg" and f.qual.endswith("BrunsliEncodeJpegBypass"):
                continue
            else:
                runs.append((FAIL[kind], None))
            bad = None
            for fs, mode in runs:
                def on(x, e, mm):
                    if mode == "retry" and x is not i and x.callee == i.callee:
                        return "stop"
                    if mode == "retry" and x is i:
                        return "stop"
                    if mode == "actag" and x.op == "and" and ["c", 256, 32] in x.ops:
                        return "stop"
                mem = {}
                if k == "DoProcessJpeg":
                    # its only non-OK result is the recorded one (R4)
                    for x in f.insts():
                        if x.op == "load":
                            kk = ex.paths.cell(x.ops[0], x.ty)
                            if absx.field_of(kk) and absx.field_of(kk)[-1] == "result" and kk[0] == "f":
                                mem[kk] = fs
                res = ex.explore(i, {i.id: fs}, mem, on_inst=on, bad=bad_v, cap=4000)
                b = [x for x in res if bad_v(x[1])]
                if b and bad is None:
                    bad = (b[0], fs)
            d = ""
            if bad:
                (t, v, tr), fs = bad
                d = "failure %s of %s may end as %s via %s" % (
                    sorted(fs), k, "return %s" % sorted(v) if v is not None else "an unrelated return value",
                    trail_text(f, tr))
            rep.ob("R1", key, i.where(), bad is None, d)
    rep.count("functions with fallible steps (%s)" % u, nfn)


def site_fn(i, f):
    return f.qual
