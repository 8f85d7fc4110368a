"""D05: the encoder stays inside the output buffer it is given.

R1  when what has to be written does not fit, nothing is written and the step
    reports failure (or marks the output as unhealthy)
R2  when it fits exactly, it is written
R3  an unhealthy output makes the section fail
R4  the room handed on is the room that is left
R5  callers allocate the bound and pass exactly that size; the bound counts
    every kind of content
"""
import re
from bsa import vs, scen
from bsa.scen import call_is
from checks.lib import *
from checks.a05 import argno

KEEP = ("WriteBits", "EncodeVarint", "EncodeHuffmanCode", "EncodeScanInfo", "EncodeQuantTables", "EncodeAuxData",
        "EncodeHeader", "EncodeMetaData", "EncodeSection", "EncodeSignature", "EncodeOriginalJpg", "EncodeValue",
        "EncodeJPEGInternals", "EncodeQuantData", "EncodeHistogramData", "EncodeDCData", "EncodeACData",
        "Base128Size", "EncodeCodeWords", "EncodeBase128", "EncodeBase128Fix", "AppendBytes", "EncodeContextMap",
        "BuildAndStoreEntropyCodes", "FlushBitWriter", "FlushArithmeticCoder", "GetMaximumBrunsliEncodedSize",
        "EstimateAuxDataSize", "GetBrunsliBypassSize", "BrunsliSerialize", "BrunsliEncodeJpeg",
        "BrunsliEncodeJpegBypass", "PutSymbol", "GetANSTable")
MEMW = ("memcpy", "memmove", "memset")


def writes(i, s, want):
    """Does instruction i write through the pointer `want`, itself or by
    handing it to a function?"""
    if i.op == "store":
        return i.ops[1][0] in ("i", "a", "ce") and through(s, i.ops[1], want)
    if i.op in ("call", "invoke"):
        c = i.callee or ""
        if c.startswith("llvm.") and not any(c.startswith("llvm." + x) for x in MEMW):
            return False
        n = 1 if c.startswith("llvm.mem") or c in MEMW else len(i.ops)
        for o in i.ops[:n]:
            if o[0] in ("i", "a", "ce") and through(s, o, want):
                return True
    return False


def through(s, o, want, depth=0):
    """Is pointer operand o derived from the pointer `want`?"""
    if depth > 12:
        return False
    if o[0] == "a":
        return want == ("arg", o[1]) and s.fn.args[o[1]][1] == "ptr"
    if o[0] == "ce":
        return any(through(s, x, want, depth + 1) for x in o[2] if isinstance(x, (list, tuple)) and x)
    if o[0] != "i":
        return False
    v = s.fn.val(o)
    if v is None:
        return False
    if v.op == "getelementptr" or v.op in ("bitcast", "freeze"):
        return through(s, v.ops[0], want, depth + 1)
    if v.op == "phi" or v.op == "select":
        return any(through(s, x, want, depth + 1) for x in (v.ops if v.op == "phi" else v.ops[1:])
                   if x != ["i", v.id] and (x[0] != "i" or x[1] < v.id or depth == 0))
    if v.op == "load" and v.ty == "ptr":
        k = s.paths.cell(v.ops[0], v.ty)
        f = scen.prem_field(k)
        return isinstance(f, tuple) and (scen.last(f[0]), "*" + f[1]) == want
    return False


class Ctx(object):
    def __init__(self, rep, um):
        self.rep, self.um = rep, um
        self.m, self.mods = um

    def where(self, f):
        return f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line", "?"))

    def point(self, key, fn, pr, want, fits, good=True, mem=(), cap=None, overflow=False, noval=None):
        """At one point of the parameter space: is anything written, is
        success possible?"""
        f = self.m.one(fn)
        s = Scen(f, self.mods, pr)
        hit = []

        def oi(i, e, m):
            if writes(i, s, want):
                hit.append(i)
                return "stop" if not fits else None
        rs = success(f) if good and f.d.get("retty", "i1") != "void" and (f.ditypes or ["void"])[0] != "void" else None
        flag = []

        def oi2(i, e, m):
            if overflow and i.op == "store":
                k = scen.prem_field(s.paths.cell(i.ops[1], i.d.get("vty", "")))
                if isinstance(k, tuple) and k[1] == "overflow" and vs.meets(s.val(i.ops[0], e) or vs.of(1), vs.of(1, -1)):
                    flag.append(i)
            return oi(i, e, m)
        res = s.run({}, {}, on_inst=oi2, cap=cap)
        if s.capped:
            raise AnalysisBroken("%s: exploration of %s does not converge" % (key, f.qual))
        if fits:
            self.rep.ob("R2", key + " is written", self.where(f), bool(hit), "nothing is written")
            if rs is not None:
                self.rep.ob("R2", key + " succeeds", self.where(f), any(vs.meets(r[1], rs) for r in res),
                            "returns only %s" % "; ".join(sorted(set(show(r[1]) for r in res))))
            if overflow:
                self.rep.ob("R2", key + " is healthy", self.where(f), not flag,
                            "marked as overflow at %s" % (flag[0].where() if flag else ""))
        else:
            self.rep.ob("R1", key + " is not written", hit[0].where() if hit else self.where(f), not hit,
                        "writes at %s" % (hit[0].where() if hit else ""))
            if rs is not None:
                bad = [r for r in res if vs.meets(r[1], rs)]
                self.rep.ob("R1", key + " fails", self.where(f), not bad,
                            "may return %s via %s" % ((show(bad[0][1]), c03.trail_text(f, bad[0][2])) if bad else ("", "")))
            if overflow:
                self.rep.ob("R1", key + " is marked", self.where(f), bool(flag), "no mark of the overflow")


def run(rep):
    rep.rule("R1", "what does not fit is not written, and that is reported", 60)
    rep.rule("R2", "what fits is written", 40)
    rep.rule("R3", "an overflow of the section buffer makes the section fail", 10)
    rep.rule("R4", "the room handed on is the room that is left", 4)
    rep.rule("R5", "callers allocate what they announce, and the bound counts everything", 15)
    um = unit("enc", KEEP)
    m, mods = um
    c = Ctx(rep, um)
    P = Premise
    st = ("Storage", "*data")

    # ---- bit writer; the last 7 bytes are reserved for whole-word stores
    f = m.one("WriteBits")
    nb = argno(f, "n_bits", 0)
    for L in (1, 7, 8, 9, 16, 1000):
        for pos in sorted(set((0, 1, 8 * L - 64, 8 * L - 57, 8 * L - 56, 8 * L - 8, 8 * L - 1, 8 * L))):
            if pos < 0:
                continue
            for n in (1, 7, 8, 56):
                end = pos + n
                p = P().field("Storage", "pos", vs.of(pos)).field("Storage", "length", vs.of(L)).arg(nb, vs.of(n))
                key = "%d bits at bit %d of %d bytes" % (n, pos, L)
                if end > 8 * L:
                    c.point(key, "WriteBits", p, st, False, good=False, overflow=True)
                elif (pos >> 3) + 8 > L:
                    # (whole-word stores do not fit here)
                    word_stores(c, key, p, st)
                elif (end >> 3) + 8 <= L:
                    c.point(key, "WriteBits", p, st, True, good=False, overflow=True)
    f = m.one("AppendBytes")
    ln = argno(f, "len", 2)
    for L, used, n, fits in ((10, 3, 7, 1), (10, 3, 8, 0), (10, 10, 1, 0), (10, 0, 10, 1), (10, 0, 11, 0),
                             (10, 3, 1 << 40, 0), (1, 0, 1, 1), (10, 9, (1 << 63) - 1, 0)):
        p = P().field("Storage", "pos", vs.of(8 * used)).field("Storage", "length", vs.of(L)).arg(ln, vs.of(n))
        c.point("%d bytes at byte %d of %d" % (n, used, L), "AppendBytes", p, st, bool(fits), good=False, overflow=True)
    # ---- code words: two words of state, one per word with bits
    for words, L, fits in ((0, 3, 0), (0, 4, 1), (0, 1, 0), (5, 13, 0), (5, 14, 1), (5, 4, 0), (8, 19, 0), (8, 20, 1)):
        p = P().field("DataStream", "pos_", vs.of(words)).field("CodeWord", "nbits", vs.of(16))
        p.field("Storage", "length", vs.of(L)).field("Storage", "pos", vs.of(0))
        c.point("%d code words into %d bytes" % (words, L), "EncodeCodeWords", p, st, bool(fits), good=False,
                overflow=True)
    # ---- signature
    f = m.one("EncodeSignature")
    ln, ps, da = argno(f, "len", 0), argno(f, "pos", 2), argno(f, "data", 1)
    for l, q, fits in ((0, 0, 0), (5, 0, 0), (6, 0, 1), (6, 1, 0), (100, 94, 1), (100, 95, 0), (100, 1 << 40, 0)):
        c.point("signature at %d of %d bytes" % (q, l), "EncodeSignature",
                P().arg(ln, vs.of(l)).field("arg", str(ps), vs.of(q)), ("arg", da), bool(fits))
    # ---- header: four tags and four numbers
    f = m.one("EncodeHeader")
    da, ln = argno(f, "data", 2), argno(f, "len", 3)

    def hdr(k, l):
        p = P().call("Base128Size", vs.of(k)).field("arg", str(ln), vs.of(l)).field("JPEGData", "version", vs.of(0))
        return p.field("JPEGData", "width", vs.of(100)).field("JPEGData", "height", vs.of(100)) \
            .size("components", vs.of(3))
    for k in (1, 2, 3, 5):
        c.point("header of %d bytes into %d" % (4 + 4 * k, 3 + 4 * k), "EncodeHeader", hdr(k, 3 + 4 * k),
                ("arg", da), False)
        c.point("header of %d bytes into 1" % (4 + 4 * k), "EncodeHeader", hdr(k, 1), ("arg", da), False)
        c.point("header of %d bytes into %d" % (4 + 4 * k, 4 + 4 * k), "EncodeHeader", hdr(k, 4 + 4 * k),
                ("arg", da), True)
    # ---- metadata: size, then compressed data
    f = m.one("EncodeMetaData")
    da, ln = argno(f, "data", 2), argno(f, "len", 3)

    def meta(k, l):
        # (the vector of records and the concatenation have two elements)
        return P().call("Base128Size", vs.of(k)).field("arg", str(ln), vs.of(l)).size(None, vs.of(2)) \
            .call("EncodeBase128", vs.of(k))
    for k, l in ((1, 0), (2, 1), (3, 2), (5, 1)):
        c.point("metadata size of %d bytes into %d" % (k, l), "EncodeMetaData", meta(k, l), ("arg", da), False,
                cap=200000)
    for k, l in ((1, 1), (3, 3), (1, 100)):
        c.point("metadata size of %d bytes into %d" % (k, l), "EncodeMetaData", meta(k, l), ("arg", da), True,
                cap=200000)
    room(rep, um, "EncodeMetaData", meta(3, 100), da, 100, "the compressed metadata")
    # ---- original file
    f = m.one("EncodeOriginalJpg")
    da, ln = argno(f, "data", 2), argno(f, "len", 3)
    for n, l, fits in ((1, 0, 0), (101, 100, 0), (1 << 40, 1 << 20, 0), (100, 100, 1), (1, 100, 1)):
        c.point("original of %d bytes into %d" % (n, l), "EncodeOriginalJpg",
                P().field("JPEGData", "original_jpg_size", vs.of(n)).field("arg", str(ln), vs.of(l)),
                ("arg", da), bool(fits))
    # ---- section frame
    f = m.one("EncodeSection")
    sz, ln, da, ps = (argno(f, "section_size_bytes", 4), argno(f, "len", 5), argno(f, "data", 6), argno(f, "pos", 7))
    for k in (1, 2, 5):
        for l, q in ((0, 0), (k, 0), (k + 1, 0), (k + 2, 1), (100, 99 - k), (100, 100 - k), (100, 100), (100, 1 << 40)):
            c.point("section with size of %d bytes at %d of %d" % (k, q, l), "EncodeSection",
                    P().arg(sz, vs.of(k)).arg(ln, vs.of(l)).field("arg", str(ps), vs.of(q)), ("arg", da), False)
        for l, q in ((k + 2, 0), (100, 98 - k)):
            c.point("section with size of %d bytes at %d of %d" % (k, q, l), "EncodeSection",
                    P().arg(sz, vs.of(k)).arg(ln, vs.of(l)).field("arg", str(ps), vs.of(q)), ("arg", da), True)
        room(rep, um, "EncodeSection", P().arg(sz, vs.of(k)).arg(ln, vs.of(100)).field("arg", str(ps), vs.of(10)),
             da, 100, "the section after a size of %d bytes" % k)
    health(rep, um)
    callers(rep, um)


def offset(s, o, n, e, depth=0):
    """Distance of pointer operand o from argument n: a value set, or None if
    it is not derived from it, or "?" if unknown."""
    if o[0] == "a":
        return vs.of(0) if o[1] == n else None
    v = s.fn.val(o) if o[0] == "i" else None
    if v is None or v.op != "getelementptr":
        return None
    b = offset(s, v.ops[0], n, e)
    if b is None:
        return None
    if len(v.ops) != 2 or v.d.get("sty", "i8") != "i8":
        return "?"
    x = s.val(v.ops[1], e)
    if b == "?" or x is None:
        return "?"
    return vs.binop("add", b, x, 64)


def room(rep, um, fn, pr, n, total, what, byval=False):
    """At every call handed a pointer into the buffer and a size (by value or
    by reference to a local): offset + size is the size of the buffer."""
    m, mods = um
    f = m.one(fn)
    s = Scen(f, mods, pr)
    seen = {}

    def oi(i, e, mem):
        if i.op not in ("call", "invoke") or (i.callee or "").startswith("llvm."):
            return
        offs = [x for x in (offset(s, o, n, e) for o in i.ops) if x is not None]
        if not offs:
            return
        sizes = []
        for o in i.ops:
            k = s.paths.key(o) if o[0] in ("i", "ce") else None
            if not byval and k is not None and k[0] == "l" and k in mem:
                sizes.append(mem[k])
            elif byval and o[0] == "i" and s.fn.val(o).ty == "i64":
                sizes.append(s.val(o, e))
        if not sizes:
            return
        for sz in sizes:
            ok = offs[0] != "?" and sz is not None and vs.binop("add", offs[0], sz, 64) == vs.of(total)
            seen.setdefault(i.id, []).append((ok, i, offs[0], sz))
    s.run({}, {}, on_inst=oi, cap=200000)
    if s.capped or not seen:
        raise AnalysisBroken("%s: no call that is handed the room left" % fn)
    for k, l in seen.items():
        g = [x for x in l if x[0]]
        i = l[0][1]
        rep.ob("R4", "%s: room for %s" % (fn, what), i.where(), bool(g),
               "offset %s and size %s in %d bytes" % (l[0][2] if l[0][2] == "?" else show(l[0][2]), show(l[0][3]), total))


def health(rep, um):
    m, mods = um
    P = Premise
    for fn in ("EncodeJPEGInternals", "EncodeQuantData", "EncodeHistogramData", "EncodeDCData", "EncodeACData"):
        ok = lambda: P().call("EncodeAuxData", vs.of(1)).call("EncodeQuantTables", vs.of(1))
        scenario(rep, "R3", fn + " after an overflow", um, fn, ok().field("Storage", "overflow", vs.of(1)), "fail")
        f = m.one(fn)
        ln = argno(f, "len", 3)
        room(rep, um, fn, ok().field("arg", str(ln), vs.of(77)), argno(f, "data", 2), 77, "the section", True)
        scenario(rep, "R3", fn + " without an overflow", um, fn, ok().field("Storage", "overflow", vs.of(0)), "ok")


def callers(rep, um):
    m, mods = um
    P = Premise
    # the serializer hands its own buffer and size to every section
    f = m.one("BrunsliSerialize")
    da, ln = argno(f, "data", 3), argno(f, "len", 4)
    s = Scen(f, mods, P().field("arg", str(ln), vs.of(77)).call("EncodeSection", vs.of(1)).call("EncodeSignature", vs.of(1)))
    calls = {}

    def oi(i, e, mem):
        for g in ("EncodeSection", "EncodeSignature"):
            if call_is(i, g, None, s):
                gf = m.one(g)
                calls[i.id] = (i, g, offset(s, i.ops[argno(gf, "data", 0)], da, e), s.val(i.ops[argno(gf, "len", 0)], e))
    s.run({}, {}, on_inst=oi)
    for i, g, o, l in calls.values():
        rep.ob("R4", "BrunsliSerialize: buffer of %s" % g, i.where(), o == vs.of(0) and l == vs.of(77),
               "offset %s, size %s in 77 bytes" % (o, show(l)))
    # allocation of the output by the callers
    for u, fns in (("enc", ("EncodeBrunsli",)), ("cbrunsli", ("ProcessFile",)), ("groups", ("EncodeGroups",))):
        if u == "enc":
            mm, md = um
        else:
            mm, md = unit(u, KEEP)
        for fn in fns:
            alloc(rep, mm, md, fn)
    # the parts of the groups codec are appended while they fit
    mm, md = unit("groups", KEEP)
    f = mm.one("EncodeGroups")
    da, ln = argno(f, "data", 1), argno(f, "len", 2)
    start = [i for i in f.insts() if i.op == "load" and s2key(f, md, i) == ("a", ln)]
    if not start:
        raise AnalysisBroken("EncodeGroups does not read the capacity")
    for part, cap, n in ((101, 100, 0), (100, 100, 1), (60, 100, 1), (50, 100, 2), (34, 100, 2), (1, 0, 0), (26, 100, 3)):
        s = Scen(f, md, P().field("arg", str(ln), vs.of(cap)).size(None, vs.of(part)))
        most = [0, None]

        def oi(i, e, mem):
            if i.op in ("call", "invoke") and (i.callee or "").startswith("llvm.mem") and through(s, i.ops[0], ("arg", da)):
                k = (vs.lo(e.get(("cnt", 0), vs.of(0))) + 1)
                if k > most[0]:
                    most[:] = [k, i]
                if k > n:
                    return "stop"
                e[("cnt", 0)] = vs.of(k)
        e0 = {start[0].id: vs.of(cap), ("cnt", 0): vs.of(0)}
        s.run(e0, {}, start=start[0], on_inst=oi, cap=100000)
        key = "parts of %d bytes into %d" % (part, cap)
        w = most[1].where() if most[1] else c_where(f)
        rep.ob("R1", key, w, most[0] <= n, "%d parts are copied, only %d fit" % (most[0], n))
        rep.ob("R2", key, w, most[0] >= n, "only %d parts are copied, %d fit" % (most[0], n))
    # the bound counts every kind of content
    bound(rep, m, mods)


def word_stores(c, key, pr, want):
    f = c.m.one("WriteBits")
    s = Scen(f, c.mods, pr)
    hit = []

    def oi(i, e, m):
        if i.op == "store" and i.d.get("vty") == "i64" and writes(i, s, want):
            hit.append(i)
    s.run({}, {}, on_inst=oi)
    c.rep.ob("R1", key + ": no store of 8 bytes", hit[0].where() if hit else c_where(f), not hit,
             "stores 8 bytes at %s" % (hit[0].where() if hit else ""))


def s2key(f, md, i):
    return Scen(f, md, Premise()).paths.key(i.ops[0])


def c_where(f):
    return f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line", "?"))


SINKS = ("BrunsliEncodeJpeg", "BrunsliSerialize", "BrunsliEncodeJpegBypass")
BOUNDS = ("GetMaximumBrunsliEncodedSize", "GetBrunsliBypassSize")


def container(s, o):
    """Container the data pointer o was taken from."""
    v = s.fn.val(o) if o[0] == "i" else None
    if v is not None and v.op in ("call", "invoke") and v.ops:
        return s.paths.key(v.ops[0])
    k = s.paths.key(o)
    if k is not None and k[0] == "x" and k[2] == 0 and k[1][0] == "d" and k[1][1][0] == "f" and k[1][1][2] == "container":
        return k[1][1][1]
    return None


def alloc(rep, m, mods, fn):
    """Where output buffers are sized: the size handed to the encoder is the
    size of the buffer."""
    fs = [g for g in m.functions.values() if g.blocks and any(
        i.op in ("call", "invoke") and i.callee and i.callee in m.functions
        and m.functions[i.callee].qual.split("::")[-1] in SINKS for i in g.insts())
        and g.qual.split("::")[-1] not in SINKS]
    if not fs:
        raise AnalysisBroken("no call of the encoder in %s" % fn)
    for f in fs:
        s = Scen(f, mods, Premise())
        for i in f.insts():
            g = next((g for g in SINKS if call_is(i, g, None, s)), None)
            if g is None:
                continue
            gf = m.functions[i.callee]
            # (of a function that is only declared the names are not known)
            pt = [n for n, a in enumerate(gf.args) if a[1] == "ptr"]
            d, l = i.ops[argno(gf, "data", pt[-2])], i.ops[argno(gf, "len", pt[-1])]
            c, cell = container(s, d), s.paths.key(l)
            sized = [x for x in f.insts() if x.op in ("call", "invoke") and len(x.ops) > 1 and s.paths.key(x.ops[0]) == c
                     and SIZER.search(x.callee or "") and before(f, x, i)] if c is not None else []
            stores = [x for x in f.insts() if x.op == "store" and s.paths.key(x.ops[1]) == cell and before(f, x, i)]
            name = "%s: buffer handed to %s" % (f.qual.split("::")[-1] if "$_" not in f.name and "_M_invoke" not in f.name
                                                else "group task", g)
            if not sized or not stores:
                rep.ob("R5", name, i.where(), False, "the buffer or its size is not set before the call")
                continue
            z, t = latest(f, sized), latest(f, stores)
            a, b = origin(s, z.ops[1], cell, t), origin(s, t.ops[0], cell, None)
            rep.ob("R5", name, i.where(), a == b, "buffer sized at %s, size handed on set at %s" % (z.where(), t.where()))


SIZER = re.compile(r"^_ZNSt.*(6resizeE|C[12]Em)")


def before(f, a, b):
    """Does instruction a come before b on every path to b?"""
    return f.dominates(a.bb.id, b.bb.id) if a.bb is not b.bb else a.idx < b.idx


def latest(f, l):
    r = l[0]
    for x in l[1:]:
        if before(f, r, x):
            r = x
    return r


def origin(s, o, cell, store):
    """SSA value an operand stands for; reads of the size cell are the value
    stored there."""
    v = s.fn.val(o)
    n = 0
    while v is not None and n < 8:
        n += 1
        if v.op == "load" and s.paths.key(v.ops[0]) == cell and store is not None:
            o = store.ops[0]
        elif v.op in ("zext", "sext", "trunc", "freeze"):
            o = v.ops[0]
        else:
            break
        v = s.fn.val(o)
    return tuple(o[:2])


CONTENT = [("JPEGData", "app_data"), ("JPEGData", "com_data"), ("JPEGData", "tail_data"), ("JPEGData", "components"),
           ("JPEGComponent", "num_blocks"), ("JPEGData", "marker_order"), ("JPEGData", "huffman_code"),
           ("JPEGData", "scan_info"), ("JPEGData", "inter_marker_data"), ("JPEGData", "padding_bits"),
           ("JPEGScanInfo", "reset_points"), ("JPEGScanInfo", "extra_zero_runs")]


def bound(rep, m, mods):
    f = m.one("GetMaximumBrunsliEncodedSize")
    touched = {}
    st, seen = [f], set()
    factor = []
    while st:
        g = st.pop()
        if g.name in seen or g.decl:
            continue
        seen.add(g.name)
        s = Scen(g, mods, Premise())
        for i in g.insts():
            for o in i.ops:
                if o[0] not in ("i", "a", "ce"):
                    continue
                k = s.paths.key(o)
                while k is not None and k[0] in ("x", "f", "d"):
                    if k[0] == "f":
                        touched.setdefault((scen.last(k[2]).replace("struct.", ""), k[3]), i)
                    k = k[1]
            if i.op in ("mul", "shl") and i.ops[1][0] == "c":
                n = i.ops[1][1] if i.op == "mul" else 1 << i.ops[1][1]
                if any(x.op == "load" and scen.prem_field(s.paths.cell(x.ops[0], x.ty)) is not None
                       and scen.prem_field(s.paths.cell(x.ops[0], x.ty))[1:] == ("num_blocks",)
                       for x in slice_of(g, i.ops[0])):
                    factor.append((n, i))
            if i.op in ("call", "invoke") and i.callee in m.functions:
                st.append(m.functions[i.callee])
    for x, y in CONTENT:
        rep.ob("R5", "bound counts %s.%s" % (x, y), f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line")),
               (x, y) in touched, "not read by the bound")
    rep.ob("R5", "bound for coefficients", factor[0][1].where() if factor else f.name,
           bool(factor) and min(n for n, i in factor) >= 97,
           "%s bytes per block; 63 coefficients of 12 bits and a DC take 96" % (factor[0][0] if factor else "no"))


def slice_of(f, o):
    st, seen, r = [o], set(), []
    while st:
        x = st.pop()
        if x[0] == "ce":
            continue
        v = f.val(x) if x[0] == "i" else None
        if v is None or v.id in seen:
            continue
        seen.add(v.id)
        r.append(v)
        if v.op != "load":
            st.extend(v.ops)
    return r
