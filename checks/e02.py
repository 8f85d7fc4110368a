"""E02: everything acquired is released exactly once, by its counterpart.

R1  from every acquisition (memory, file, decompressor), every path either
    releases the resource with the function that belongs to it, or hands it to
    an owner: a smart pointer of the right kind, a field, the caller.
R2  after the release it is neither used, released again, nor handed out.
R3  a field that owns a resource: its object's destructor releases it, every
    other release clears it, it is not overwritten while it holds one, and the
    object is never copied.
R4  what an exported function hands out, its counterpart releases.
"""
import re
from bsa import ir, absx, vs, scen
from bsa.build import AnalysisBroken, REPO
from bsa.scen import Premise, Scen, TOP
from checks.lib import show, before, keep, cells, entry
from checks import d02, e04

BIG = vs.rng(1, 1 << 62)
ACQ = [(r"^_Znw", "new"), (r"^_Zna", "new[]"), (r"^(malloc|calloc|realloc|strdup|aligned_alloc)$", "malloc"), (r"^(fopen|fdopen|tmpfile)$", "file"),
       (r"^open$", "fd"), (r"^BrotliDecoderCreateInstance$", "brotli decoder"), (r"^BrotliEncoderCreateInstance$", "brotli encoder"),
       (r"^_ZNSt10unique_ptrI.*E7releaseEv$", "released pointer")]
REL = [(r"^_Zdl", "new"), (r"^_Zda", "new[]"), (r"^free$", "malloc"), (r"^fclose$", "file"), (r"^close$", "fd"),
       (r"^BrotliDecoderDestroyInstance$", "brotli decoder"), (r"^BrotliEncoderDestroyInstance$", "brotli encoder")]
OWNER = re.compile(r"^_ZNSt(10unique_ptr|10shared_ptr|12__shared_ptr)I.*?(C[12]I|C[12]E|5reset)")


def kind(i, table):
    c = i.callee if i.op in ("call", "invoke") else None
    if c is None:
        return None
    for r, k in table:
        if re.search(r, c):
            if k == "released pointer":
                return "new[]" if "[]" in (i.cdem or "").split("::release")[0] else "new"
            return k
    return None


def sources(f, o, d=0, seen=None):
    """Instructions the pointer may originate from (through phis and casts)."""
    seen = seen if seen is not None else set()
    if o[0] != "i" or o[1] in seen:
        return set()
    seen.add(o[1])
    v = f.val(o)
    if v.op in ("phi", "select", "bitcast", "inttoptr", "ptrtoint", "trunc", "zext"):
        r = set()
        for x in v.ops[1 if v.op == "select" else 0:]:
            r |= sources(f, x, d + 1, seen)
        return r
    return {o[1]}


class Life(object):
    """The life of what acquisition i returns, in f."""

    def __init__(self, f, mods, i):
        self.f, self.i = f, i
        self.kind = kind(i, ACQ)
        self.bad = []       # R1
        self.late = []      # R2
        self.slots = {}
        self.returned = False
        self.owned = 0
        p = Premise().pcall(lambda x, s: x.id == i.id, BIG)
        s = self.s = Scen(f, mods, p)
        s.ptrphi = True
        s._important()
        s._imp[0].update(x.id for x in f.insts() if x.op == "phi" and x.ty == "ptr")
        self.src = {}
        st = ("cnt", "st")

        def mine(o):
            if o[0] != "i":
                return False
            k = tuple(o[:2])
            if k not in self.src:
                self.src[k] = i.id in sources(f, o)
            return self.src[k]

        def derived(o, d=0):
            if mine(o):
                return True
            v = f.val(o) if o[0] == "i" else None
            return v is not None and v.op == "getelementptr" and d < 6 and derived(v.ops[0], d + 1)

        def live(o, e):
            v = s.val(o, e)
            return v is TOP or v != vs.of(0)

        def on(x, e, mm):
            rel = vs.lo(e[st]) == 1
            r = kind(x, REL)
            if r is not None and x.ops and mine(x.ops[0]) and live(x.ops[0], e):
                if rel:
                    self.late.append("released again at " + x.where())
                    return "stop"
                if r != self.kind:
                    self.bad.append("%s from %s released as %s at %s" % (self.kind, i.where(), r, x.where()))
                e[st] = vs.of(1)
                return None
            if x.op in ("call", "invoke") and not (x.callee or "").startswith("llvm."):
                if OWNER.search(x.callee or "") and len(x.ops) > 1 and mine(x.ops[1]) and live(x.ops[1], e):
                    if rel:
                        self.late.append("handed to an owner after its release at " + x.where())
                    arr = "[]" in (x.cdem or "").split("<", 1)[1].split(",")[0]
                    if "default_delete" in (x.cdem or "") and self.kind != ("new[]" if arr else "new"):
                        self.bad.append("%s from %s handed to an owner that uses %s at %s" % (
                            self.kind, i.where(), "delete[]" if arr else "delete", x.where()))
                    self.owned += 1
                    return "stop"
                if rel and any(derived(o) and live(o, e) for o in x.ops):
                    self.late.append("used after its release at " + x.where())
                    return "stop"
            if rel and x.op == "load" and derived(x.ops[0]) or rel and x.op == "store" and derived(x.ops[1]):
                self.late.append("used after its release at " + x.where())
                return "stop"
            if x.op == "store" and mine(x.ops[0]) and live(x.ops[0], e):
                k = s.paths.key(x.ops[1])
                if k is not None and absx.local_root(k) is None:
                    if rel:
                        self.late.append("stored after its release at " + x.where())
                    self.slots[x] = k
                    return "stop"
            if x.op == "ret":
                given = bool(x.ops) and mine(x.ops[0]) and live(x.ops[0], e)
                if rel and given:
                    self.late.append("returned after its release at " + x.where())
                elif given:
                    self.returned = True
                elif not rel:
                    self.bad.append("not released before %s" % last(x))
            return None

        def last(x):
            return "the end of %s" % f.qual
        res = s.run({st: vs.of(0), i.id: BIG}, {}, start=i, on_inst=on, cap=60000)
        if s.capped:
            raise AnalysisBroken("life of %s does not converge" % i.where())


def direct_calls(m):
    r = set()
    for f in m.functions.values():
        if not f.decl:
            for i in f.insts():
                if i.op in ("call", "invoke") and i.callee:
                    r.add(i.callee)
    return r


EXPORT = {"BrunsliToJpeg": "FreeJpeg", "JpegToBrunsli": "FreeBrunsli", "BrunsliDecoderInit": "BrunsliDecoderCleanup"}
WASM = tuple("^%s$" % n for n in list(EXPORT) + list(EXPORT.values()) + ["BrunsliDecoderProcess"])


def lives(rep, unit, kp, seen):
    m = ir.load(unit, keep=kp)
    mods = e04.Mods(m)
    called = direct_calls(m)
    slots = {}
    for f in m.repo_fns():
        for i in f.insts():
            if kind(i, ACQ) is None:
                continue
            l = Life(f, mods, i)
            loc = "%s:%s" % (i.loc[0].split("/")[-1], i.loc[1])
            k = (unit, i.loc)
            o = seen.setdefault(k, [i.where(), kind(i, ACQ), [], [], 0])
            o[2] += l.bad
            o[3] += l.late
            o[4] += 1
            if l.returned:
                if f.qual in EXPORT or f.name not in called:
                    pass        # released by its counterpart (R4), or seen inlined into its callers
                else:
                    o[2].append("handed out by %s, whose callers are not known to release it" % f.qual)
            for x, c in l.slots.items():
                q = absx.field_of(c)
                slots.setdefault(q if isinstance(q, tuple) else c, []).append((f, i, x, kind(i, ACQ)))
    return m, mods, slots


def fields(rep, m, mods, slots):
    """R3 for fields of objects."""
    for q, ws in sorted(slots.items(), key=str):
        if not (isinstance(q, tuple) and isinstance(q[0], str)) or len(q) != 2:
            continue
        own = q[0].split("::")[-1].split(".")[-1]
        w = ws[0][2].where()
        d = [f for f in m.repo_fns() if f.qual.endswith("%s::~%s" % (own, own))]
        if not d:
            rep.ob("R3", "%s.%s is released by the destructor" % (own, q[1]), w, False, "%s has no destructor of its own" % own)
            continue
        d = d[0]
        for k in sorted(set(x[3] for x in ws)):
            n = set()

            def on(x, e, mm):
                if kind(x, REL) is not None and x.ops and field_load(d, s, x.ops[0]) == q:
                    e[("cnt", "n")] = vs.of(vs.lo(e[("cnt", "n")]) + 1)
                    if kind(x, REL) != k:
                        n.add("%s as %s" % (k, kind(x, REL)))
                if x.op == "ret":
                    n.add(vs.lo(e[("cnt", "n")]))
            s = Scen(d, mods, Premise().field(own, q[1], BIG))
            s.run({("cnt", "n"): vs.of(0)}, {}, on_inst=on)
            rep.ob("R3", "%s.%s is released by the destructor" % (own, q[1]), d02.d01.place(d), n == {1}, "released %s times" % sorted(map(str, n)))
        # other releases clear the field
        for f in m.repo_fns():
            rel = [i for i in f.insts() if kind(i, REL) is not None and i.ops and field_load(f, None, i.ops[0]) == q]
            if not rel or f is d:
                continue
            bad = []
            for i in rel:
                s = Scen(f, mods)

                def on2(x, e, mm):
                    if x.op == "store" and absx.field_of(s.paths.cell(x.ops[1], x.d.get("vty", ""))) == q:
                        if x.ops[0][0] == "n" or x.ops[0] == ["z"]:
                            return "stop"
                    if x.op in ("call", "invoke") and any(field_load(f, s, o) == q for o in x.ops if o[0] == "i"):
                        bad.append("used at %s after its release at %s" % (x.where(), i.where()))
                        return "stop"
                    if x.op == "ret":
                        bad.append("still set at the end of %s after its release at %s" % (f.qual, i.where()))
                    return None
                s.run({}, {}, start=i, on_inst=on2, cap=60000)
            rep.ob("R3", "%s.%s is cleared when released (%s)" % (own, q[1], f.qual.split("::")[-1]), rel[0].where(), not bad, "; ".join(sorted(set(bad))[:2]))
        # nobody copies the owner
        cp = [f.dem for f in m.functions.values() if re.search(r"(^|::)%s::(%s|operator=)\(.*%s (const)?\s*&&?\)" % (own, own, own), f.dem or "") or re.search(
            r"(^|::)%s::(%s|operator=)\((.*::)?%s const&\)" % (own, own, own), f.dem or "")]
        rep.ob("R3", "%s is never copied" % own, w, not cp, "; ".join(cp[:2]))


def field_load(f, s, o):
    s = s or Scen(f, None)
    v = f.val(o) if o[0] == "i" else None
    while v is not None and v.op in ("bitcast", "inttoptr", "zext"):
        v = f.val(v.ops[0])
    if v is None or v.op != "load":
        return None
    return absx.field_of(s.paths.cell(v.ops[0], v.ty))


def decompressor(rep, m, mods):
    """The decompressor is made once per stream, and not used once it is gone."""
    f = m.one("DecodeMetaDataSection")
    w = d02.d01.place(f)
    st = ("MetadataState", "decompression_stage")
    acq = [i for i in f.insts() if kind(i, ACQ) == "brotli decoder"]
    if not acq:
        raise AnalysisBroken("no decompressor is created in %s" % f.qual)
    held, gone = 2, 3
    for v in (held, gone):
        hit = []
        s = Scen(f, mods, Premise())
        s.run({}, entry(s, st + (vs.of(v),)), on_inst=lambda i, e, mm: hit.append(i) if i in acq or v == gone and kind(
            i, REL) else None, cap=60000)
        rep.ob("R3", "the decompressor is not %s at stage %d" % ("made again" if v == held else "touched", v), w, not hit, hit and "reached: " + hit[0].where() or "")
    # stages as left behind
    for i in acq:
        out = set()
        s = Scen(f, mods, Premise().pcall(lambda x, s_: x.id == i.id, BIG))
        s.loaded.add(next(iter(absx.field_of(k) for k in cells(s, st))))

        def on(x, e, mm):
            if kind(x, REL):
                e[("cnt", "r")] = vs.of(1)
            if x.op == "ret":
                v = [mm.get(k) for k in cells(s, st)]
                out.add((("cnt", "r") in e, vs.single(v[0]) if v and v[0] else None))
            return None
        s.run({i.id: BIG}, {}, start=i, on_inst=on, cap=60000)
        rep.ob("R3", "the stage tells whether the decompressor is held (made)", i.where(), bool(out) and all(
            v == (gone if r else held) for r, v in out), "released, stage: %s" % sorted(map(str, out)))
    out = set()
    s = Scen(f, mods, Premise())
    s.loaded.add(next(iter(absx.field_of(k) for k in cells(s, st))))

    def on3(x, e, mm):
        if kind(x, REL):
            e[("cnt", "r")] = vs.of(1)
        if x.op == "ret":
            v = [mm.get(k) for k in cells(s, st)]
            out.add((("cnt", "r") in e, vs.single(v[0]) if v and v[0] else None))
        return None
    s.run({}, entry(s, st + (vs.of(held),)), on_inst=on3, cap=60000)
    rep.ob("R3", "the stage tells whether the decompressor is held (kept)", w, bool(out) and all(v == (gone if r else held) for r, v in out),
           "released, stage: %s" % sorted(map(str, out)))


def wasm(rep, m, mods, slots):
    """R4: exported pairs."""
    for give, take in sorted(EXPORT.items()):
        g, t = m.one(give), m.one(take)
        gk = set()
        for i in g.insts():
            if kind(i, ACQ) and any(i.id in sources(g, r.ops[0]) for r in g.insts() if r.op == "ret" and r.ops):
                gk.add(kind(i, ACQ))
        tk = [i for i in t.insts() if kind(i, REL) and tuple(i.ops[0][:2]) == ("a", 0)]
        w = d02.d01.place(t)
        n = set()

        def on(x, e, mm):
            if x in tk:
                e[("cnt", 0)] = vs.of(vs.lo(e[("cnt", 0)]) + 1)
            elif vs.lo(e[("cnt", 0)]) and x.op in ("load", "store") and root(s.paths.key(x.ops[0 if x.op == "load" else 1])) == ("a", 0):
                n.add("used after release")
            if x.op == "ret":
                n.add(vs.lo(e[("cnt", 0)]))
        s = Scen(t, mods, Premise().arg(0, BIG))
        s.run({("cnt", 0): vs.of(0)}, {}, on_inst=on)
        rep.ob("R4", "%s releases what %s returns" % (take, give), w, n == {1} and set(kind(i, REL) for i in tk) == gk and len(gk) == 1,
               "acquired as %s, released as %s, %s times" % (sorted(gk), sorted(set(kind(i, REL) for i in tk)), sorted(map(str, n))))
    # the parts of the instance
    g, t = m.one("BrunsliDecoderInit"), m.one("BrunsliDecoderCleanup")
    s = Scen(g, mods)
    parts = {}
    for i in g.insts():
        if i.op == "store":
            src = [g.inst[x] for x in sources(g, i.ops[0])] if i.ops[0][0] == "i" else []
            k = s.paths.key(i.ops[1])
            for x in src:
                if kind(x, ACQ) and k is not None:
                    parts[k[2] if k[0] == "x" else 0] = kind(x, ACQ)
    ts = Scen(t, mods)
    rel = {}
    for i in t.insts():
        if kind(i, REL) and i.ops[0][0] == "i":
            for x in sources(t, i.ops[0]):
                v = t.inst[x]
                k = ts.paths.key(v.ops[0]) if v.op == "load" else None
                if k is not None and root(k) == ("a", 0):
                    rel.setdefault(k[2] if k[0] == "x" else 0, []).append(i)
    whole = [i for i in t.insts() if kind(i, REL) and tuple(i.ops[0][:2]) == ("a", 0)]
    if len(parts) < 3:
        raise AnalysisBroken("parts of the decoder instance are not found")
    for n, k in sorted(parts.items()):
        r = rel.get(n, [])
        cnt = set()

        def on4(x, e, mm):
            if x in r:
                e[("cnt", 0)] = vs.of(vs.lo(e[("cnt", 0)]) + 1)
            if x.op == "ret":
                cnt.add(vs.lo(e[("cnt", 0)]))
        ids = set(v for x in r for v in sources(t, x.ops[0]))
        s2 = NonNull(t, mods, Premise().arg(0, BIG), ids)
        s2.run({("cnt", 0): vs.of(0)}, {}, on_inst=on4)
        rep.ob("R4", "BrunsliDecoderCleanup releases part %d of the instance" % n, d02.d01.place(t), cnt == {1} and set(kind(i, REL) for i in r) == {k},
               "acquired as %s, released as %s, %s times" % (k, sorted(set(kind(i, REL) for i in r)), sorted(cnt)))


class NonNull(Scen):
    """Loads `ids` give non-null pointers."""

    def __init__(self, f, mods, pr, ids):
        Scen.__init__(self, f, mods, pr)
        self.ids = ids

    def step(self, i, env, mem):
        Scen.step(self, i, env, mem)
        if i.id in self.ids:
            env[i.id] = vs.rng(1, 1 << 30)
        elif i.op in ("zext", "inttoptr", "ptrtoint", "bitcast") and i.ops[0][0] == "i":
            v = env.get(i.ops[0][1], TOP)
            if v is not TOP and vs.lo(v) > 0:
                env[i.id] = v


def root(k):
    while k is not None and k[0] in ("x", "f", "d"):
        k = k[1]
    return k


def run(rep):
    rep.rule("R1", "every acquisition is released or handed to an owner", 12)
    rep.rule("R2", "nothing is used or released after its release", 12)
    rep.rule("R3", "fields that own a resource", 6)
    rep.rule("R4", "exported functions and their counterparts", 6)
    seen = {}
    kd = keep(d02.KEEP)
    tool = (r"(^|[ ])main\(|^main$", r"(^|::|[ ])(%s)\(" % e04.CODEC)
    for u, kp in (("dec", kd), ("enc", kd), ("groups", kd), ("cbrunsli", tool), ("dbrunsli", tool), ("cbrunsli-groups", tool),
                  ("dbrunsli-groups", tool), ("jni", tool + (r"^Java", r"^JNI")), ("wasm", WASM + tool)):
        m, mods, slots = lives(rep, u, kp, seen)
        if u == "dec":
            fields(rep, m, mods, slots)
            decompressor(rep, m, mods)
        elif u == "wasm":
            wasm(rep, m, mods, slots)
        else:
            fields(rep, m, mods, slots)
    for k, (where, kd_, bad, late, n) in sorted(seen.items()):
        t = "%s (%s, %s)" % (where, kd_, k[0])
        rep.ob("R1", t, where, not bad, "; ".join(sorted(set(bad))[:3]))
        rep.ob("R2", t, where, not late, "; ".join(sorted(set(late))[:3]))
    rep.count("acquisitions", sum(x[4] for x in seen.values()))
