"""D02: suspension keeps progress; nothing is done twice or lost.

R1  when a step returns for want of input, everything it has consumed is on
    record: no path from a consumption to that return without a store to the
    saved progress in between.
    Before a step has consumed anything it changes no saved value relative to
    itself (a step that is repeated must start from the same state).
R3  every variable carried around a loop that can be suspended is saved on
    suspension and reloaded, or recomputed from a variable that is; what is
    saved is reset whenever the loop ends normally.
R4  local copies of the decoders are written back before every return.
R5  the dispatcher resumes the interrupted stage and re-bases the section.
R6  the read-ahead buffer neither drops nor repeats bytes.
"""
from bsa import vs
from bsa.scen import TOP
from checks.lib import *
from checks import d01

STEPS = ["DecodeVarint", "DecodeLimitedVarint", "DecodeContextMap", "DecodeHuffmanCode", "DecodeScanInfo",
         "DecodeDC", "DecodeAC", "ReadTag", "DecodeBase128", "EnterSection", "DecodeHeader", "DecodeOriginalJpg",
         "DecodeMetaDataSection", "DecodeJPEGInternalsSection", "DecodeQuantDataSection",
         "DecodeHistogramDataSection", "DecodeDCDataSection", "DecodeACDataSection", "ParseSection",
         "ProcessSection", "VerifySignature", "EnsureSubdecodersInitialized"]
KEEP = d01.KEEP + tuple(STEPS) + ("LoadInput", "UnloadInput", "ChargeBuffer", "UnchargeBuffer", "DoProcessJpeg",
                                  "ProcessJpeg", "ProcessMetaData", "BrunsliBitReaderSuspend")
STATE = ("State", "HeaderState", "FallbackState", "SectionHeaderState", "MetadataState", "VarintState",
         "JpegInternalsState", "QuantDataState", "HistogramDataState", "AcDcState", "SectionState", "InternalState",
         "Buffer")
# Position in the input: advanced by consumption, not a record of it.
NOREC = {("State", "pos"), ("InternalState", "result"), ("InternalState", "last_stage"), ("SectionState", "milestone"),
         ("SectionState", "projected_end"), ("State", "len"), ("State", "data")}
GROW = ("push_back", "emplace_back", "insert")


def lastn(t):
    return t.split("::")[-1].split(" ")[-1]


def statefield(k):
    """(struct, field) of a saved-state cell, else None."""
    q = absx.field_of(k) if k is not None else None
    if isinstance(q, tuple) and lastn(q[0]) in STATE and absx.local_root(k) is None:
        return lastn(q[0]), q[1]
    return None


def suspended(f):
    r = lastn((f.ditypes or ["?"])[0])
    return {"BrunsliStatus": (vs.of(7), vs.of(0)), "bool": (vs.of(0), vs.of(1)), "Stage": (vs.of(6), None)}.get(r)


class Step(object):
    def __init__(self, um, f):
        self.um = um
        self.m, self.mods = um
        self.f = f
        self.C = [d01.Costs(um, "w"), d01.Costs(um, "b")]
        self.s0 = Scen(f, self.mods)
        self.kinds = {}
        self.subs = []
        self.ent, self.calls = [], []
        for i in f.insts():
            k = self.classify(i)
            if k:
                self.kinds[i.id] = k
                if k == "sub":
                    self.subs.append(i)

    def callee(self, i):
        return self.m.functions.get(i.callee) if i.op in ("call", "invoke") and i.callee else None

    def classify(self, i):
        if i.op in ("call", "invoke"):
            g = self.callee(i)
            n = lastn(g.qual.split("<")[0]) if g else None
            if i.callee and "BrotliDecoder" in i.callee and ("Stream" in i.callee or "TakeOutput" in i.callee):
                return "move"
            if g is None:
                return None
            if n in ("SkipBytes", "SkipAvailableBytes"):
                return "skip"
            if n in ("CanRead", "BrunsliBitReaderCanRead"):
                return "check"
            if n == "BrunsliBitReaderFinish":
                return None
            if n in STEPS and n != "EnsureSubdecodersInitialized" and suspended(g):
                return "sub"
            if n == "EnsureSubdecodersInitialized":
                return "move"
            for C in self.C:
                if C.prim(i, {}, self.s0) is not None:
                    return "use"
                if g.blocks and g is not self.f and C.sub(g) == "plain":
                    return "use"
            if n in GROW:
                r = self.s0.paths.key(i.ops[0]) if i.ops else None
                if r is not None and absx.local_root(r) is None:
                    return "grow"
            return None
        if i.op == "store":
            k = self.s0.paths.cell(i.ops[1], i.d.get("vty", ""))
            if k is None or absx.local_root(k) is not None:
                return None
            q = statefield(k)
            if q == ("State", "pos"):
                v = self.f.val(i.ops[0])
                if v is not None and v.op == "add" and any(o[0] == "c" and o[1] == 1 for o in v.ops):
                    return "use"
                return "skip"
            if q in NOREC:
                return None
            if q is None and not (k[0] == "a" and i.d.get("vty", "") in ("i64", "i32")):
                return None
            if self.rmw(i, k):
                return "rmw"
            return "rec"
        return None

    def rmw(self, i, k):
        seen, work = set(), [i.ops[0]]
        while work:
            o = work.pop()
            v = self.f.val(o)
            if v is None or v.id in seen:
                continue
            seen.add(v.id)
            if v.op == "load":
                if self.s0.paths.cell(v.ops[0], v.ty) == k and v.id != i.ops[0][1]:
                    return True
                continue
            if v.op in ("call", "invoke", "phi"):
                continue
            work.extend(v.ops)
        return False

    def fields_of(self, o):
        """Saved fields (and pointer arguments) a condition depends on."""
        out, seen, work = set(), set(), [o]
        while work:
            v = self.f.val(work.pop())
            if v is None or v.id in seen:
                continue
            seen.add(v.id)
            if v.op == "load":
                k = self.s0.paths.cell(v.ops[0], v.ty)
                out.add(self.fkey(k))
            elif v.op in ("call", "invoke"):
                g = self.callee(v)
                if g is not None and lastn(g.qual) in ("size", "empty", "operator bool") and v.ops:
                    work.append(v.ops[0])
                    k = self.s0.paths.key(v.ops[0])
                    out.add(self.fkey(k))
            else:
                work.extend(v.ops)
        out.discard(None)
        return out

    def fkey(self, k):
        if k is None or absx.local_root(k) is not None:
            return None
        q = absx.field_of(k)
        if isinstance(q, tuple):
            return lastn(q[0]), q[1]
        return ("cell", str(k))

    def controls(self, i):
        """Saved fields that decide whether instruction i is reached."""
        out = set()
        b = i.bb.id
        idom = self.f.idom
        while True:
            d = idom[b] if not callable(idom) else idom()[b]
            if d is None or d == b:
                break
            t = self.f.blocks[d].term
            if t.op == "switch" or (t.op == "br" and len(t.ops) == 3):
                out |= self.fields_of(t.ops[0])
            b = d
        return frozenset(q for q in out if q not in NOREC)

    def headers(self):
        """First instruction of every loop header."""
        out = {}
        for b in self.f.blocks:
            for x in b.succs:
                if x == b.id or self.f.dominates(x, b.id):
                    h = self.f.blocks[x]
                    out[x] = [i.id for i in h.insts if i.op != "phi"][0]
        return out

    def prepare(self):
        self.group = {}
        self.site = {}
        for n, k in self.kinds.items():
            if k in ("use", "sub"):
                c = self.controls(self.f.inst[n])
                self.site[n] = self.group.setdefault(c, len(self.group))
        self.clears = {}
        for n, k in self.kinds.items():
            if k in ("rec", "rmw"):
                i = self.f.inst[n]
                q = self.fkey(self.s0.paths.cell(i.ops[1], i.d.get("vty", "")))
                m = 0
                for c, g in self.group.items():
                    if q in c:
                        m |= 1 << g
                self.clears[n] = m
            elif k in ("grow",):
                i = self.f.inst[n]
                q = self.fkey(self.s0.paths.key(i.ops[0]))
                m = sum(1 << g for c, g in self.group.items() if q in c)
                # a sequence that is read up to an end mark is its own record
                for x in self.sources(i):
                    if self.kinds.get(x) == "use":
                        m |= 1 << self.site[x]
                self.clears[n] = m

    def sources(self, i):
        """Calls whose results are the values passed to call i."""
        out, seen, work = set(), set(), list(i.ops[1:])
        while work:
            v = self.f.val(work.pop())
            if v is None or v.id in seen:
                continue
            seen.add(v.id)
            if v.op == "alloca":
                for x in self.f.insts():
                    if x.op == "store" and x.ops[1] == ["i", v.id]:
                        work.append(x.ops[0])
            elif v.op in ("call", "invoke"):
                out.add(v.id)
            elif v.op != "load":
                work.extend(v.ops)
        return out

    def runs(self, always=False):
        """Yields (site or None, offending results) of all suspensions."""
        self.prepare()
        A, B, S, Q, L = ("cnt", 0), ("cnt", 1), ("cnt", 2), ("cnt", 3), ("cnt", 4)
        heads = self.headers()
        num = lambda e, k: vs.lo(e.get(k, vs.of(0)))
        for u in [None] + self.subs:
            pr = Premise()
            for st, fl, v in self.ent:
                pr.field(st, fl, v)
            for n_, v in self.calls:
                pr.call(n_, v)
            for x in self.subs:
                a, b = suspended(self.callee(x))
                pr.pcall(lambda i, s, x=x: i is x, a if x is u else (b if b is not None else vs.rng(0, 5)))
            pr.call("DecodeNumNonzeros", vs.rng(0, 63))
            s = Scen(self.f, self.mods, pr)
            fin = suspended(self.f)
            fin = fin[0] if fin else None
            stage = lastn((self.f.ditypes or ["void"])[0]) == "Stage"
            seen = [0]

            def on(i, e, mm):
                k = self.kinds.get(i.id)
                dirty, early = num(e, A), num(e, B)
                if i.op == "store" and stage:
                    q = absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", "")))
                    if isinstance(q, tuple) and q[1] == "result":
                        v = s.val(i.ops[0], e)
                        e[Q] = vs.of(1 if v is TOP or vs.has(v, 7) else 0)
                rec = num(e, L)
                if i.bb.id in heads and i.id == heads[i.bb.id]:
                    early = 0 if early == 1 else early
                if k in ("check", "sub"):
                    rec = 0
                if k == "use" or (k == "sub" and i is not u):
                    g = 1 << self.site[i.id]
                    if not rec & g:
                        dirty |= g
                    early = 2
                elif k == "sub":
                    e[S] = vs.of(1)
                elif k in ("move", "skip"):
                    early = 2
                elif k in ("rec", "rmw", "grow"):
                    dirty &= ~self.clears[i.id]
                    rec |= self.clears[i.id]
                    if k != "rec" and early != 2:
                        early = 1
                e[L] = vs.of(rec)
                e[A], e[B] = vs.of(dirty), vs.of(early)
                if i.op == "ret":
                    v = s.val(i.ops[0], e) if i.ops else TOP
                    sus = always or (vs.meets(v, fin) and (not stage or num(e, Q) == 1))
                    if u is not None and not num(e, S):
                        return None
                    if sus:
                        seen[0] += 1
                        if dirty or early == 1:
                            self.why = "%s%s" % (", ".join("%s" % sorted(c) for c, g in self.group.items() if dirty >> g & 1), " early" if early == 1 else "")
                            return "hit"
                return None
            s.run({A: vs.of(0), B: vs.of(0), S: vs.of(0), Q: vs.of(0), L: vs.of(0)}, {}, on_inst=on)
            if s.capped:
                raise AnalysisBroken("exploration of %s does not converge" % self.f.qual)
            yield u, s.marks, seen[0]


def cases(st, n):
    """Suspensions of a step, its inner code words enumerated where they matter."""
    if n != "DecodeContextMap":
        for x in st.runs(always=n == "EnsureSubdecodersInitialized"):
            yield x
        return
    res, cnt = [], 0
    for code in range(0, 19):
        st.calls = [("ReadSymbol", vs.of(code)), ("BrunsliBitReaderRead", vs.rng(0, (1 << code) - 1))]
        for u, r, c in st.runs():
            res, cnt = res + r, cnt + c
    yield None, res, cnt


def steps(rep, um):
    m, mods = um
    for n in STEPS:
        fs = [f for f in m.functions.values() if f.blocks and lastn(f.qual.split("<")[0]) == n and f.file.startswith(ir.build.REPO + "/c/dec")]
        if not fs:
            raise AnalysisBroken("step %s is gone" % n)
        for f in fs:
            st = Step(um, f)
            tot = 0
            for u, res, cnt in cases(st, n):
                tot += cnt
                if not cnt:
                    continue
                key = "%s, wanting input%s" % (f.qual, "" if u is None else " in %s" % lastn(st.callee(u).qual))
                rep.ob("R1", key, d01.place(f) if u is None else u.where(), not res,
                       "" if not res else "input is consumed, or a saved value changed, without a record of it, via " + c03.trail_text(f, res[0][2]) + st.why)


def loops(f):
    """{header: set of blocks} of the natural loops."""
    out = {}
    preds = {}
    for b in f.blocks:
        for x in b.succs:
            preds.setdefault(x, []).append(b.id)
    for b in f.blocks:
        for h in b.succs:
            if h == b.id or f.dominates(h, b.id):
                body = out.setdefault(h, {h})
                work = [b.id]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds.get(x, ()))
    return out


def reachable(f, b, block=()):
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen or x in block:
            continue
        seen.add(x)
        work.extend(f.blocks[x].succs)
    return seen


class Slice(object):
    """Saved fields a value depends on, through local memory."""

    def __init__(self, f, s):
        self.f, self.s = f, s
        self.st = {}
        for i in f.insts():
            if i.op == "store":
                k = s.paths.cell(i.ops[1], i.d.get("vty", ""))
                if k is not None and absx.local_root(k) is not None:
                    self.st.setdefault(k, []).append(i)

    def loads(self, o, within=None, local=True):
        """(state fields, local cells, loads) that feed operand o; phis of the
        given loop body are not followed around the loop."""
        fl, lc, ld = set(), set(), set()
        seen, work = set(), [o]
        while work:
            v = self.f.val(work.pop())
            if v is None or v.id in seen:
                continue
            seen.add(v.id)
            if v.op == "load":
                k = self.s.paths.cell(v.ops[0], v.ty)
                if k is not None and absx.local_root(k) is not None:
                    lc.add(k)
                    if local:
                        for x in self.st.get(k, ()):
                            work.append(x.ops[0])
                else:
                    q = statefield(k)
                    if q:
                        fl.add(q)
                        ld.add(v.id)
            elif v.op in ("call", "invoke"):
                continue
            else:
                work.extend(v.ops)
        return fl, lc, ld


def strip(f, o):
    v = f.val(o)
    while v is not None and v.op in ("zext", "sext", "trunc", "freeze"):
        o = v.ops[0]
        v = f.val(o)
    return o


def carried(rep, um):
    m, mods = um
    for f in sorted(m.functions.values(), key=lambda f: f.qual):
        if not f.blocks or lastn(f.qual.split("<")[0]) not in STEPS:
            continue
        st = Step(um, f)
        sites = [f.inst[n] for n, k in sorted(st.kinds.items()) if k in ("check", "sub")]
        lp = loops(f)
        s = st.s0
        sl = Slice(f, s)
        inner = {}
        for u in sites:
            hs = [h for h in lp if u.bb.id in lp[h]]
            if not hs:
                continue
            hs.sort(key=lambda h: len(lp[h]))
            # the way out for want of input: leaves the innermost loop
            L0 = lp[hs[0]]
            outs = [x for x in u.bb.succs if x not in L0]
            if len(u.bb.succs) != 2 or len(outs) != 1:
                outs = []
            save = {}
            for o in outs:
                for b in reachable(f, o, L0):
                    if b == o or f.dominates(o, b):
                        for i in f.blocks[b].insts:
                            if i.op == "store":
                                q = statefield(s.paths.cell(i.ops[1], i.d.get("vty", "")))
                                if q:
                                    save[q] = strip(f, i.ops[0])
            for h in hs:
                L = lp[h]
                hb = f.blocks[h]
                vars_ = []
                for i in hb.insts:
                    if i.op == "phi":
                        init = [o for o, b in zip(i.ops, i.d["inb"]) if b not in L]
                        back = [o for o, b in zip(i.ops, i.d["inb"]) if b in L]
                        if all(o == ["i", i.id] for o in back):
                            continue
                        if not live(f, i, L, u):
                            continue
                        vars_.append((i.d.get("nm") or "v%d" % i.id, ["i", i.id], None, init, i))
                for k, xs in sl.st.items():
                    inl = [x for x in xs if x.bb.id in L and rmwlocal(f, s, x, k)]
                    own = min((hh for hh in lp if any(x.bb.id in lp[hh] for x in inl)), key=lambda hh: len(lp[hh]), default=None)
                    own = [hh for hh in sorted(lp, key=lambda hh: len(lp[hh])) if all(x.bb.id in lp[hh] for x in inl)] if inl else []
                    if not inl or own[0] != h:
                        continue
                    init = [x.ops[0] for x in xs if x.bb.id not in L or not rmwlocal(f, s, x, k) and not any(x.bb.id in lp[hh] and hh != h and len(lp[hh]) < len(L) for hh in lp)]
                    init = [x.ops[0] for x in xs if x not in inl]
                    if not init:
                        continue
                    vars_.append((absx.field_of(k)[1] if isinstance(absx.field_of(k), tuple) else str(k), None, k, init, inl[0]))
                saved = set()
                for nm, val, k, init, at_ in vars_:
                    for q, o in save.items():
                        v = f.val(o)
                        same = o == val or (v is not None and v.op == "load" and k is not None and s.paths.cell(v.ops[0], v.ty) == k)
                        if same and any(q in sl.loads(x)[0] for x in init):
                            saved.add(q)
                for nm, val, k, init, at_ in vars_:
                    ok = bool(saved) and all(sl.loads(x)[0] & saved for x in init)
                    if not ok and val and all(x[0] == "c" for x in init):
                        ok = unchanged(st, u, at_, init)
                    rep.ob("R3", "%s: '%s' of the loop at line %s, suspended at line %s" % (f.qual, nm, line(hb), u.d.get("loc", ["?"])[-1]),
                           at_.where(), ok, "" if ok else "'%s' is neither saved on suspension nor recomputed from what is (%s)" % (nm, sorted(saved)))
                # reset of what is saved when the loop ends normally
                for q in sorted(saved):
                    inner.setdefault((h, q), u)
        for (h, q), u in sorted(inner.items(), key=lambda x: str(x[0])):
            reset(rep, f, s, lp[h], q, u, lp)


def unchanged(st, u, phi, init):
    """Does the variable still have its first value whenever u is reached?"""
    pr = Premise()
    for x in st.subs:
        a, b = suspended(st.callee(x))
        pr.pcall(lambda i, s, x=x: i is x, b if b is not None else vs.rng(0, 5))
    s = Scen(st.f, st.mods, pr)
    s._important()
    s._imp[0].add(phi.id)
    vals = [TOP]

    def on(i, e, mm):
        if i.bb is phi.bb:
            v = s.val(["i", phi.id], e)
            if v is TOP:
                e.pop(("cv", 0), None)
            else:
                e[("cv", 0)] = v
        if i is u:
            v = e.get(("cv", 0), TOP)
            vals.append(v)
            if v is TOP or not vs.subset(v, vs.of(*[x[1] for x in init])):
                return "hit"
        return None
    s.run({}, {}, on_inst=on)
    return len(vals) > 1 and not s.marks


def line(b):
    for i in b.insts:
        if i.d.get("loc"):
            return i.d["loc"][-1]
    return "?"


def rmwlocal(f, s, i, k):
    seen, work = set(), [i.ops[0]]
    while work:
        v = f.val(work.pop())
        if v is None or v.id in seen:
            continue
        seen.add(v.id)
        if v.op == "load":
            if s.paths.cell(v.ops[0], v.ty) == k:
                return True
        elif v.op not in ("call", "invoke", "phi"):
            work.extend(v.ops)
    return False


def live(f, phi, L, u):
    """Is the phi (or what it becomes) used in the loop at all?"""
    return any(x.bb.id in L for x in f.uses.get(phi.id, []))


def reset(rep, f, s, L, q, u, lp):
    """After the loop ends normally the saved field must be 0 before it is read again."""
    sus = reachable(f, u.bb.succs[0] if u.bb.succs[0] not in L else u.bb.succs[1], L)
    exits = set()
    for b in L:
        for x in f.blocks[b].succs:
            if x not in L and b != u.bb.id:
                exits.add(x)
    bad = None
    seen, work = set(), [(x, (x,)) for x in exits]
    while work and not bad:
        b, path = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for i in f.blocks[b].insts:
            if i.op == "store" and statefield(s.paths.cell(i.ops[1], i.d.get("vty", ""))) == q:
                if i.ops[0][0] == "c" and i.ops[0][1] == 0:
                    stop = True
                    break
            if i.op == "load" and statefield(s.paths.cell(i.ops[0], i.ty)) == q:
                bad = i
                break
            if i.op == "ret":
                bad = i
                break
        if not stop and not bad:
            work.extend((x, path + (x,)) for x in f.blocks[b].succs)
    rep.ob("R3", "%s: saved '%s' restarts at 0 after its loop" % (f.qual, q[1]), u.where(), bad is None,
           "" if bad is None else "%s reached with the old value" % bad.where())


def copies(rep, um):
    """Local copies of decoders: loaded before, written back after use."""
    m, mods = um
    for f in sorted(m.functions.values(), key=lambda f: f.qual):
        if not f.blocks or lastn(f.qual.split("<")[0]) not in STEPS:
            continue
        st = Step(um, f)
        s0 = st.s0
        loc = {}
        for n, k in st.kinds.items():
            i = f.inst[n]
            if k == "use" and i.op in ("call", "invoke"):
                v = f.val(i.ops[0])
                if v is not None and v.op == "alloca" and any(x in v.d.get("aty", "") for x in ("Decoder", "BitSource", "BitReader")):
                    loc[v.id] = v
        for a, v in sorted(loc.items()):
            key = s0.paths.key(["i", a])
            ins, outs = {}, {}
            for i in f.insts():
                p = None
                if i.op in ("call", "invoke") and i.callee and i.callee.startswith("llvm.memcpy"):
                    p = i.ops[0], i.ops[1]
                elif i.op == "store":
                    w = f.val(i.ops[0])
                    if w is not None and w.op == "load":
                        p = i.ops[1], w.ops[0]
                if p is None:
                    continue
                d, c = base(s0, p[0], key), base(s0, p[1], key)
                if d == key and c != key:
                    ins[i.id] = c
                elif c == key and d != key:
                    outs[i.id] = d
            s = Scen(f, mods, Premise())
            fin = suspended(f)
            good = vs.of(0, 7) if fin[1] is not None and vs.single(fin[1]) == 0 else vs.of(0, 1)

            def on(i, e, mm):
                c = vs.lo(e[("cnt", 0)])
                if i.id in ins:
                    c = 1
                elif i.id in outs:
                    c = 1
                elif st.kinds.get(i.id) == "use" and i.ops[0] == ["i", a]:
                    if c == 0:
                        return "hit"
                    c = 2
                e[("cnt", 0)] = vs.of(c)
                if i.op == "ret" and c == 2 and vs.meets(s.val(i.ops[0], e), good):
                    return "hit"
                return None
            s.run({("cnt", 0): vs.of(0)}, {}, on_inst=on)
            hits = s.marks
            if s.capped:
                raise AnalysisBroken("exploration of %s does not converge" % f.qual)
            same = set(map(str, ins.values())) == set(map(str, outs.values())) and bool(ins)
            ok = not hits and same
            rep.ob("R4", "%s: local copy '%s' of a decoder" % (f.qual, v.d.get("nm", a)), v.where() if "?" not in v.where() else d01.place(f), ok,
                   "" if ok else ("it is not taken from and returned to one place (%s, %s)" % (sorted(map(str, ins.values())), sorted(map(str, outs.values()))) if not same else
                                  "%s reached with the copy %s" % (hits[0][0].where(), "used but not written back" if hits[0][0].op == "ret" else "not loaded")))


def base(s, o, key):
    k = s.paths.key(o)
    while k is not None and k != key and k[0] in ("f", "x") and absx.local_root(k) is not None:
        k = k[1]
    if k is not None and k[0] == "f" and absx.local_root(k) is None:
        q = absx.field_of(k)
        return ("F",) + tuple(q) if isinstance(q, tuple) else k
    return k


def value(s, o, e):
    v = s.val(o, e)
    return vs.single(v) if v is not TOP and v else None


def pointer(s, o, e):
    """(what the address is based on, offset in bytes)."""
    off = 0
    for _ in range(8):
        v = s.fn.val(o)
        if v is None:
            return None
        if v.op == "getelementptr" and len(v.ops) == 2:
            d = value(s, v.ops[1], e)
            if d is None:
                return None
            off += d
            o = v.ops[0]
        elif v.op == "load":
            q = absx.field_of(s.paths.cell(v.ops[0], v.ty))
            return (q[1], off) if isinstance(q, tuple) else None
        elif v.op in ("call", "invoke"):
            return ("data()", off)
        else:
            return None
    return None


class Buf(object):
    """One of the buffer routines with concrete sizes: final fields and copies."""

    def __init__(self, um, fn, ent, args=(), same=None):
        m, mods = um
        self.f = m.one(fn)
        pr = Premise()
        for n, v in args:
            pr.arg(n, vs.of(v))
        if same is not None:
            d = vs.of(0) if same else vs.rng(1, 1 << 40)
            pr.rel(F("State", "data"), F("Buffer", "external_data"), d)
        s = self.s = Scen(self.f, mods, pr)
        for i in self.f.insts():
            if i.op == "store":     # final values are of interest even if not read here
                s.loaded.add(absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", ""))))
        self.out = []
        off = {}

        def on(i, e, mm):
            c = i.callee or ""
            if i.op == "getelementptr" and len(i.ops) == 2:
                q = pointer(s, ["i", i.id], e)
                if q:
                    off[i.id] = q
            if i.op in ("call", "invoke") and c.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
                n = value(s, i.ops[2], e)
                e[("cnt", 0)] = vs.of(vs.lo(e[("cnt", 0)]) + 1)
                self.moves.append((off.get(i.ops[0][1], pointer(s, i.ops[0], e)), off.get(i.ops[1][1], pointer(s, i.ops[1], e)), n))
            if i.op == "ret":
                self.out.append((value(s, i.ops[0], e) if i.ops else None, dict(mm)))
            return None
        self.moves = []
        ent = [x for x in ent if cells(s, x[:2])]
        s.run({("cnt", 0): vs.of(0)}, entry(s, *[(st, fd, vs.of(v)) for st, fd, v in ent]), on_inst=on)
        if len(self.out) != 1 or s.capped:
            raise AnalysisBroken("%s is not decided by its sizes" % self.f.qual)

    def get(self, st, fd):
        mm = self.out[0][1]
        r = [mm[k] for k in cells(self.s, (st, fd)) if mm.get(k) is not None]
        return vs.single(r[0]) if r else None


def buffers(rep, um):
    """Byte accounting of the read-ahead buffer, for concrete sizes."""
    X = 50
    bad = {}
    where = {}
    n = 0

    def say(fn, t):
        bad.setdefault(fn, t)
    # position and end of the caller's input are kept apart and restored
    b = Buf(um, "ChargeBuffer", [("State", "pos", 7), ("State", "len", 19)])
    if (b.get("Buffer", "external_pos"), b.get("Buffer", "external_len"), b.get("Buffer", "borrowed_len")) != (7, 19, 0):
        say("ChargeBuffer", "does not note position and end of the input")
    where["ChargeBuffer"] = d01.place(b.f)
    b = Buf(um, "UnchargeBuffer", [("Buffer", "external_pos", 7), ("Buffer", "external_len", 19)])
    if (b.get("State", "pos"), b.get("State", "len")) != (7, 19):
        say("UnchargeBuffer", "does not restore position and end of the input")
    where["UnchargeBuffer"] = d01.place(b.f)
    for d in (0, 1, 5, 599):
        for ext in (0, 1, 7, 599, 600, 601, 5000):
            n += 1
            b = Buf(um, "LoadInput", [("Buffer", "data_len", d), ("Buffer", "external_pos", X), ("Buffer", "external_len", X + ext)])
            where["LoadInput"] = d01.place(b.f)
            p, l = b.get("State", "pos"), b.get("State", "len")
            ctx = "with %d bytes kept and %d new ones: " % (d, ext)
            if d == 0:
                if (p, l) != (X, X + ext) or b.moves:
                    say("LoadInput", ctx + "reads %s..%s of the input" % (p, l))
                continue
            w = b.get("Buffer", "borrowed_len")
            if w is None or w > ext or (p, l) != (0, d + w):
                say("LoadInput", ctx + "offers %s..%s of the buffer, %s borrowed" % (p, l, w))
            elif b.moves != [(("data()", d), ("external_data", X), w)]:
                say("LoadInput", ctx + "copies %s" % b.moves)
            elif w < min(ext, 594):
                say("LoadInput", ctx + "borrows only %d, too few for the largest step" % w)
            elif d + w > 1200:
                say("LoadInput", ctx + "fills %d bytes" % (d + w))
    yes = (1, -1)
    for r in (0, 5, 7):
        for ext in (0, 1, 7, 599):
            for p in sorted(set((0, ext // 2, ext))):
                n += 1
                b = Buf(um, "UnloadInput", [("State", "pos", X + p), ("Buffer", "data_len", 0), ("Buffer", "external_pos", X),
                                            ("Buffer", "external_len", X + ext)], [(1, r)], True)
                where["UnloadInput"] = d01.place(b.f)
                ctx = "with %d of %d bytes of the input used, status %d: " % (p, ext, r)
                x, k = b.get("Buffer", "external_pos"), b.get("Buffer", "data_len")
                if r != 7:
                    if x != X + p or k not in (0, None) or b.out[0][0] not in yes:
                        say("UnloadInput", ctx + "position %s, %s kept" % (x, k))
                elif x != X + ext or k != ext - p or b.out[0][0] != 0 or [z for z in b.moves if z[2] != 0] != (
                        [(("data()", 0), ("external_data", X + p), ext - p)] if ext > p else []):
                    say("UnloadInput", ctx + "position %s, %s kept, copies %s" % (x, k, b.moves))
        for d in (1, 5, 599):
            for w in (0, 1, 7, 600):
                for p in sorted(set((0, 1, d - 1, d, d + 1, d + w))):
                    if p > d + w or (p < d and r == 7 and w == 600):
                        continue
                    n += 1
                    b = Buf(um, "UnloadInput", [("State", "pos", p), ("Buffer", "data_len", d), ("Buffer", "borrowed_len", w),
                                                ("Buffer", "external_pos", X), ("Buffer", "external_len", X + w)], [(1, r)], False)
                    ctx = "with %d of %d+%d buffered bytes used, status %d: " % (p, d, w, r)
                    x, k = b.get("Buffer", "external_pos"), b.get("Buffer", "data_len")
                    go = b.out[0][0] in yes
                    mv = [z for z in b.moves if z[2] != 0]
                    if p >= d:
                        if (x, k, go) != (X + p - d, 0, True) or mv:
                            say("UnloadInput", ctx + "position %s, %s kept" % (x, k))
                    else:
                        keep = d - p + (w if r == 7 else 0)
                        if (x, k, go) != (X + (w if r == 7 else 0), keep, r != 7) or (p and mv != [(("data()", 0), ("data()", p), keep)]):
                            say("UnloadInput", ctx + "position %s, %s kept, copies %s" % (x, k, mv))
    for fn in ("ChargeBuffer", "UnchargeBuffer", "LoadInput", "UnloadInput"):
        rep.ob("R6", "%s neither drops nor repeats input" % fn, where[fn], fn not in bad, bad.get(fn, ""))
    rep.count("buffer cases", n)


class Drive(object):
    """One of the drivers: memory at its call of the driven function and at its end."""

    def __init__(self, um, f, callee, pr, ent, after=False, watch=()):
        m, mods = um
        self.f = f
        self.s = s = Scen(f, mods, pr)
        for i in f.insts():
            if i.op == "store":
                s.loaded.add(absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", ""))))
        calls = [i for i in f.insts() if scen.call_is(i, callee, None, s)]
        if not calls:
            raise AnalysisBroken("no call of %s in %s" % (callee, f.qual))
        self.at = []
        self.out = []
        self.stores = []

        def on(i, e, mm):
            if not after and i in calls:
                self.at.append(dict(mm))
            if i.op == "store":
                self.stores.append((absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", ""))), i))
            if i.op == "ret":
                self.out.append((s.val(i.ops[0], e) if i.ops else None, dict(mm)))
            return None
        ent = [x for x in ent if cells(s, x[:2])]
        for c in calls if after else [None]:
            s.run({}, entry(s, *[(a, b, vs.of(v)) for a, b, v in ent]), on_inst=on, start=c)
        if s.capped:
            raise AnalysisBroken("exploration of %s does not converge" % f.qual)

    def vals(self, mems, st, fd):
        r = set()
        for mm in mems:
            for k in cells(self.s, (st, fd)):
                v = mm.get(k)
                r.add(vs.single(v) if v is not None and v is not TOP else None)
        return r

    def called(self, st, fd):
        return self.vals(self.at, st, fd)

    def final(self, st, fd):
        return self.vals([x[1] for x in self.out], st, fd)


def drivers(rep, um):
    m, mods = um
    f = m.one("ProcessJpeg")
    w = d01.place(f)
    once = lambda: Premise().call("UnloadInput", vs.of(0))

    def ob(key, ok, d):
        rep.ob("R5", key, w, ok, d)
    for k in range(6):
        d = Drive(um, f, "DoProcessJpeg", once(), [("State", "stage", 6), ("InternalState", "result", 7), ("InternalState", "last_stage", k)])
        got = (d.called("State", "stage"), d.called("InternalState", "result"))
        ob("interrupted stage %d is resumed" % k, bool(d.at) and got == ({k}, {0}), "driven with stage, result %s" % (got,))
        d = Drive(um, f, "DoProcessJpeg", once(), [("State", "stage", k), ("InternalState", "result", 0), ("InternalState", "last_stage", 3)])
        ob("stage %d goes on" % k, bool(d.at) and d.called("State", "stage") == {k}, "driven with stage %s" % d.called("State", "stage"))
    for r in list(range(7)) + [8]:
        d = Drive(um, f, "DoProcessJpeg", once(), [("State", "stage", 6), ("InternalState", "result", r), ("InternalState", "last_stage", 3)])
        got = set(vs.single(x[0]) if x[0] else None for x in d.out)
        ob("nothing is read after failure %d" % r, not d.at and got <= {r, 3}, "goes on" if d.at else "returns %s" % got)
    act = [("SectionState", "is_active", 1), ("State", "pos", 40), ("SectionState", "remaining", 100),
           ("SectionState", "milestone", 7), ("SectionState", "projected_end", 9)]
    pr = once().field("State", "pos", vs.of(40)).field("SectionState", "is_active", vs.of(1)).field("SectionState", "remaining", vs.of(100))
    d = Drive(um, f, "DoProcessJpeg", pr, act)
    got = (d.called("SectionState", "milestone"), d.called("SectionState", "projected_end"))
    ob("section limits follow the position in the new input", got == ({40}, {140}), "milestone, end %s" % (got,))
    d = Drive(um, f, "DoProcessJpeg", once(), [("SectionState", "is_active", 1), ("State", "pos", 57), ("SectionState", "milestone", 40),
                                               ("SectionState", "remaining", 100)], True)
    ob("what was consumed is taken off the section", d.final("SectionState", "remaining") == {83}, "%s left" % d.final("SectionState", "remaining"))
    d = Drive(um, f, "DoProcessJpeg", once(), [("SectionState", "is_active", 0), ("State", "pos", 57), ("SectionState", "milestone", 40),
                                               ("SectionState", "remaining", 100)], True)
    ob("outside of sections nothing is taken off", d.final("SectionState", "remaining") == {100}, "%s left" % d.final("SectionState", "remaining"))
    # order of the buffer routines; the status of a suspended step is on record (R1)
    seq = ["ChargeBuffer", "LoadInput", "DoProcessJpeg", "UnloadInput", "UnchargeBuffer"]
    after = {"ChargeBuffer": (None,), "LoadInput": ("ChargeBuffer", "UnloadInput"), "DoProcessJpeg": ("LoadInput",),
             "UnloadInput": ("DoProcessJpeg",), "UnchargeBuffer": ("UnloadInput",)}
    for r in (0, 5, 7):
        bad = set()
        seen = set()
        s = Scen(f, mods, Premise().field("InternalState", "result", vs.of(r)).call("DoProcessJpeg", vs.of(r)))

        def on(i, e, mm):
            last = seq[vs.lo(e[("cnt", 0)])] if e.get(("cnt", 0)) else None
            for k, n in enumerate(seq):
                if scen.call_is(i, n, None, s):
                    seen.add(n)
                    if last not in after[n]:
                        bad.add("%s after %s" % (n, last))
                    e[("cnt", 0)] = vs.of(k)
            if i.op == "ret" and last not in (None, "UnchargeBuffer", "ChargeBuffer"):
                bad.add("return after %s" % last)
            return None
        s.run({}, {}, on_inst=on)
        if s.capped or not set(seq) <= seen:
            raise AnalysisBroken("order of the buffer routines in %s is not decided" % f.qual)
        ob("the buffer is loaded and unloaded around every step that ends with %d" % r, not bad, "; ".join(sorted(bad)))
    dec = m.one("brunsli::BrunsliDecoder::Decode")
    s = Scen(dec, mods)
    w = d01.place(dec)
    d = Drive(um, dec, "ProcessJpeg", Premise().field("arg", "1", vs.of(77)), [])
    got = (d.called("State", "pos"), d.called("State", "len"))
    rep.ob("R5", "each call starts at the beginning of its own input", w, got == ({0}, {77}), "position, length %s" % (got,))
    dat = [i for i in dec.insts() if i.op == "store" and statefield(s.paths.cell(i.ops[1], i.d.get("vty", ""))) == ("State", "data")]
    calls = [i for i in dec.insts() if scen.call_is(i, "ProcessJpeg", None, s)]
    isarg = lambda o: dec.val(o) is not None and dec.val(o).op == "load" and dec.val(o).ops[0] == ["a", 2]
    rep.ob("R5", "each call reads its own input", w, bool(dat) and all(isarg(i.ops[0]) for i in dat) and
           all(any(before(dec, i, c) for i in dat) for c in calls), "input pointer not set before the step")
    # consumption as reported to the caller
    for a, avail in ((0, 77), (5, 77), (77, 77)):
        res = consumed(um, dec, calls, a, avail)
        rep.ob("R5", "%d bytes consumed are reported to the caller" % a, w, res == {(avail - a, a)},
               "remaining, advance: %s" % sorted(map(str, res)))


def consumed(um, f, calls, pos, avail):
    m, mods = um
    out = set()
    s = Scen(f, mods, Premise())
    for c in calls:
        def on(i, e, mm):
            if i.op == "getelementptr" and len(i.ops) == 2 and f.val(i.ops[0]) is not None and f.val(i.ops[0]).op == "load" and f.val(
                    i.ops[0]).ops[0] == ["a", 2]:
                v = value(s, i.ops[1], e)
                e[("off", i.id)] = vs.of(v) if v is not None else TOP
            if i.op == "store" and i.ops[1] == ["a", 2]:
                o = e.get(("off", i.ops[0][1]))
                e[("cnt", "adv")] = o
            if i.op == "store" and i.ops[1] == ["a", 1]:
                e[("cnt", "left")] = vs.of(value(s, i.ops[0], e)) if value(s, i.ops[0], e) is not None else TOP
            if i.op == "ret":
                g = lambda k: vs.single(e[k]) if e.get(k) not in (None, TOP) else None
                out.add((g(("cnt", "left")), g(("cnt", "adv"))))
            return None
        mem = entry(s, ("State", "pos", vs.of(pos)))
        for x in f.insts():
            if x.op == "load" and x.ops[0] == ["a", 1]:
                mem[s.paths.cell(x.ops[0], x.ty)] = vs.of(avail)
        s.run({}, mem, on_inst=on, start=c)
    return out


def run(rep):
    rep.rule("R1", "what a suspended step consumed or changed is on record", 40)
    rep.rule("R3", "loop variables survive suspension", 10)
    rep.rule("R4", "local copies of decoders are written back", 3)
    rep.rule("R5", "the drivers resume the interrupted step on the caller's bytes", 20)
    rep.rule("R6", "the read-ahead buffer keeps every byte once", 4)
    um = unit("dec", KEEP)
    steps(rep, um)
    carried(rep, um)
    copies(rep, um)
    drivers(rep, um)
    buffers(rep, um)
