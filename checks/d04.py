"""D04: restored output fits the caller's buffer and loses nothing.

R1  the serializer copies min(what is queued, what fits), accounts for exactly
    that, in order, and says "done" only when nothing is left
R2  writing through a sink hands over every byte once and stops at the first
    short write
R3  the output queue is first-in first-out: it is only appended to and only
    emptied at its front
R4  the bit writer stays inside its chunk and hands on all it wrote
R5  only coefficient rows that are there are written, and the interrupted scan
    is taken up where it stopped
"""
import re
from bsa import vs, scen
from checks.lib import *
from checks.a05 import argno
from checks.d02 import lastn

KEEP = ("SerializeSection", "SerializeJpeg", "WriteJpeg", "push_back", "emplace_back", "pop_front", "HasSection",
        "EncodeDCTBlockSequential", "EncodeDCTBlockProgressive", "EncodeRefinementBits", "JumpToByteBoundary",
        "EmitMarker", "WriteBits", "BitWriterInit", "BitWriterFinish", "Flush",
        "EncodeSOS")
Q = "std::deque<brunsli::internal::dec::OutputChunk"
CHUNK = 16384
PUSH = ("push_back", "emplace_back")


def um_fns(mach):
    """Functions of the repository, by symbol."""
    return {n: f for n, f in mach.f.mod.functions.items() if f.blocks and f.file.startswith(ir.build.REPO)}


def member(i):
    """Name of the queue's member function called, or None."""
    if i.op not in ("call", "invoke") or not i.cdem:
        return None
    return deque_member(i.cdem)


def deque_member(d):
    d = re.sub(r"^void ", "", d)
    if not d.startswith(Q):
        return None
    n, k = 0, 0
    for k, ch in enumerate(d):
        n += (ch == "<") - (ch == ">")
        if ch == ">" and not n:
            break
    m = re.match(r"::([\w~]+|operator.[^(]*)", d[k + 1:])
    return m.group(1) if m else None


def w(f):
    return f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line", "?"))


class Machine(object):
    """The serializer, run against a queue of equal chunks and a buffer."""
    POP, PSH, CPY, SEC, INI, FRO, AT = [("cnt", x) for x in range(7)]

    def __init__(self, um, room, size, queued, stage, sections, emits=0, status=3, started=0, version=0):
        m, mods = um
        self.f = f = m.one("SerializeJpeg")
        self.bad = []
        self.room, self.size = room, size
        ao, no = argno(f, "available_out", 2), argno(f, "next_out", 3)
        self.ao, self.no = ("a", ao), ("a", no)
        pr = Premise().field("State", "stage", vs.of(5)).field("JPEGData", "version", vs.of(version))
        pr.call("SerializeSection", vs.of(status)).call("HasSection", vs.of(1))
        s = self.s = Scen(f, mods, pr)
        s.ptrnum = True
        self.cellsof = {}
        st = [k for x in (("InternalState", "serialization"), ("SerializationState", "stage")) for k in cells(s, x)]
        if not st:
            raise AnalysisBroken("no stage of the serializer")
        self.st = st
        mem = {k: vs.of(stage) for k in st}
        mem[self.ao], mem[self.no] = vs.of(room), vs.of(0)
        ms = cells(s, ("SerializationState", "section_index"))
        if not ms:
            raise AnalysisBroken("no section_index")
        for k in ms:
            mem[k] = vs.of(started)
        self.idx, self.sections, self.emits = ms, sections, emits
        self.ends = []
        e0 = {self.POP: vs.of(0), self.PSH: vs.of(queued), self.CPY: vs.of(0), self.SEC: vs.of(started), self.INI: vs.of(0)}
        s.run(e0, mem, on_inst=self.on, after=self.after)
        if s.capped:
            raise AnalysisBroken("exploration of %s does not converge" % f.qual)

    def err(self, i, what):
        if len(self.bad) < 4:
            self.bad.append((i.where(), what))

    def g(self, e, k):
        return vs.single(e.get(k, vs.of(0)))

    def left(self, i, e, m):
        """A chunk delivered in part must be left pointing at its rest."""
        if e.get(self.FRO) is None or self.g(e, self.AT) != self.g(e, self.POP):
            return
        base, c = self.g(e, self.FRO), self.g(e, self.CPY)
        for k in self.cellsof.get(base, ()):
            want = c if k[1] == "next" else (self.g(e, self.POP) + 1) * self.size - c
            v = m.get(k[0])
            if v is None or vs.single(v) != want:
                self.err(i, "leaves %s of a chunk at %s where %d is due" % (k[1], vs.single(v) if v else "?", want))

    def fromout(self, o, d=0):
        v = self.f.val(o)
        if v is None or d > 8:
            return False
        if v.op == "load":
            return self.s.paths.cell(v.ops[0], v.ty) == self.no
        if v.op in ("getelementptr", "bitcast"):
            return self.fromout(v.ops[0], d + 1)
        if v.op in ("phi", "select"):
            return any(self.fromout(x, d + 1) for x in (v.ops if v.op == "phi" else v.ops[1:]))
        return False

    def on(self, i, e, m):
        s = self.s
        if i.op in ("call", "invoke", "store"):
            self.saved = {k: m[k] for k in m if k in (self.ao, self.no) or k in self.idx or k in self.st
                          or self.chunk(k)[0] is not None}
        if i.op in ("call", "invoke") or i.op == "store" and self.fromout(i.ops[1]):
            dst = src = n = None
            if i.op == "store":
                dst, n = i.ops[1], vs.of(1)
                v = self.f.val(i.ops[0])
                src = v.ops[0] if v is not None and v.op == "load" else None
            elif i.ops and re.search(r"mem(cpy|move)", i.callee or "") and self.fromout(i.ops[0]):
                dst, src, n = i.ops[0], i.ops[1], s.val(i.ops[2], e)
            elif i.callee and re.search(r"(^| |:)(copy_n)<", i.cdem or "") and self.fromout(i.ops[2]):
                dst, src, n = i.ops[2], i.ops[0], s.val(i.ops[1], e)
            elif any(self.fromout(o) for o in i.ops if o[0] == "i"):
                self.err(i, "hands the output pointer to an unknown function")
            if dst is not None:
                d, a, n = s.val(dst, e), s.val(src, e) if src else None, vs.single(n) if n is not None else None
                d, a = vs.single(d) if d else None, vs.single(a) if a else None
                c = self.g(e, self.CPY)
                if d is None or n is None or a is None or c is None:
                    self.err(i, "copies an amount or to a place that is not known")
                    return "stop"
                if d != c:
                    self.err(i, "writes at %d after %d bytes" % (d, c))
                if a != c:
                    self.err(i, "takes byte %d of the output where %d is due" % (a, c))
                if c + n > self.room:
                    self.err(i, "writes %d bytes into a buffer of %d" % (c + n, self.room))
                if c + n > self.g(e, self.POP) * self.size + self.size or n < 0:
                    self.err(i, "copies beyond the chunk")
                e[self.CPY] = vs.of(c + n)
        q = member(i)
        if q == "front" or i.op == "ret":
            self.left(i, e, m)
        if q in ("front",):
            if self.g(e, self.POP) >= self.g(e, self.PSH):
                self.err(i, "takes a chunk from an empty queue")
                return "stop"
        if i.op == "ret":
            v = s.val(i.ops[0], e)
            v = vs.single(v) if v else None
            left = m.get(self.ao)
            nxt = m.get(self.no)
            ix = [vs.single(m[k]) if m.get(k) else None for k in self.idx]
            self.ends.append((v, self.g(e, self.CPY), self.g(e, self.POP), self.g(e, self.PSH),
                              vs.single(left) if left else None, vs.single(nxt) if nxt else None, ix,
                              self.g(e, self.SEC), i))
        return None

    def after(self, i, e, m):
        s = self.s
        if i.op == "store":
            k = s.paths.cell(i.ops[1], i.d.get("vty", ""))
            m.update((a, v) for a, v in self.saved.items() if a != k)
            return
        if i.op not in ("call", "invoke"):
            return
        if not self.given(i):
            m.update(self.saved)
        q = member(i)
        if q == "empty":
            e[i.id] = vs.of(1 if self.g(e, self.POP) == self.g(e, self.PSH) else 0)
        elif q == "size":
            e[i.id] = vs.of(self.g(e, self.PSH) - self.g(e, self.POP))
        elif q == "front":
            e[self.FRO], e[self.AT] = vs.of(i.id), vs.of(self.g(e, self.POP))
            c = self.g(e, self.CPY) - self.g(e, self.POP) * self.size
            for u in self.f.insts():
                if u.op in ("load", "store"):
                    o = u.ops[0] if u.op == "load" else u.ops[1]
                    k = s.paths.cell(o, u.ty if u.op == "load" else u.d.get("vty", ""))
                    base, fld = self.chunk(k)
                    if base == i.id:
                        self.cellsof.setdefault(i.id, set()).add((k, fld))
                        m[k] = vs.of(c + self.g(e, self.POP) * self.size) if fld == "next" else vs.of(self.size - c)
        elif q == "pop_front":
            if self.g(e, self.CPY) != (self.g(e, self.POP) + 1) * self.size:
                self.err(i, "drops a chunk of which %d of %d bytes were delivered" % (
                    self.g(e, self.CPY) - self.g(e, self.POP) * self.size, self.size))
            e[self.POP] = vs.of(self.g(e, self.POP) + 1)
        elif q in PUSH:
            e[self.PSH] = vs.of(self.g(e, self.PSH) + 1)
        elif scen.call_is(i, "SerializeSection", None, s):
            if self.g(e, self.SEC) >= self.sections:
                self.err(i, "serializes a section that does not exist")
            n = self.g(e, self.SEC) + 1
            if n > self.sections + 1:
                return
            e[self.SEC] = vs.of(n)
            e[self.PSH] = vs.of(self.g(e, self.PSH) + self.emits)
        elif i.callee in um_fns(self) and any(member(x) in PUSH for x in um_fns(self)[i.callee].insts()):
            n = sum(1 for x in um_fns(self)[i.callee].insts() if member(x) in PUSH)
            e[self.PSH] = vs.of(self.g(e, self.PSH) + n)
        elif lastn((i.cdem or "").split("(")[0]) == "size" and i.ops:
            k = self.s.paths.key(i.ops[0])
            fld = absx.field_of(k) if k else None
            if isinstance(fld, tuple) and fld[1] == "marker_order":
                e[i.id] = vs.of(self.sections)
        elif lastn((i.cdem or "").split("(")[0]) == "empty" and i.ops:
            k = self.s.paths.key(i.ops[0])
            fld = absx.field_of(k) if k else None
            if isinstance(fld, tuple) and fld[1] == "marker_order":
                e[i.id] = vs.of(1 if not self.sections else 0)

    def given(self, i):
        """Is the call handed one of the cells followed here?"""
        ks = [self.s.paths.key(o) for o in i.ops if o[0] in ("i", "a")]
        return any(k in (self.ao, self.no) or k in self.idx or k in self.st for k in ks if k)

    def chunk(self, k):
        if k is None:
            return None, None
        if k[0] == "v":
            return k[1], "next"
        if k[0] == "f" and k[1][0] == "v" and k[3] in ("len", "next"):
            return k[1][1], k[3]
        return None, None


def serializer(rep, um):
    f = um[0].one("SerializeJpeg")
    OK, ERR, OUT, INP = 3, 2, 1, 0

    def ob(key, ok, where, d=""):
        rep.ob("R1", key, where, ok, d)
    for size in (1, 5):
        for queued in (0, 1, 3):
            for room in sorted(set((0, 1, 4, 5, 6, 10, 15, 16))):
                for stage, sections, emits in ((2, 0, 0), (1, 2, 1), (1, 1, 2), (1, 0, 0)):
                    run = Machine(um, room, size, queued, stage, sections, emits)
                    tot = (queued + sections * emits) * size
                    key = "room %d, %d chunks of %d queued, stage %d, %d sections of %d" % (room, queued, size, stage, sections, emits)
                    bad = list(run.bad)
                    if not run.ends:
                        bad.append((w(f), "never returns"))
                    for v, cpy, pop, psh, left, nxt, ix, sec, i in run.ends:
                        at = i.where()
                        if left != room - cpy:
                            bad.append((at, "reports room for %s after %d of %d" % (left, cpy, room)))
                        if nxt != cpy:
                            bad.append((at, "output pointer at %s after %d bytes" % (nxt, cpy)))
                        if v == OK and (cpy != tot or sec != sections):
                            bad.append((at, "done after %d of %d bytes" % (cpy, tot)))
                        elif v == OUT and cpy != room:
                            bad.append((at, "wants room with %d of %d used" % (cpy, room)))
                        elif v == OUT and cpy == tot and sec == sections:
                            bad.append((at, "wants room with everything delivered"))
                        elif v not in (OK, OUT):
                            bad.append((at, "returns status %s" % v))
                        if set(ix) != {sec}:
                            bad.append((at, "section index %s after %d sections" % (ix, sec)))
                    ob(key, not bad, bad[0][0] if bad else w(f), bad[0][1] if bad else "")
    # sections that can not go on
    for room in (0, 3, 9):
        for status, name in ((INP, "wait for input"), (ERR, "fail")):
            for started in (0, 2):
                run = Machine(um, room, 2, 1, 1, 3, 1, status, started)
                bad = list(run.bad)
                for v, cpy, pop, psh, left, nxt, ix, sec, i in run.ends:
                    at = i.where()
                    if v != (INP if status == INP else ERR):
                        bad.append((at, "returns status %s" % v))
                    if set(ix) != {started}:
                        bad.append((at, "section index moves to %s" % ix))
                    if left != room - cpy or nxt != cpy:
                        bad.append((at, "%s bytes written, room %s, pointer at %s" % (cpy, left, nxt)))
                    if status == INP and cpy != min(room, 4):
                        bad.append((at, "delivers %d of 4 bytes into room for %d" % (cpy, room)))
                if not run.ends:
                    bad.append((w(f), "never returns"))
                ob("sections from %d on that %s, room %d" % (started, name, room), not bad, bad[0][0] if bad else w(f), bad[0][1] if bad else "")
    for room in (0, 9):
        run = Machine(um, room, 2, 2, 3, 1, 1)
        bad = list(run.bad)
        for v, cpy, pop, psh, left, nxt, ix, sec, i in run.ends:
            if v != ERR or cpy:
                bad.append((i.where(), "returns %s after writing %d bytes" % (v, cpy)))
        ob("after a failure, room %d" % room, not bad and bool(run.ends), bad[0][0] if bad else w(f), bad[0][1] if bad else "")
    for room in (0, 1, 2, 3, 8):       # whole runs
        for sections, emits in ((1, 1), (2, 2)):
            run = Machine(um, room, 2, 0, 0, sections, emits)
            tot = 2 * (1 + sections * emits)
            bad = list(run.bad)
            for v, cpy, pop, psh, left, nxt, ix, sec, i in run.ends:
                if v == OK and cpy != tot or v == OUT and cpy != min(room, tot) or v not in (OK, OUT, ERR):
                    bad.append((i.where(), "returns %s after %d of %d bytes, room %d" % (v, cpy, tot, room)))
            if not any(x[0] == (OK if room >= tot else OUT) for x in run.ends):
                bad.append((w(f), "never gets through"))
            ob("from the start, %d sections of %d, room %d" % (sections, emits, room), not bad, bad[0][0] if bad else w(f), bad[0][1] if bad else "")


def sink(rep, um):
    """R2: WriteJpeg hands the serializer's output over, piece by piece."""
    m, mods = um
    f = m.one("WriteJpeg")
    size = CHUNK
    for ln in (None,):
        seq = [(1, 0), (1, 0), (3, 0)], [(1, 0), (3, 100)], [(3, size)], [(3, 0)], [(3, size - 1)], [(1, 0), (2, 0)], \
              [(0, size)], [(2, size)], [(1, 0), (0, 7)], [(1, 0), (1, 0), (3, size)]
    for steps in seq:
        for short in (None, 0, 1, 2):
            for by in (("one less", -1), ("none", None)):
                if short is None and by[0] == "none":
                    continue
                want, writes_ = True, 0
                for st, left in steps:
                    if st not in (1, 3):
                        want = False
                        break
                    if size - left > 0:
                        if short == writes_:
                            want = False
                            writes_ += 1
                            break
                        writes_ += 1
                if short is not None and short >= writes_:
                    continue
                key = "serializer: %s; sink: %s" % (
                    ", ".join("%s with %d left" % ({0: "needs input", 1: "needs room", 2: "error", 3: "done"}[a], b) for a, b in steps),
                    "takes all" if short is None else "write %d takes %s" % (short, by[0]))
                bad, ends = [], []
                N, W, PEND = ("cnt", 0), ("cnt", 1), ("cnt", 2)
                s = Scen(f, mods, Premise())
                s.ptrnum = True
                g = lambda e, k: vs.single(e.get(k, vs.of(0)))
                calls = [i for i in f.insts() if scen.call_is(i, "SerializeJpeg", None, s)]
                if not calls:
                    raise AnalysisBroken("WriteJpeg does not serialize")
                ao, no = [argno(m.one("SerializeJpeg"), x, y) for x, y in (("available_out", 2), ("next_out", 3))]
                cells_ = {}
                for c in calls:
                    cells_[c.id] = (s.paths.key(c.ops[ao]), s.paths.key(c.ops[no]))
                cap = [i for i in f.insts() if i.op in ("call", "invoke") and re.search(r"::vector\(unsigned long", i.cdem or "")]
                room = vs.single(s.val(cap[0].ops[1], {})) if cap else None
                if room is None:
                    raise AnalysisBroken("WriteJpeg's buffer has no constant size")
                scale = lambda left: left if room == size else left * room // size
                saved = {}

                def on(i, e, mm):
                    if i.op in ("call", "invoke", "store"):
                        saved.clear()
                        saved.update((k, mm[k]) for c in cells_.values() for k in c if k in mm)
                    if i in calls:
                        a, n = cells_[i.id]
                        av, nv = mm.get(a), mm.get(n)
                        if g(e, PEND):
                            bad.append((i.where(), "goes on before %d bytes were written" % g(e, PEND)))
                        if av != vs.of(room):
                            bad.append((i.where(), "announces room for %s of %d" % (show(av), room)))
                        if nv != vs.of(0):
                            bad.append((i.where(), "output does not start at the buffer"))
                        if g(e, N) >= len(steps):
                            bad.append((i.where(), "serializes again after the end"))
                            return "stop"
                    if i.op in ("call", "invoke") and i.callee is None:
                        if len(i.ops) < 3:
                            bad.append((i.where(), "unknown sink"))
                            return "stop"
                        b, n = s.val(i.ops[1], e), s.val(i.ops[2], e)
                        if b != vs.of(0):
                            bad.append((i.where(), "does not write from the start of the buffer"))
                        if n != vs.of(g(e, PEND)):
                            bad.append((i.where(), "writes %s of %d bytes" % (show(n), g(e, PEND))))
                    if i.op == "ret":
                        v = s.val(i.ops[0], e)
                        ends.append((vs.single(v) if v else None, g(e, N), g(e, W), g(e, PEND), i))

                def after(i, e, mm):
                    if i in calls:
                        a, n = cells_[i.id]
                        st, left = steps[g(e, N)]
                        left = scale(left)
                        e[i.id] = vs.of(st)
                        mm[a], mm[n] = vs.of(left), vs.of(room - left)
                        e[PEND] = vs.of(room - left)
                        e[N] = vs.of(g(e, N) + 1)
                    elif i.op in ("call", "invoke") and i.callee is None:
                        n = g(e, PEND)
                        r = n if short != g(e, W) else (n - 1 if by[1] == -1 else 0)
                        e[i.id] = vs.of(r)
                        e[W] = vs.of(g(e, W) + 1)
                        if r == n:
                            e[PEND] = vs.of(0)
                        mm.update(saved)
                    elif i.op in ("call", "invoke"):
                        nm = lastn(re.sub(r"<.*", "", (i.cdem or "").split("(")[0]))
                        if re.search(r"::data\(\)", i.cdem or ""):
                            e[i.id] = vs.of(0)
                        if re.search(r"::size\(\)", i.cdem or ""):
                            e[i.id] = vs.of(room)
                        ks = [s.paths.key(o) for o in i.ops if o[0] == "i"]
                        mm.update((k, v) for k, v in saved.items() if k not in ks)
                s._important()
                s.run({N: vs.of(0), W: vs.of(0), PEND: vs.of(0)}, {}, on_inst=on, after=after)
                if s.capped:
                    raise AnalysisBroken("exploration of WriteJpeg does not converge")
                for v, n, wr, pend, i in ends:
                    if v not in ((1, -1) if want else (0,)):
                        bad.append((i.where(), "reports %s" % {0: "failure", 1: "success", -1: "success", None: "anything"}[v]))
                    if v in (1, -1) and (pend or steps[n - 1][0] != 3):
                        bad.append((i.where(), "success with %d bytes left" % pend))
                if not ends:
                    bad.append((w(f), "never returns"))
                rep.ob("R2", key, bad[0][0] if bad else w(f), not bad, bad[0][1] if bad else "")


ALLOWED = {"deque", "~deque", "push_back", "emplace_back", "back", "front", "empty", "size", "pop_front"}


def queue(rep, um):
    m, mods = um
    n = 0
    for f in m.repo_fns():
        for i in f.insts():
            q = member(i)
            if q is None:
                continue
            n += 1
            rep.ob("R3", "%s in %s" % (q, f.qual), i.where(), q in ALLOWED, "%s may change the order of the output" % q)
            if q in ("pop_front", "front") and lastn(f.qual) != "SerializeJpeg":
                rep.ob("R3", "%s in %s takes output" % (q, f.qual), i.where(), False, "takes output that is not the caller's")
            if q in PUSH and re.search(r"emplace_back<(\w+ )*(int|long)", i.cdem):
                pass
    if not n:
        raise AnalysisBroken("no use of the output queue")


class Bits(object):
    """The bit writer's functions at one point."""

    def __init__(self, um, fn, pos, bits, buf, args=None, pads=None):
        m, mods = um
        self.f = f = m.one(fn)
        pr = Premise()
        for k, v in (args or {}).items():
            pr.arg(k, vs.of(v) if isinstance(v, int) else v)
        s = self.s = Scen(f, mods, pr)
        s.ptrnum = True
        self.B = B = "BitWriter"
        mem = {}
        self.first = {"pos": pos, "put_bits": bits, "put_buffer": buf, "healthy": vs.of(1)}
        for fl, v in (("pos", pos), ("put_bits", bits), ("put_buffer", buf), ("data", vs.of(0)), ("healthy", vs.of(1))):
            for k in cells(s, (B, fl)):
                mem[k] = v
        if pads is not None:
            pa, pe = argno(f, "pad_bits", 1), argno(f, "pad_bits_end", 2)
            mem[("a", pa)] = vs.of(PAD)
            pr.arg(pe, vs.of(PAD + 4 * len(pads)))
            self.pad = ("a", pa)
        elif "pad_bits" in fn or fn == "JumpToByteBoundary":
            self.pad = ("a", argno(f, "pad_bits", 1))
            mem[self.pad] = vs.of(0)
        else:
            self.pad = None
        self.pads = pads
        for i in f.insts():
            if i.op == "store":
                s.loaded.add(absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", ""))))
        self.bad, self.ends = [], []
        self.LEN = ("cnt", 0)
        self.SW = ("cnt", 1)
        s.run({self.LEN: vs.of(0), self.SW: vs.of(0)}, mem, on_inst=self.on, after=self.after)
        if s.capped:
            raise AnalysisBroken("exploration of %s does not converge" % f.qual)

    def isdata(self, o, d=0):
        v = self.f.val(o)
        if v is None or d > 8:
            return False
        if v.op == "load":
            q = absx.field_of(self.s.paths.cell(v.ops[0], v.ty))
            return isinstance(q, tuple) and q[1] == "data" and lastn(q[0]) == "BitWriter"
        if v.op in ("call", "invoke"):
            return bool(re.search(r"vector<unsigned char.*::data\(\)", v.cdem or ""))
        if v.op in ("getelementptr", "bitcast", "freeze"):
            return self.isdata(v.ops[0], d + 1)
        return v.op == "phi" and any(self.isdata(x, d + 1) for x in v.ops)

    def get(self, m, fl):
        r = set()
        for k in cells(self.s, (self.B, fl)):
            r.add(m.get(k))
        return r.pop() if len(r) == 1 else self.first[fl] if not r else None

    def on(self, i, e, m):
        s = self.s
        if i.op in ("store", "call", "invoke"):
            self.keep = {k: v for k, v in m.items() if self.own(k)}
        if i.op == "store" and self.isdata(i.ops[1]):
            p = s.val(i.ops[1], e)
            v = s.val(i.ops[0], e)
            n = vs.single(e[self.LEN])
            sz = int(i.d.get("vty", "i8")[1:] or 8) // 8 if i.d.get("vty", "i8")[0] == "i" else 99
            if p is None or vs.lo(p) < 0 or vs.hi(p) + sz > CHUNK:
                self.bad.append((i.where(), "writes at %s of a chunk of %d" % (show(p), CHUNK)))
            e[("out", n)] = v if v is not None else vs.full(8)
            e[("at", n)] = p if p is not None else vs.of(-1)
            e[self.LEN] = vs.of(n + 1)
        elif i.op in ("call", "invoke") and any(self.isdata(o) for o in i.ops if o[0] == "i") and not (i.callee or "").startswith("llvm.lifetime"):
            self.bad.append((i.where(), "hands the chunk to %s" % (i.cdem or i.callee)))
        q = member(i)
        if q in PUSH:
            ln = None
            for k in m:
                if k[0] == "f" and k[3] == "len" and k[1][0] == "f" and k[1][3] == "chunk":
                    ln = m[k]
            e[self.SW] = vs.of(1)
            e[("swap", 0)] = ln if ln is not None else vs.of(-1)
        if i.op == "ret":
            v = vs.single(s.val(i.ops[0], e)) if i.ops and s.val(i.ops[0], e) else None
            n = vs.single(e[self.LEN])
            self.ends.append((v, [e.get(("out", k)) for k in range(n)], [e.get(("at", k)) for k in range(n)],
                              self.get(m, "pos"), self.get(m, "put_bits"), self.get(m, "put_buffer"),
                              e.get(("swap", 0)), self.get(m, "healthy"), m.get(self.pad) if self.pad else None, i))
            return "stop"
        return None

    keep = {}

    def own(self, k):
        q = absx.field_of(k)
        return k == self.pad or isinstance(q, tuple) and (lastn(q[0]) == "BitWriter" or q[1] == "len")

    def after(self, i, e, m):
        s = self.s
        if i.op == "store":
            k = s.paths.cell(i.ops[1], i.d.get("vty", ""))
            m.update((a, v) for a, v in self.keep.items() if a != k)
        elif i.op in ("call", "invoke"):
            m.update(self.keep)
            if re.search(r"::data\(\)", i.cdem or ""):
                e[i.id] = vs.of(0)
        elif i.op == "load" and i.ty == "i32" and self.pads is not None:
            p = vs.single(s.val(i.ops[0], e)) if s.val(i.ops[0], e) else None
            if p is not None and PAD <= p < PAD + 4 * len(self.pads) and i.ops[0][0] == "i" and s.fn.val(i.ops[0]).op in ("phi", "getelementptr", "load"):
                e[i.id] = vs.of(self.pads[(p - PAD) // 4])


PAD = 1 << 20
M64 = (1 << 64) - 1


def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


def stuffed(bs):
    r = []
    for b in bs:
        r.append(b)
        if b == 255:
            r.append(0)
    return r


def bitwriter(rep, um):
    f = um[0].one("WriteBits")

    def judge(key, b, exp, pos, f):
        """exp: (result, bytes, put_bits, put_buffer, pads used, healthy)"""
        bad = list(b.bad)
        if not b.ends:
            bad.append((w(f), "never returns"))
        for v, out, at, p, bits, buf, swap, healthy, pad, i in b.ends:
            x = i.where()
            got = [vs.single(o) if o is not None else None for o in out]
            got = [o & 255 if o is not None else None for o in got]
            if exp[0] is not None and v != exp[0] and v != -exp[0]:
                bad.append((x, "returns %s" % v))
                continue
            if exp[0] == 0:
                continue
            if got != exp[1]:
                bad.append((x, "emits %s for %s" % (got, exp[1])))
            start = 0 if swap is not None else pos
            if [vs.single(a) if a else None for a in at] != list(range(start, start + len(out))):
                bad.append((x, "emits at %s from position %d on" % ([show(a) for a in at], start)))
            if p != vs.of(start + len(out)):
                bad.append((x, "position %s after %d bytes from %d" % (show(p), len(out), start)))
            if swap is not None and swap != vs.of(pos):
                bad.append((x, "hands on %s of %d bytes" % (show(swap), pos)))
            if bits != vs.of(exp[2]):
                bad.append((x, "%s free bits where %d are" % (show(bits), exp[2])))
            if buf != vs.of(s64(exp[3])):
                bad.append((x, "holds bits %s" % show(buf)))
            if pad is not None and exp[4] is not None and pad != vs.of(exp[4]):
                bad.append((x, "padding bits at %s" % show(pad)))
            if healthy != vs.of(exp[5]) and not (healthy is not None and vs.single(healthy) == -exp[5]):
                bad.append((x, "health is %s" % show(healthy)))
        rep.ob("R4", key, bad[0][0] if bad else w(f), not bad, bad[0][1] if bad else "")
    nb, ba = argno(f, "nbits", 1), argno(f, "bits", 2)
    pats = (0, M64, 0xFF00FF00FF00FF00, 0x123456789ABCDEF0, 0x00FFFFFF000000FF)
    for p in (17, 18, 24, 25, 32, 48, 63, 64):
        for n in (0, 1, 8, 15, 16):
            for P in pats[:] if n in (1, 16) else pats[:2]:
                P0 = P & (M64 << p) & M64 if p < 64 else 0
                for v in (0, (1 << n) - 1):
                    for pos in (0, CHUNK - 12, CHUNK - 6, CHUNK) if n == 16 else (100,):
                        b = Bits(um, "WriteBits", vs.of(pos), vs.of(p), vs.of(s64(P0)), {nb: n, ba: v})
                        q = p - n
                        buf = P0 | v << q
                        out = []
                        if n and q <= 16:
                            out = stuffed([buf >> k & 255 for k in (56, 48, 40, 32, 24, 16)])
                            buf, q = buf << 48 & M64, q + 48
                        judge("%d bits %x after %x, %d free, position %d" % (n, v, P0, p, pos), b,
                              (None, out, q, buf, None, 1 if n else 0), pos, f)
    f = um[0].one("JumpToByteBoundary")
    for p in range(17, 65):
        for P in pats:
            P0 = P & (M64 << p) & M64 if p < 64 else 0
            for pos in (100, CHUNK - 16, CHUNK - 3) if P == M64 else (100,):
                for pads in (None, [1, 0, 1, 1, 0, 0, 1][:p & 7], [0] * (p & 7), [1, 0, 1, 0, 1, 0, 1][:max(0, (p & 7) - 1)]):
                    if pads is not None and P not in pats[:2]:
                        continue
                    b = Bits(um, "JumpToByteBoundary", vs.of(pos), vs.of(p), vs.of(s64(P0)), {}, pads)
                    n = p & 7
                    ok = pads is None or len(pads) >= n
                    fill = (1 << n) - 1 if pads is None else int("".join(map(str, pads)) or "0", 2)
                    used = 64 - p
                    val = (P0 >> p) << n | fill if p < 64 else 0
                    k = (used + n) // 8
                    out = stuffed([val >> 8 * (k - 1 - j) & 255 for j in range(k)]) if ok else []
                    judge("to the byte boundary with %d free bits after %x, padding %s, position %d" % (
                        p, P0, "ones" if pads is None else pads, pos), b,
                        (1 if ok else 0, out, 64, 0, (PAD + 4 * n) if pads is not None else None, 1), pos, f)
    f = um[0].one("EmitMarker")
    mk = argno(f, "marker", 1)
    for v in (0xD0, 0xD7):
        for pos in (0, CHUNK - 2, CHUNK - 1, CHUNK):
            b = Bits(um, "EmitMarker", vs.of(pos), vs.of(64), vs.of(0), {mk: v})
            judge("marker %x at %d" % (v, pos), b, (None, [255, v], 64, 0, None, 1), pos, f)
    for fn, pos, bits in (("WriteBits", vs.rng(0, CHUNK), vs.rng(17, 64)), ("EmitMarker", vs.rng(0, CHUNK), vs.of(64)),
                          ("JumpToByteBoundary", vs.rng(0, CHUNK), None)):
        f = um[0].one(fn)
        for p in [bits] if bits is not None else [vs.of(x) for x in range(17, 65)]:
            b = Bits(um, fn, pos, p, None, {nb: vs.rng(0, 16)} if fn == "WriteBits" else {}, None if fn != "JumpToByteBoundary" else None)
            rep.ob("R4", "%s stays inside the chunk from anywhere, %s free bits" % (fn, show(p)), b.bad[0][0] if b.bad else w(f),
                   not b.bad and bool(b.ends), b.bad[0][1] if b.bad else "never returns")
    f = um[0].one("BitWriterFinish")
    for pos in (0, 1, 77, CHUNK):
        b = Bits(um, "BitWriterFinish", vs.of(pos), vs.of(64), vs.of(0))
        bad = list(b.bad)
        for x in b.ends:
            if (x[6] is not None) != (pos > 0) or pos and x[6] != vs.of(pos):
                bad.append((x[-1].where(), "hands on %s of %d bytes" % (show(x[6]) if x[6] else "none", pos)))
            if x[3] != vs.of(0):
                bad.append((x[-1].where(), "position is %s afterwards" % show(x[3])))
        rep.ob("R4", "finish with %d bytes" % pos, bad[0][0] if bad else w(f), not bad and bool(b.ends), bad[0][1] if bad else "")


SCAN_FIELDS = ("mcu_y", "restarts_to_go", "next_restart_marker", "block_scan_index", "extra_zero_runs_pos",
               "next_extra_zero_run_index", "next_reset_point_pos", "next_reset_point")
MODES = {"EncodeDCTBlockSequential": 0, "EncodeDCTBlockProgressive": 1, "EncodeRefinementBits": 2}


class World(object):
    """One picture, one scan, one state of progress."""

    def __init__(self, **k):
        self.comps = [(1, 1, 1)]          # h, v, blocks per row
        self.scan = [(0, 2, 3)]           # component, dc table, ac table
        self.w, self.h = 8, 24
        self.dri = 0
        self.resets, self.runs = [], []
        self.prog, self.Ss, self.Se, self.Al, self.Ah = 0, 0, 63, 0, 0
        self.stage, self.ac, self.row = 5, 1, 0
        self.at = None                    # saved state, None: start of the scan
        self.failblock = self.failpad = self.failsos = None
        self.healthy = 1
        self.pads = True
        self.__dict__.update(k)

    def model(self):
        ev = []
        H, V = max(c[0] for c in self.comps), max(c[1] for c in self.comps)
        st = dict(self.at) if self.at else None
        runs = [r[0] for r in self.runs]
        nxt = lambda l, p: l[p] if p < len(l) else -1
        if st is None:
            ev.append(("sos",))
            if self.failsos:
                return ev, 2, None
            ev.append(("init",))
            st = dict(mcu_y=0, restarts_to_go=self.dri, next_restart_marker=0, block_scan_index=0, extra_zero_runs_pos=0,
                      next_extra_zero_run_index=nxt(runs, 0), next_reset_point_pos=min(1, len(self.resets)),
                      next_reset_point=nxt(self.resets, 0))
            ev.append(("zero",))
        inter = len(self.scan) > 1
        base = self.comps[self.scan[0][0]]
        hg, vg = (1, 1) if inter else (base[0], base[1])
        cols = -(-self.w * hg // (8 * H))
        rows = -(-self.h * vg // (8 * V))
        Ss, Se = (self.Ss, self.Se) if self.prog else (0, 63)
        wac = Ss != 0 or Se != 0
        cac = self.stage == 5
        hac = cac or self.ac
        if wac and not hac:
            return ev, 0, st
        complete = cac if wac else hac
        last = rows if complete else self.row * vg
        pads = 0
        while st["mcu_y"] < last:
            for x in range(cols):
                if self.dri > 0 and st["restarts_to_go"] == 0:
                    ev.append(("flush",))
                    ev.append(("pad",))
                    pads += 1
                    if self.failpad == pads:
                        return ev, 2, None
                    ev.append(("marker", 0xD0 + st["next_restart_marker"]))
                    st["next_restart_marker"] = (st["next_restart_marker"] + 1) & 7
                    st["restarts_to_go"] = self.dri
                    ev.append(("zero",))
                for c, dc, ac in self.scan:
                    h, v, wb = self.comps[c]
                    nx, ny = (h, v) if inter else (1, 1)
                    for iy in range(ny):
                        for ix in range(nx):
                            if st["block_scan_index"] == st["next_reset_point"]:
                                ev.append(("flush",))
                                st["next_reset_point"] = nxt(self.resets, st["next_reset_point_pos"])
                                st["next_reset_point_pos"] = min(st["next_reset_point_pos"] + 1, len(self.resets))
                            z = 0
                            if st["block_scan_index"] == st["next_extra_zero_run_index"]:
                                z = self.runs[st["extra_zero_runs_pos"]][1]
                                st["extra_zero_runs_pos"] += 1
                                st["next_extra_zero_run_index"] = nxt(runs, st["extra_zero_runs_pos"])
                            n = sum(1 for e in ev if e[0] == "block")
                            ev.append(("block", 64 * ((st["mcu_y"] * ny + iy) * wb + x * nx + ix), c, dc, ac, z))
                            if self.failblock == n:
                                return ev, 2, None
                            st["block_scan_index"] += 1
                st["restarts_to_go"] -= 1
            st["mcu_y"] += 1
        if st["mcu_y"] < rows:
            return (ev, 2, None) if not self.healthy else (ev, 0, st)
        ev.append(("flush",))
        ev.append(("pad",))
        if self.failpad == pads + 1:
            return ev, 2, None
        ev.append(("finish",))
        return ev, 3 if self.healthy else 2, None


class ScanRun(object):
    def __init__(self, um, f, wd, mode):
        m, mods = um
        self.f, self.wd, self.m = f, wd, m
        pr = Premise()
        H, V = max(c[0] for c in wd.comps), max(c[1] for c in wd.comps)
        pr.call("HasSection", vs.of(wd.ac))
        s = self.s = Scen(f, mods, pr)
        s.visits = s.project = 100000
        self.bad, self.ends, self.tab = [], [], {}
        sc = {"scan_index": 3, "seen_dri_marker": 1 if wd.dri else 0, "is_progressive": wd.prog}
        mem = {}

        def put(st, fl, v, need=False):
            ks = cells(s, (st, fl))
            if need and not ks:
                raise AnalysisBroken("%s does not look at %s.%s" % (f.qual, st, fl))
            for k in ks:
                mem[k] = vs.of(v)
        for k, v in sc.items():
            put("SerializationState", k, v)
        put("JPEGData", "restart_interval", wd.dri)
        for st in (("JPEGData", "max_h_samp_factor", H), ("JPEGData", "max_v_samp_factor", V), ("JPEGData", "height", wd.h),
                   ("JPEGData", "width", wd.w)):
            put(*st)
        ja, pa = argno(f, "jpg", 0), argno(f, "parsing_state", 1)
        mem[("a", ja)], mem[("a", pa)] = vs.of(wd.w), vs.of(wd.stage)
        self.stage = [k for x in (("SerializationState", "scan_state"), ("EncodeScanState", "stage")) for k in cells(s, x)]
        if not self.stage:
            raise AnalysisBroken("no stage of the scan")
        for k in self.stage:
            mem[k] = vs.of(1 if wd.at else 0)
        put("AcDcState", "next_mcu_y", wd.row)
        put("InternalState", "ac_dc", wd.row)
        put("State", "stage", wd.stage)
        put("BitWriter", "healthy", wd.healthy)
        for fl in SCAN_FIELDS:
            if wd.at:
                put("EncodeScanState", fl, wd.at[fl])
        self.healthy = [k for k in mem if k[0] == "f" and k[3] in ("healthy", "bw")]
        for i in f.insts():
            if i.op == "store":
                s.loaded.add(absx.field_of(s.paths.cell(i.ops[1], i.d.get("vty", ""))))
        self.N = ("cnt", 0)
        s._important()
        s._imp[0].update(i.id for i in f.insts())
        self.f_uses()
        s.run({self.N: vs.of(0), ("cnt", 1): vs.of(0), ("cnt", 2): vs.of(0)}, mem, on_inst=self.on, after=self.after, cap=20000)
        if s.capped:
            raise AnalysisBroken("exploration of %s does not converge" % f.qual)

    def f_uses(self):
        """Values needed as indices stay known until then."""
        for b in self.f.blocks:
            self.s.livein[b.id] = set(self.s.livein[b.id]) | self.keepvals()

    def keepvals(self):
        if not hasattr(self, "_kv"):
            self._kv = set()
            for i in self.f.insts():
                if i.op == "getelementptr":
                    self._kv.update(o[1] for o in i.ops[1:] if o[0] == "i")
                if i.op in ("call", "invoke"):
                    self._kv.update(o[1] for o in i.ops if o[0] == "i")
        return self._kv

    def ev(self, e, *x):
        n = vs.single(e[self.N])
        if x == ("zero",) and n and self.tab.get(vs.single(e[("ev", n - 1)])) == x:
            return
        c = hash(x) & 0xFFFFFFF
        self.tab[c] = x
        e[("ev", n)] = vs.of(c)
        e[self.N] = vs.of(n + 1)
        if n > 400:
            raise AnalysisBroken("the scan does not end")

    def one(self, o, e):
        v = self.s.val(o, e)
        return vs.single(v) if v is not None else None

    def elem(self, o, e, d=0):
        """(struct, field, index) of the container element address o is in."""
        v = self.f.val(o)
        if v is None or d > 6:
            return None
        if v.op == "getelementptr":
            k = self.s.paths.key(v.ops[0])
            r = self.elem(v.ops[0], e, d + 1)
            if r:
                return r
            q = absx.field_of(k) if k else None
            if isinstance(q, tuple) and v.ops[-1][0] != "n" and q[1] not in SCAN_FIELDS:
                n = self.one(v.ops[-1], e)
                return (lastn(q[0]), q[1], n)
            return None
        if v.op in ("call", "invoke") and re.search(r"operator\[\]|::at\(", v.cdem or ""):
            q = absx.field_of(self.s.paths.key(v.ops[0]))
            n = e.get(("ix", v.id))
            if isinstance(q, tuple) and n is not None:
                return (lastn(q[0]), q[1], vs.single(n))
        return None

    def on(self, i, e, m):
        s, wd = self.s, self.wd
        self.keep = dict(m)
        if i.op in ("call", "invoke"):
            if re.search(r"operator\[\]|::at\(", i.cdem or "") and len(i.ops) > 1:
                n = self.one(i.ops[1], e)
                if n is not None:
                    e[("ix", i.id)] = vs.of(n)
                else:
                    e.pop(("ix", i.id), None)
            g = self.m.functions.get(i.callee)
            n = lastn(g.qual.split("<")[0]) if g else None
            if n == "EncodeSOS":
                self.ev(e, "sos")
            elif n == "BitWriterInit":
                self.ev(e, "init")
            elif n == "Flush":
                self.ev(e, "flush")
            elif n == "JumpToByteBoundary":
                self.ev(e, "pad")
                e[("cnt", 1)] = vs.of(vs.single(e[("cnt", 1)]) + 1)
            elif n == "EmitMarker":
                self.ev(e, "marker", self.one(i.ops[argno(g, "marker", 1)], e))
            elif n == "BitWriterFinish":
                self.ev(e, "finish")
            elif n in MODES:
                a = lambda nm: i.ops[argno(g, nm, 0)]
                x = self.elem(a("coeffs"), e)
                ac = self.elem(a("ac_huff"), e)
                dc = self.elem(a("dc_huff"), e) if n != "EncodeRefinementBits" else None
                z = self.one(a("num_zero_runs"), e) if n != "EncodeRefinementBits" else None
                p = self.place(a("last_dc_coeff"), e) if n != "EncodeRefinementBits" else None
                cf = self.comp(a("coeffs"), e)
                for nm, want in (("Ss", wd.Ss), ("Se", wd.Se), ("Al", wd.Al)):
                    if n != "EncodeDCTBlockSequential" and self.one(a(nm), e) != want:
                        self.bad.append((i.where(), "%s is %s where the scan says %s" % (nm, self.one(a(nm), e), want)))
                if dc is not None and dc[1] != "dc_huff_table" or ac and ac[1] != "ac_huff_table":
                    self.bad.append((i.where(), "uses %s for the DC and %s for the AC code" % (dc, ac)))
                self.ev(e, "block", x[2] if x else None, cf, p, dc[2] if dc else None, ac[2] if ac else None, z)
                e[("cnt", 2)] = vs.of(vs.single(e[("cnt", 2)]) + 1)
            elif (i.callee or "").startswith("llvm.memset"):
                k = s.paths.key(i.ops[0])
                if k is not None and "last_dc_coeff" in str(k):
                    self.ev(e, "zero")
        if i.op == "store":
            k = s.paths.cell(i.ops[1], i.d.get("vty", ""))
            if k is not None and "last_dc_coeff" in str(k):
                self.ev(e, "zero")
        if i.op == "ret":
            st = {fl: self.cell(m, "EncodeScanState", fl) for fl in SCAN_FIELDS}
            n = vs.single(e[self.N])
            self.ends.append((self.one(i.ops[0], e), [self.tab[vs.single(e[("ev", k)])] for k in range(n)], st,
                              self.cell(m, "SerializationState", "scan_index"),
                              vs.single(m[self.stage[0]]) if m.get(self.stage[0]) else None, i))
            return "stop"

    def cell(self, m, st, fl):
        r = set(vs.single(m[k]) if m.get(k) else None for k in cells(self.s, (st, fl)))
        return r.pop() if len(r) == 1 else None

    def place(self, o, e, d=0):
        """Index into last_dc_coeff."""
        v = self.f.val(o)
        if v is not None and v.op == "getelementptr":
            k = self.s.paths.key(v.ops[0])
            if k is not None and "last_dc_coeff" in str(k) and len(v.ops) == 2:
                return self.one(v.ops[1], e)
            if len(v.ops) > 2 and "last_dc_coeff" in str(self.s.paths.key(o)):
                return self.one(v.ops[-1], e) if len(v.ops) > 3 else 0
        return None

    def comp(self, o, e, d=0):
        """Which component's coefficients."""
        v = self.f.val(o)
        while v is not None and d < 8:
            d += 1
            if v.op in ("call", "invoke") and v.ops:
                q = absx.field_of(self.s.paths.key(v.ops[0]))
                if isinstance(q, tuple) and q[1] == "components":
                    n = e.get(("ix", v.id))
                    return vs.single(n) if n is not None else None
                v = self.f.val(v.ops[0])
            elif v.op == "getelementptr":
                v = self.f.val(v.ops[0])
            else:
                return None
        return None

    def after(self, i, e, m):
        s, wd = self.s, self.wd
        if i.op in ("call", "invoke"):
            g = self.m.functions.get(i.callee)
            n = lastn(g.qual.split("<")[0]) if g else None
            m.clear()
            m.update(self.keep)
            if n == "EncodeSOS":
                e[i.id] = vs.of(0 if wd.failsos else 1)
            elif n == "JumpToByteBoundary":
                e[i.id] = vs.of(0 if wd.failpad == vs.single(e[("cnt", 1)]) else 1)
            elif n in MODES:
                e[i.id] = vs.of(0 if wd.failblock == vs.single(e[("cnt", 2)]) - 1 else 1)
            elif re.search(r"::size\(\)|::empty\(\)", i.cdem or "") and i.ops:
                q = absx.field_of(s.paths.key(i.ops[0]))
                ln = {"extra_zero_runs": len(wd.runs), "reset_points": len(wd.resets), "scan_info": 5,
                      "components": len(wd.comps)}.get(q[1] if isinstance(q, tuple) else None)
                if ln is not None:
                    e[i.id] = vs.of(ln if "size" in i.cdem else int(not ln))
        elif i.op == "load" and i.ty[0] == "i":
            x = self.elem(i.ops[0], e)
            if x is None:
                return
            k = s.paths.cell(i.ops[0], i.ty)
            st, fl, n = x
            last = k[3] if k is not None and k[0] == "f" else None
            v = None
            if fl == "scan_info":
                v = {"num_components": len(wd.scan), "Ss": wd.Ss, "Se": wd.Se, "Al": wd.Al, "Ah": wd.Ah}.get(last)
                if last is None or last == "scan_info":
                    v = wd.Ss
            elif fl == "components" and st == "JPEGScanInfo" and n is not None and 0 <= n < len(wd.scan):
                c = dict(zip(("comp_idx", "dc_tbl_idx", "ac_tbl_idx"), wd.scan[n]))
                v = c.get(last, c["comp_idx"] if last in (None, "components") else None)
            elif fl == "components" and st == "JPEGData" and n is not None and 0 <= n < len(wd.comps):
                c = dict(zip(("h_samp_factor", "v_samp_factor", "width_in_blocks"), wd.comps[n]))
                v = c.get(last)
            elif fl == "extra_zero_runs" and n is not None:
                if not 0 <= n < len(wd.runs):
                    self.bad.append((i.where(), "looks at zero run %d of %d" % (n, len(wd.runs))))
                else:
                    # (block, count); the unnamed record may be merged with
                    # another one, so its members are told apart by place
                    v = wd.runs[n][1 if last is not None and last not in ("block_idx", fl) else 0]
            elif fl == "reset_points" and n is not None:
                if not 0 <= n < len(wd.resets):
                    self.bad.append((i.where(), "looks at reset point %d of %d" % (n, len(wd.resets))))
                else:
                    v = wd.resets[n]
            if v is not None:
                e[i.id] = vs.of(v)
        elif i.op == "store":
            k = s.paths.cell(i.ops[1], i.d.get("vty", ""))
            m.update((a, v) for a, v in self.keep.items() if a != k)


def scans(rep, um):
    m = um[0]

    def kinds(f):
        gs = [m.functions.get(i.callee) for i in f.insts() if i.op in ("call", "invoke")]
        return set(MODES[n] for n in [lastn(g.qual.split("<")[0]) for g in gs if g] if n in MODES)
    fs = [f for f in m.functions.values() if f.blocks and f.file.startswith(ir.build.REPO + "/c/dec") and kinds(f)]
    if not fs:
        raise AnalysisBroken("no scan encoder")
    done = set()
    for f in fs:
        modes = kinds(f)
        if len(modes) != 1:
            raise AnalysisBroken("%s encodes blocks in more than one way" % f.qual)
        mode = modes.pop()
        done.add(mode)
        p = dict(prog=1 if mode else 0)
        if mode:
            p.update(Ss=1, Se=5, Al=1, Ah=2 if mode == 2 else 0)
        inter = dict(comps=[(2, 2, 4), (1, 1, 2), (1, 2, 3)], scan=[(0, 0, 1), (2, 1, 0), (1, 2, 3)], w=32, h=32)
        worlds = [
            ("one component", {}), ("one component, 3 columns", dict(w=24, comps=[(1, 1, 3)])),
            ("4:2:0 luma alone", dict(comps=[(2, 2, 4), (1, 1, 2)], scan=[(0, 1, 2)], w=25, h=25)),
            ("4:2:0 chroma alone", dict(comps=[(2, 2, 4), (1, 1, 2)], scan=[(1, 1, 2)], w=25, h=25)),
            ("three components", inter), ("restart every 1", dict(dri=1, w=16, comps=[(1, 1, 2)])),
            ("restart every 2", dict(dri=2, w=24, h=32, comps=[(1, 1, 3)])), ("restart every 2, interleaved", dict(inter, dri=2)),
            ("ten restarts", dict(dri=1, w=80, h=8, comps=[(1, 1, 10)])),
            ("reset points", dict(resets=[0, 2], w=16, comps=[(1, 1, 2)])),
            ("reset point at the end", dict(resets=[5], w=16, comps=[(1, 1, 2)])),
            ("zero runs", dict(runs=[(1, 2), (4, 1)], w=16, comps=[(1, 1, 2)])),
            ("everything", dict(inter, dri=1, resets=[1, 3, 8], runs=[(0, 1), (7, 3), (9, 1)])),
        ]
        full = []
        for name, k in worlds:
            full.append((name, World(**dict(p, **k))))
        for name, k in worlds:
            base = dict(p, **k)
            # rows arrive one by one
            rows = 2 if "inter" in name or name in ("three components", "everything") else 3
            for row in range(rows):
                if mode and (base["Ss"], base["Se"]) == (0, 0):
                    continue
                w1 = World(**dict(base, stage=3, row=row))
                ev, r, st = w1.model()
                if r != 0:
                    continue
                full.append((name + ", %d rows there" % row, w1))
                full.append((name + ", the rest after %d rows" % row, World(**dict(base, at=st))))
                if row == 0 and rows > 1:
                    full.append((name + ", 1 row after none", World(**dict(base, at=st, stage=3, row=1))))
            full.append((name + ", no AC yet", World(**dict(base, stage=3, ac=0, row=1))))
        full.append(("start fails", World(**dict(p, failsos=True))))
        for n in (0, 1):
            full.append(("block %d fails" % n, World(**dict(p, failblock=n))))
            full.append(("padding %d fails" % n, World(**dict(p, dri=1, failpad=n + 1))))
        full.append(("padding at the end fails", World(**dict(p, failpad=1))))
        full.append(("missing code", World(**dict(p, healthy=0))))
        full.append(("missing code in a part", World(**dict(p, healthy=0, stage=3, row=1))))
        if mode < 2:
            dc = dict(prog=1, Ss=0, Se=0, Al=1 if mode else 0, Ah=0)
            if mode == 1:
                for ac, row in ((0, 1), (1, 0), (0, 0), (0, 2)):
                    full.append(("DC scan, AC %s, %d rows" % ("there" if ac else "missing", row), World(**dict(dc, stage=3, ac=ac, row=row))))
        if mode == 0:
            full.append(("progressive file, full scan", World(prog=1, Ss=0, Se=63, Al=0)))
        for name, wd in full:
            ev, ret, st = wd.model()
            run = ScanRun(um, f, wd, mode)
            bad = list(run.bad)
            want = []
            for x in ev:
                if x[0] == "block":
                    x = ("block", x[1], x[2], x[2] if mode != 2 else None, x[3] if mode != 2 else None, x[4], x[5] if mode != 2 else None)
                want.append(x)
            if not run.ends:
                bad.append((w(f), "never returns"))
            for r, got, gst, idx, stage, i in run.ends:
                at = i.where()
                if got != want:
                    k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                    bad.append((at, "step %d is %s where %s is due" % (k, got[k] if k < len(got) else "the end", want[k] if k < len(want) else "the end")))
                elif r != ret:
                    bad.append((at, "returns %s where %d is due" % (r, ret)))
                elif st is not None and {a: b for a, b in gst.items() if b is not None} != {a: st[a] for a in gst if gst[a] is not None}:
                    d = [a for a in gst if gst[a] is not None and gst[a] != st[a]]
                    bad.append((at, "suspended with %s %s instead of %s" % (d[0], gst[d[0]], st[d[0]])))
                elif ret == 0 and (idx != 3 or stage not in (1,)):
                    bad.append((at, "suspended in scan %s, stage %s" % (idx, stage)))
                elif ret == 3 and (idx != 4 or stage != 0):
                    bad.append((at, "scan done but scan %s, stage %s next" % (idx, stage)))
            rep.ob("R5", "mode %d: %s" % (mode, name), bad[0][0] if bad else w(f), not bad, bad[0][1] if bad else "")
    if done != {0, 1, 2}:
        raise AnalysisBroken("scan encoders: %s" % done)


def run(rep):
    rep.rule("R1", "what fits is copied, accounted for and in order; done means all was delivered", 200)
    rep.rule("R2", "a sink gets every byte once; a short write is a failure", 20)
    rep.rule("R3", "the output queue is first-in first-out", 15)
    rep.rule("R4", "the bit writer stays in its chunk and hands on what it wrote", 400)
    rep.rule("R5", "scans are written from the rows that are there, and taken up where they stopped", 100)
    um = unit("dec", KEEP)
    serializer(rep, um)
    sink(rep, um)
    queue(rep, um)
    bitwriter(rep, um)
    scans(rep, um)
