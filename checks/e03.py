"""E03: groups are coded in parallel as they would be one after the other.

EncodeGroups and DecodeGroups are followed through with small layouts. The
executor runs the tasks in turn; for each task the memory it reads and writes
is collected. What one task writes, no other task of the same run may touch,
unless it is an atomic. The coding calls are matched as in A03: the decoder's
tasks must take what the encoder's tasks of the same group wrote.
"""
import re
from bsa import ir, prov
from bsa.build import AnalysisBroken
from bsa.prov import P, Prov, State, Broken, const, num, show, var, fan
from checks import a03, pool
from checks.a03 import unwritten, World, Mismatch, Reader, Dec, Lines, coefs, coder, words, meta, contexts, histograms, short, build, fillin
from checks.a04 import field, default

NAMES = a03.NAMES + ("EncodeGroups", "DecodeGroups", "ProcessJpeg", "HasSection", "PredictDCCoeffs", "SampleNumNonZeros", "Merge", "GetMaximumBrunsliEncodedSize")
RUN = "std::function<void (std::function<void (unsigned long)> const&, unsigned long)>::operator()"


def unit():
    return ir.load("gprobe", keep=tuple(sorted(r"(^|[ :])%s(<[^(]*>)?\(" % n for n in NAMES)))


def owner(o):
    while o[0] == "D":
        o = o[1]
    return o


class Foot(Dec):
    """Collects what the current task reads and writes of the memory of others."""
    on = None
    at = {}

    def begin(self, st):
        self.first, self.on, self.mine = st.nobj, ({}, {}), {}
        self.sizes = dict(st.sz)

    def finish(self, st):
        r, w = self.on
        for k, v in st.sz.items():
            if self.sizes.get(k) != v and self.shared(k[0]):
                for b in range(24):
                    w.setdefault((k[0], k[1] + b), None)
        self.on = None
        return r, w

    def shared(self, o):
        x = self.mine.get(o)
        if x is None:
            q = owner(o)
            n = q[-1]
            x = self.mine[o] = not (q[0] != "g" and isinstance(n, int) and n > self.first)
        return x

    def touch(self, k, p, n):
        if p.obj is not None and self.shared(p.obj):
            if self.cur.d.get("atomic") or self.hush or p.obj[0] == "g" and str(p.obj[1]).startswith("_ZGV"):
                return
            d = self.on[k]
            for b in range(n):
                if (p.obj, p.off + b) not in d:
                    d[(p.obj, p.off + b)] = self.cur

    def rd(self, st, p, n):
        if self.on and isinstance(p, P):
            self.touch(0, p, n)
        return Dec.rd(self, st, p, n)

    def wr(self, st, p, v, n):
        if self.on and isinstance(p, P):
            self.touch(1, p, n)
        return Dec.wr(self, st, p, v, n)

    def copy(self, st, d, s, n):
        if self.on and isinstance(d, P) and isinstance(s, P):
            self.touch(0, s, n)
            self.touch(1, d, n)
        return Dec.copy(self, st, d, s, n)


def name(p, st, o):
    q = owner(o)
    return st.user.get(("name", q)) or p.oname(st, q) or str(q)


class Runs(object):
    """The tasks the executor was given, and their footprints."""
    def __init__(self, m):
        self.m = m
        self.made = {}
        self.runs = []
        self.idx = None

    def model(self, p, st, i, a):
        d = i.cdem or ""
        if re.match(r"std::function<void \(unsigned long\)>::function<", d):
            return p.enter(st, self.m.functions[i.callee], a, i)
        if re.match(r"std::function<void \(unsigned long\)>::~function", d):
            return ()
        if d.startswith(RUN):
            g = p.ptr(st, P(a[1].obj, a[1].off + 24))
            g = self.m.functions.get(g.obj[1]) if g.obj and g.obj[0] in ("F", "g") else None
            if g is None:
                raise AnalysisBroken("the tasks run at %s are not known" % i.where())
            n = p.ev(a[2])
            feet = []
            hold = a[1]
            ix = P(st.fresh("idx"), 0)
            for k in range(n):
                p.wr(st, ix, const(k, 64), 8)
                self.idx = (len(self.runs), k)
                p.begin(st)
                p.sub(st, g, [hold, ix])
                feet.append(p.finish(st))
            self.idx = None
            self.runs.append((i, g, feet))
            return ()
        return None


    def conflict(self, p, st):
        """[(run, text or None)]: memory one task writes and another one touches."""
        out = []
        for i, g, feet in self.runs:
            writer, bad = {}, None
            for k, (r, w) in enumerate(feet):
                for c, j in w.items():
                    if c in writer and not bad:
                        bad = (k, writer[c][0], c, "write", j or writer[c][1])
                    writer.setdefault(c, (k, j))
            for k, (r, w) in enumerate(feet):
                for c, j in r.items():
                    if c in writer and writer[c][0] != k and not bad:
                        bad = (k, writer[c][0], c, "use", j)
            if bad:
                k, l, c, what, j = bad
                bad = (j or i, "tasks %d and %d both %s %s+%d, which %s" % (
                    k, l, what, name(p, st, c[0]), c[1], "task %d writes" % l if what == "use" else "is not atomic"))
            out.append((i, len(feet), bad))
        return out


def encode(m, w, ac, dc, fail=None):
    f = m.one("EncodeGroups")
    queue, cur, info = {}, [None], {"merged": [], "parts": [], "codes": 0}
    calls = coder(m, w, queue, cur, info)
    runs = Runs(m)

    def model(p, st, i, a):
        r = runs.model(p, st, i, a)
        if r is not None:
            return r
        cls, fn = short(m, i)
        if fn in ("EncodeDC", "EncodeAC"):
            cur[0] = (fn[-2:], a[0])
            if cur[0] in queue:
                raise Mismatch((i, "a group is encoded twice"))
            queue[cur[0]] = []
            info.setdefault("task", {})[cur[0]] = runs.idx
            return None
        if fn == "PredictDCCoeffs" and fail == ("predict", runs.idx and runs.idx[1]):
            return const(0, 1)
        if fn == "Merge":
            info["merged"].append((a[0], a[1]))
            return ()
        if fn == "PrepareEntropyCodes":
            info["codes"] += 1
            want = sorted((field(p, s, st, "entropy_source") for k, s in queue), key=repr)
            if sorted((x[1] for x in info["merged"]), key=repr) != want or {x[0] for x in info["merged"]} != {field(p, a[1], st, "entropy_source")}:
                raise Mismatch((i, "the histograms of %d groups are merged, not of all %d once" % (len(info["merged"]), len(want))))
        if fn == "GetMaximumBrunsliEncodedSize":
            return const(100, 64)
        if fn == "BrunsliSerialize":
            return serialize(p, st, i, a)
        return calls(p, st, i, a)

    def serialize(p, st, i, a):
        k = runs.idx
        if fail == ("serialize", k[1] if k else -1):
            return const(0, 1)
        skip = p.ev(a[2]) & 0x1FE
        s, size = a[0], 3 + len(info["parts"]) % 5
        if k:
            p.touch(1, s, p.ty.size("brunsli::internal::enc::State"))
            p.touch(1, a[3], size)
        else:
            info["meta"] = meta(p, st, s, len(w.comps), "brunsli::internal::enc::ComponentMeta")
        kind = {1 << 8 | 1 << 7: "common", 0x1FE & ~(1 << 7): "DC", 0x1FE & ~(1 << 8): "AC"}.get(skip)
        if kind in ("DC", "AC"):
            words(p, st, field(p, s, st, "data_stream_" + kind.lower()), queue.get((kind, s), []))
        for b in range(size):
            p.wr(st, P(a[3].obj, a[3].off + b), var("part%d.%d" % (len(info["parts"]), b), 8), 1)
        p.wr(st, a[4], const(size, 64), 8)
        info["parts"].append((kind, s, size))
        return const(1, 1)

    p = Foot(m, f, w.value, model, steps=60000000)
    st, jpg = build(p, m, w, "jpg")
    fillin(p, st, jpg, w, True)
    ln = P(("len", 0), 0)
    p.wr(st, ln, const(100000, 64), 8)
    args = {"jpg": jpg, "data": P(("out", 0), 0), "len": ln, "ac_group_dim": const(ac, 64), "dc_group_dim": const(dc, 64), "executor": P(("exec", 0), 0)}
    res = p.run([args[x[0]] for x in f.args], st)
    if len(res) != 1 or p.ev(res[0][0]) is None:
        raise AnalysisBroken("world %s: encoder: %s %s" % (w.name, [show(r) for r, _s in res], sorted(p.forked)[:3]))
    ok, st = p.ev(res[0][0]) & 1, res[0][1]
    return p, st, ok, queue, info, runs, ln


def decode(m, w, st0, queue, order, metas, ac, dc, fail=None):
    """order[k] is the queue that is in section 6 + k of the stream."""
    f = m.one("DecodeGroups")
    rd = Reader(m, w, queue)
    runs = Runs(m)
    info = {"read": []}
    more = m.enum("BrunsliStatus")["BRUNSLI_NOT_ENOUGH_DATA"]
    starts = []
    data = []
    for k in range(6 + len(order)):
        starts.append(len(data))
        data += [0x12, 2 + k % 3] + [0] * (2 + k % 3)
    inp = P(("in", 0), 0)

    def model(p, st, i, a):
        r = runs.model(p, st, i, a)
        if r is not None:
            return r
        cls, fn = short(m, i)
        if fn == "HasSection":
            return const(1, 1)
        if fn == "ProcessJpeg":
            s = a[0]
            at = p.ptr(st, field(p, s, st, "data"))
            ln = p.ev(p.rd(st, field(p, s, st, "len"), 8))
            if at.obj != inp.obj or at.off not in starts:
                raise Mismatch((i, "the data of a group does not start with a section"))
            k = starts.index(at.off)
            if runs.idx is None:
                if k != 0 or ln != starts[6]:
                    raise Mismatch((i, "the data given is not that of the common sections"))
                p.sub(st, m.one("PrepareMeta"), [a[1], s])
                contexts(p, st, s, metas)
                p.wr(st, field(p, s, st, "use_legacy_context_model"), const(int(w.legacy), 8), 1)
                histograms(p, st, s, w, queue)
                return const(more, 32)
            if ln != (starts + [len(data)])[k + 1] - starts[k] or k < 6:
                raise Mismatch((i, "the data given is not that of one group"))
            kind = {0x1FE & ~(1 << 7): "DC", 0x1FE & ~(1 << 8): "AC"}.get(p.ev(p.rd(st, field(p, s, st, "tags_met"), 4)) & 0x1FE)
            if fail == ("decode", k):
                return const(5, 32)
            if kind != order[k - 6][0]:
                raise Mismatch((i, "the section of %s is decoded as %s" % (order[k - 6][0], kind)))
            rd.cur = order[k - 6]
            if rd.cur in info["read"]:
                raise Mismatch((i, "a group is decoded twice"))
            info["read"].append(rd.cur)
            r = p.sub(st, m.one("Decode" + kind), [s, P(("words", 0), 0)])
            if p.ev(r) != 0:
                raise Mismatch((i, "the decoder reports failure"))
            rd.end()
            return const(0, 32)
        return rd.model(p, st, i, a)

    p = Foot(m, f, w.value, model, steps=60000000)
    st, jpg = build(p, m, w, "jpg2")
    st.assume = dict(st0.assume)
    st.nobj = st0.nobj
    fillin(p, st, jpg, w, False)
    Dec.lines, Foot.at, Dec.w = Lines(st0), coefs(p, st, jpg, w), w
    for k, b in enumerate(data):
        p.wr(st, P(inp.obj, k), const(b, 8), 1)
    args = {"jpg": jpg, "data": inp, "len": const(len(data), 64), "ac_group_dim": const(ac, 64), "dc_group_dim": const(dc, 64), "executor": P(("exec", 0), 0)}
    res = p.run([args[x[0]] for x in f.args], st)
    if len(res) != 1 or p.ev(res[0][0]) is None:
        raise AnalysisBroken("world %s: decoder: %s %s" % (w.name, [show(r) for r, _s in res], sorted(p.forked)[:3]))
    st = res[0][1]
    return p, st, p.ev(res[0][0]) & 1, runs, info


def world(m, x):
    w, ac, dc = x
    obs, at = [], "c/experimental/groups.cc"
    rel = lambda i: i.where() if i is not None else at
    try:
        p, st, ok, queue, info, runs, ln = encode(m, w, ac, dc)
    except Mismatch as e:
        return [("R1", w.name + ": encoder", rel(e.args[0][0]), False, e.args[0][1])]
    except prov.Unknown as e:
        return [("R1", w.name + ": encoder", rel(e.inst), False, unwritten(e))]
    n = [0]

    def races(runs, p, st, side):
        for i, k, bad in runs.conflict(p, st):
            n[0] += k
            obs.append(("R2", "%s: run %s of the %s" % (w.name, i.where(), side), bad[0].where() if bad else i.where(), not bad, bad[1] if bad else ""))
    races(runs, p, st, "encoder")
    # the order of the parts in the output
    size = p.ev(p.rd(st, ln, 8))
    parts = []
    why = "" if ok else "the encoder reports failure"
    for k in range(size if ok else 0):
        b = p.rd(st, P(("out", 0), k), 1)
        x = re.match(r"part(\d+)\.(\d+)$", str(b[0][0])) if isinstance(b[0], tuple) else None
        if not x or b != var(b[0][0], 8):
            why = why or "byte %d of the output is %s" % (k, show(b))
            continue
        j, o = int(x.group(1)), int(x.group(2))
        if o == 0:
            parts.append(j)
        if not parts or parts[-1] != j:
            why = why or "part %d is torn" % j
    if ok and not why:
        if len(parts) != len(info["parts"]) or len(set(parts)) != len(parts) or size != sum(s for _k, _s, s in info["parts"]):
            why = "of %d parts, %d are in the output" % (len(info["parts"]), len(set(parts)))
        elif info["parts"][parts[0]][0] != "common":
            why = "the common part is not the first"
    order = [info["parts"][j][:2] for j in parts[1:]] if not why else []
    if not why and sorted(order, key=repr) != sorted(queue, key=repr):
        why = "the parts are not those of the groups"
    obs.append(("R1", w.name + ": encoder", at, not why, why))
    if why:
        return obs
    try:
        q, st2, ok, runs2, info2 = decode(m, w, st, queue, order, info["meta"], ac, dc)
        why = "" if ok else "the decoder reports failure"
        if ok and len(info2["read"]) != len(order):
            why = "%d of %d groups are decoded" % (len(info2["read"]), len(order))
    except Mismatch as e:
        obs.append(("R1", w.name + ": decoder", rel(e.args[0][0]), False, e.args[0][1]))
        return obs
    except prov.Unknown as e:
        return obs + [("R1", w.name + ": decoder", rel(e.inst), False, unwritten(e))]
    obs.append(("R1", w.name + ": decoder", at, not why, why))
    races(runs2, q, st2, "decoder")
    for o, c in sorted(Foot.at.items(), key=lambda z: z[1]):
        bad = None
        for b, x in enumerate(w.coef[c]):
            for k in range(64):
                g = q.rd(st2, P(o, 2 * (64 * b + k)), 2)
                if g != (var("coef%d.%d.%d" % (c, b, k), 16) if x[k] else const(0, 16)):
                    bad = bad or "coefficient %d of block %d comes back as %s" % (k, b, show(g))
        obs.append(("R1", "%s: component %d" % (w.name, c), at, not bad, bad or ""))
    obs.append(("count", "tasks followed", n[0]))
    obs.append(("count", "instructions followed", st.steps + st2.steps))
    return obs


def failing(m, x):
    """Whatever task fails, the call fails."""
    w, ac, dc, part = x
    at = "c/experimental/groups.cc"
    obs = []
    p, st, ok, queue, info, runs, ln = encode(m, w, ac, dc)
    order = [x[:2] for x in info["parts"][1:]]
    ndc = sum(1 for k, s in order if k == "DC")
    todo = [("predict", k) for k in range(ndc)] + [("serialize", k) for k in [-1] + list(range(1, len(order) + 1))]
    for f in todo[part::3] if part < 3 else ():
        try:
            ok = encode(m, w, ac, dc, f)[2]
            why = "reports success" if ok else ""
        except Mismatch as e:
            why = e.args[0][1]
        except prov.Unknown as e:
            why = unwritten(e)
        obs.append(("R3", "%s: %s of task %d fails" % (w.name, f[0], f[1]), at, not why, why))
    for k in range(6, 6 + len(order)) if part > 2 else ():
        try:
            ok = decode(m, w, st, queue, order, info["meta"], ac, dc, ("decode", k))[2]
            why = "reports success" if ok else ""
        except Mismatch as e:
            why = e.args[0][1]
        except prov.Unknown as e:
            why = unwritten(e)
        obs.append(("R3", "%s: section %d fails" % (w.name, k), at, not why, why))
    return obs


def worlds():
    y420, y422, one = [(2, 2), (1, 1), (1, 1)], [(2, 1), (1, 1), (1, 1)], [(1, 1)]
    W = World
    return [
        (W("4:2:0", y420, (2, 2), 1), 2, 2),
        (W("4:2:0, partial groups", y420, (3, 3), 2, 2), 4, 4),
        (W("4:2:0, larger groups of DC", y420, (3, 2), 3, 3), 2, 4),
        (W("one component", one, (3, 3), 4, 6), 2, 2),
        (W("one component, single blocks", one, (3, 2), 5, 9), 1, 1),
        (W("one component, single blocks, older context model", one, (2, 3), 6, 9, legacy=True), 1, 2),
        (W("4:2:2", y422, (2, 3), 7, 3), 2, 4),
        (W("4:2:2, older context model", y422, (2, 3), 8, 3, legacy=True), 2, 2),
        (W("one group", y420, (1, 2), 9), 8, 8),
        (W("row of groups", one, (5, 1), 10, 9), 2, 4),
        (W("column of groups", one, (1, 5), 11, 9), 2, 4),
        (W("four components", [(1, 1)] * 4, (3, 2), 12, 3), 2, 2),
        (W("wide sampling", [(1, 2), (2, 1)], (2, 3), 13, 3), 2, 4),
    ]


def run(rep):
    rep.rule("R1", "what the groups encode is decoded by the same groups, all of it, in order", 40)
    rep.rule("R2", "what a task writes no other task of the run touches", 70)
    rep.rule("R3", "the call fails if a task fails", 10)
    rep.rule("R4", "the thread pool runs each task once, under its protocol, and returns when all are done", 40)
    for o in pool.check(pool.unit()):
        rep.ob("R4", *o)
    m = unit()
    todo = [(failing, (World("failures", [(1, 1)], (2, 2), 20, 2), 1, 2, k)) for k in range(4)] + [(world, x) for x in worlds()]
    for obs in fan(lambda t: t[0](m, t[1]), todo):
        for o in obs:
            if o[0] == "count":
                rep.count(o[1], o[2])
            else:
                rep.ob(*o)
