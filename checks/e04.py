"""E04: tools and bindings deliver the whole result, or report failure.

R1  whichever single operation of the outermost function fails (opening,
    measuring, reading, converting, writing, closing, allocation by the host),
    the function reports failure, and no output file is opened.
R2  when every operation succeeds, success is reported.
R3  the data handed on is the data at hand: the caller's bytes in full to the
    codec, the codec's result, cut to the size it reports, in full to the
    caller; nothing else changes it in between.
R4  sinks append exactly the bytes they are given and say so.
R5  the Java methods throw when the native side returned no result.

Everything but library calls is inlined, so it does not matter how the tools
are divided into functions.
"""
import os
import re
import subprocess
import tempfile
import shutil
from bsa import ir, absx, vs, scen
from bsa.build import AnalysisBroken, REPO
from bsa.scen import Premise, Scen, TOP
from checks.lib import show, before

BIG = vs.rng(1, 1 << 62)
CODEC = r"BrunsliEncodeJpeg|BrunsliDecodeJpeg|ReadJpeg|WriteJpeg|GetMaximumBrunsliEncodedSize|DecodeGroups|EncodeGroups|BrunsliDecoder::Decode|ParallelExecutor.*"
READS = ("size", "length", "data", "operator[]", "at", "c_str", "empty", "max_size", "capacity", "begin", "end", "cbegin", "cend", "front",
         "back", "compare", "find", "substr")


def name(i):
    """Short name of what a call calls."""
    c = i.callee
    if c is None:
        return "(indirect)"
    g = i.fn.mod.functions.get(c)
    q = g.qual if g else c
    return q.split("::")[-1]


def is_string_ctor(i):
    c = i.callee or ""
    return "basic_string" in c and re.search(r"C[12]E", c) is not None


class Mods(absx.ModSets):
    """Operations of the library may change anything they can reach."""

    def of(self, n):
        f = self.mod.functions.get(n)
        return None if f is not None and f.decl and re.search(CODEC, f.qual) else absx.ModSets.of(self, n)


class Fn(object):
    """A function with its calls described by where their operands come from."""

    def __init__(self, unit, fn, keep):
        self.m = ir.load(unit, keep=keep)
        self.mods = Mods(self.m)
        self.f = self.m.one(fn)
        self.s0 = Scen(self.f, self.mods)
        self.w = self.f.file.replace(REPO + "/", "") + ":" + str(self.f.d.get("line", "?"))
        self.rw = [k for k in self.f.insts() if k.op == "load" and k.ty not in ("ptr",)]

    def calls(self, *names):
        r = [i for i in self.f.insts() if i.op in ("call", "invoke") and name(i) in names]
        return r

    def need(self, *names):
        r = self.calls(*names)
        if not r:
            raise AnalysisBroken("%s does not call %s" % (self.f.qual, "/".join(names)))
        return r

    def key(self, o):
        k = self.s0.paths.key(o)
        return k

    def obj(self, o):
        return ("obj", self.key(o))

    def descr(self, o, e=None, d=0):
        """Where an operand comes from."""
        if o[0] == "c":
            return ("c", o[1])
        if o[0] in ("n", "z"):
            return ("c", 0)
        if o[0] == "a":
            return ("a", o[1])
        if o[0] == "g":
            g = self.m.globals.get(o[1])
            t = g and g.get("init")
            if isinstance(t, list) and t and all(isinstance(x, int) for x in t) and t[-1] == 0:
                return ("str", "".join(chr(x & 255) for x in t[:-1]))
            if isinstance(t, str):
                return ("str", t)
            return ("g", o[1])
        if o[0] == "F":
            return ("F", o[1])
        if d > 12:
            return ("?",)
        v = self.f.val(o)
        if v is None:
            return ("?",)
        if v.op in ("zext", "sext", "bitcast", "inttoptr", "ptrtoint"):
            return self.descr(v.ops[0], e, d + 1)
        if v.op == "trunc":
            return ("trunc", v.ty, self.descr(v.ops[0], e, d + 1))
        if v.op == "alloca":
            return ("obj", ("l", v.id))
        if v.op == "load":
            return ("load", self.key(v.ops[0]))
        if v.op in ("call", "invoke"):
            n = name(v)
            if n in ("data", "c_str") or (n in ("operator[]", "at") and len(v.ops) == 2):
                at = vs.single(self.now(v.ops[1], e)) if len(v.ops) > 1 and self.now(v.ops[1], e) else 0 if len(v.ops) == 1 else None
                return ("data", self.key(v.ops[0]), at)
            if n in ("size", "length"):
                return ("size", self.key(v.ops[0]))
            if n == "operator new" or n.startswith("operator new"):
                return ("obj", self.key(o))
            return ("call", n)
        if v.op == "getelementptr" and len(v.ops) == 2:
            b = self.descr(v.ops[0], e, d + 1)
            k = self.now(v.ops[1], e)
            if b[0] == "data" and b[2] is not None and k and vs.single(k) is not None:
                return ("data", b[1], b[2] + vs.single(k))
            return ("?",)
        if v.op in ("sub", "add"):
            return (v.op, self.descr(v.ops[0], e, d + 1), self.descr(v.ops[1], e, d + 1))
        return ("?", v.op)

    def now(self, o, e):
        if o[0] == "c":
            return vs.of(o[1])
        return self.s.val(o, e) if e is not None else None

    def run(self, pr, on=None, ent=()):
        """All outcomes under the premise; events of every call passed."""
        self.s = s = Scen(self.f, self.mods, pr)
        s.ptrphi = True
        self.events = []
        s._important()
        s._imp[0].update(x.id for x in self.f.insts() if x.op in ("phi", "call", "add", "sub", "load") and x.ty != "void")

        def cb(i, e, mm):
            if i.op in ("call", "invoke") and not (i.callee or "").startswith("llvm."):
                self.events.append((i, name(i), [self.descr(o, e) for o in i.ops],
                                    [vs.single(self.now(o, e)) if self.now(o, e) else None for o in i.ops]))
            return on(i, e, mm) if on else None
        res = s.run({}, {}, on_inst=cb, cap=20000)
        if s.capped:
            raise AnalysisBroken("exploration of %s does not converge" % self.f.qual)
        return res


# operation -> (failing result, successful result)
OPS = {
    "fopen": (vs.of(0), BIG), "fseek": (vs.of(-1), vs.of(0)), "ftell": (vs.of(-1), vs.of(100)),
    "fread": (vs.of(0), vs.of(25)), "fwrite": (vs.of(0), vs.of(25)), "fclose": (vs.of(-1), vs.of(0)),
    "ReadJpeg": (vs.of(0), vs.of(1)), "WriteJpeg": (vs.of(0), vs.of(1)),
    "BrunsliEncodeJpeg": (vs.of(0), vs.of(1)), "EncodeGroups": (vs.of(0), vs.of(1)), "DecodeGroups": (vs.of(0), vs.of(1)),
    "BrunsliDecodeJpeg": (vs.rng(1, 8), vs.of(0)),
    "GetDirectBufferAddress": (vs.of(0), BIG), "GetDirectBufferCapacity": (vs.of(-1), vs.rng(0, 1 << 31)),
    "NewByteArray": (vs.of(0), BIG), "FindClass": (vs.of(0), BIG), "RegisterNatives": (vs.rng(-9, -1), vs.of(0)),
    "GetEnv": (vs.of(-2, -1), vs.of(0)),
}


def premise(fail=None, fv=None, n=100):
    """Every operation succeeds, except call `fail`, which returns fv; n is
    the size of all data, None for any size."""
    p = Premise()
    if fail is not None:
        p.pcall(lambda i, s: i.id == fail.id, fv)
    for o, (b, g) in OPS.items():
        if o == "fread" or o == "fwrite":
            g = vs.of(n // 4) if n else vs.rng(1, 1 << 40)
        if o == "ftell":
            g = vs.of(n) if n else vs.rng(1, 1 << 40)
        p.pcall(lambda i, s, o=o: i.op in ("call", "invoke") and name(i) == o, g)
    p.pcall(lambda i, s: i.op in ("call", "invoke") and name(i) in ("size", "length"), vs.of(n) if n else vs.rng(0, 1 << 40))
    p.pcall(lambda i, s: i.op in ("call", "invoke") and name(i) == "empty", vs.of(0) if n else vs.of(0, 1))
    p.pcall(lambda i, s: i.op in ("call", "invoke") and name(i).startswith("operator new"), BIG)
    return p


def rets(res):
    return "; ".join(sorted(set(show(r[1]) for r in res))) or "nothing"


def outcomes(rep, fn, key, good, bad, more=lambda p: p, ops=None, output=False, floor=1):
    """R1, R2 for one function."""
    n = 0
    for i in [x for x in fn.f.insts() if x.op in ("call", "invoke")]:
        o = name(i)
        if o not in OPS or (ops and o not in ops):
            continue
        n += 1
        opened = []
        done = []

        def on(x, e, mm):
            if x is i:
                e[("cnt", "f")] = vs.of(1)
            elif x.op in ("call", "invoke") and ("cnt", "f") in e and name(x) == "fopen" and output:
                opened.append(x)
            if x.op == "ret" and ("cnt", "f") in e:
                done.append(fn.s.val(x.ops[0], e))
            return None
        fn.run(more(premise(i, OPS[o][0], None)), on)
        v = [d for d in done if d is TOP or vs.meets(d, good) or not vs.meets(d, bad)]
        w = i.where()
        if not done:
            raise AnalysisBroken("%s: %s is not reached" % (key, w))
        rep.ob("R1", "%s reports failure of %s (%s)" % (key, o, w.split(":")[-1]), w, not v and not opened,
               "returns %s" % "; ".join(sorted(set(show(d) for d in v))) if v else
               "goes on to open the output at %s" % ", ".join(x.where() for x in opened))
    if n < floor:
        raise AnalysisBroken("%s: only %d operations found" % (key, n))
    res = fn.run(more(premise()))
    v = [r for r in res if r[1] is TOP or not vs.meets(r[1], good) or vs.meets(r[1], bad)]
    rep.ob("R2", "%s reports success when every operation succeeds" % key, fn.w, bool(res) and not v, "returns " + rets(res))


def changes(ev, obj, lo, hi):
    """Calls between events lo and hi that may change the string `obj`."""
    return [x for x in ev[lo + 1:hi] if x[2] and ("obj", obj) in x[2][:1] and x[1] not in READS and not x[1].startswith("~")]


def index(ev, *names):
    return [k for k, x in enumerate(ev) if x[1] in names]


class Flow(object):
    """Collects what is wrong with one function's data flow."""

    def __init__(self, rep, fn, key):
        self.rep = rep
        self.fn = fn
        self.key = key

    def ob(self, what, ok, d="", where=None):
        self.rep.ob("R3", "%s: %s" % (self.key, what), where or self.fn.w, bool(ok), d)
        return bool(ok)

    def one(self, ev, *names):
        k = index(ev, *names)
        if len(k) != 1:
            self.ob("one call of %s" % names[0], False, "%d calls" % len(k))
            return None
        return k[0]


def transfer(fl, ev, op, n):
    """The whole of one string goes through fread/fwrite: (string, first, last event)."""
    ks = index(ev, op)
    a = [(ev[k][2][0], ev[k][3][1], ev[k][3][2], ev[k][2][3]) for k in ks]
    q = n // 4
    objs = set(x[0][1] if x[0][0] == "data" else None for x in a)
    files = set(str(x[3]) for x in a)
    got = [(x[0][2] if x[0][0] == "data" else None, x[1], x[2]) for x in a]
    want = [(k * q, 1, n - k * q) for k in range(4)]
    fl.ob("%s goes on where the previous part ended, for all of the data" % op, got == want and len(objs) == 1 and None not in objs and len(
        files) == 1, "offset, unit, count: %s; expected %s" % (got, want), ev[ks[0]][0].where() if ks else None)
    return (objs.pop() if len(objs) == 1 else None), (ks[0] if ks else 0), (ks[-1] if ks else 0)


def path_of(fl, ev, k):
    """How the string that names the file of fopen event k was made."""
    d = ev[k][2][0]
    if d[0] != "data":
        return ("?", d)
    made = [x for x in ev[:k] if x[2] and x[2][0] == ("obj", d[1]) and x[1] not in READS and not x[1].startswith("~")]
    r = []
    for x in made:
        if x[1] == "basic_string" or is_string_ctor(x[0]):
            r.append(("new",) + tuple(fl.origin(ev, y) for y in x[2][1:2]))
        elif x[1] == "operator+":
            r.append(("plus",) + tuple(fl.origin(ev, y) for y in x[2][1:]))
        else:
            r.append((x[1],) + tuple(x[2][1:]))
    return r


def origin(self, ev, d):
    if d[0] == "obj":
        for x in ev:
            if x[2] and x[2][0] == d and is_string_ctor(x[0]):
                return origin(self, ev, x[2][1]) if len(x[2]) > 1 else ("empty",)
    if d[0] == "data":
        return origin(self, ev, ("obj", d[1]))
    return d


Flow.origin = origin


def argvn(d, n):
    return d == ("load", ("x", ("a", 1), n))


def tool(rep, unit, enc, groups):
    key = unit
    keep = (r"(^|[ :])main$|(^|[ :])main\(", r"(^|::|[ ])(%s)\(" % CODEC)
    fn = Fn(unit, "main", keep)
    argc = lambda k: (lambda p: p.arg(0, vs.of(k)))
    for k in (2, 3):
        outcomes(rep, fn, "%s with %d arguments" % (key, k - 1), vs.of(0), vs.of(1), argc(k), None, True, 9)
    for k in (0, 1, 4, 5):
        res = fn.run(argc(k)(premise()))
        bad = [r for r in res if r[1] is TOP or vs.meets(r[1], vs.of(0))]
        rep.ob("R1", "%s refuses %d arguments" % (key, k - 1), fn.w, bool(res) and not bad, "returns " + rets(res))
    res = fn.run(argc(2)(Premise().pcall(lambda i, s: i.op in ("call", "invoke") and name(i) == "empty", vs.of(1)).pcall(
        lambda i, s: i.op in ("call", "invoke") and name(i) in ("size", "length"), vs.of(0))))
    rep.ob("R1", "%s refuses an empty file name" % key, fn.w, bool(res) and not [r for r in res if r[1] is TOP or vs.meets(
        r[1], vs.of(0))], "returns " + rets(res))
    for k in (2, 3):
        for n in ((100,) if k == 2 else (100, 1 << 33)):
            p = argc(k)(premise(n=n))
            p.field("JPEGData", "version", vs.of(1))
            fn.run(p)
            toolflow(Flow(rep, fn, "%s, %d arguments%s" % (key, k - 1, "" if n == 100 else ", large file")), fn, fn.events, k, n, enc, groups)


def toolflow(fl, fn, ev, argc, n, enc, groups):
    op = index(ev, "fopen")
    if not fl.ob("opens one input and one output file", len(op) == 2, "%d files opened" % len(op)):
        return
    i, o = op
    mode = [ev[k][2][1] for k in op]
    fl.ob("input is opened for binary reading", mode[0] == ("str", "rb"), str(mode[0]), ev[i][0].where())
    fl.ob("output is opened for binary writing", mode[1] == ("str", "wb"), str(mode[1]), ev[o][0].where())
    p = path_of(fl, ev, i)
    fl.ob("input file is the first argument", len(p) == 1 and p[0][0] == "new" and argvn(p[0][1], 1), str(p), ev[i][0].where())
    p = path_of(fl, ev, o)
    ext = ".brn" if enc else ".jpg"
    if argc == 3:
        ok = len(p) == 1 and p[0][0] == "new" and argvn(p[0][1], 2)
    else:
        ok = len(p) == 1 and p[0][0] == "plus" and argvn(p[0][1], 1) and p[0][2] == ("str", ext)
    fl.ob("output file is the one asked for", ok, str(p), ev[o][0].where())
    sk = [(ev[k][2][1], ev[k][2][2]) for k in index(ev, "fseek")]
    fl.ob("size is taken at the end, reading starts at the beginning", sk == [(("c", 0), ("c", 2)), (("c", 0), ("c", 0))], str(sk))
    sin, r0, r1 = transfer(fl, ev, "fread", n)
    sout, w0, w1 = transfer(fl, ev, "fwrite", n)
    rs = [(x[2][1], k) for k, x in enumerate(ev[:r0]) if x[1] == "resize" and x[2][0] == ("obj", sin)]
    fl.ob("room for all of the input", len(rs) == 1 and rs[0][0] == ("call", "ftell"), "resized to %s" % (rs,))
    first = "ReadJpeg" if enc else "DecodeGroups" if groups else "BrunsliDecodeJpeg"
    k = fl.one(ev, first)
    if k is None:
        return
    a = ev[k][2]
    fl.ob("the codec gets all of the input", a[0] == ("data", sin, 0) and a[1] == ("size", sin) and not changes(ev, sin, r1, k), str(a[:2]),
          ev[k][0].where())
    jpg = a[3] if enc else a[2]
    if enc:
        fl.ob("the whole JPEG file is parsed", a[2] == ("c", 2), "mode %s" % (a[2],), ev[k][0].where())
        encflow(fl, fn, ev, jpg, sout, w0, n, "EncodeGroups" if groups else "BrunsliEncodeJpeg")
    else:
        w = fl.one(ev, "WriteJpeg")
        if w is not None:
            b = ev[w][2]
            fl.ob("the decoded file is written", b[0] == jpg, str(b[0]), ev[w][0].where())
            fl.ob("the bypass payload outlives its use", not changes(ev, sin, r1, w), "input changed by %s" % [
                x[1] for x in changes(ev, sin, r1, w)], ev[w][0].where())
            fl.ob("output is collected", b[2] == ("obj", sout) and not changes(ev, sout, w, w0), str(b[2]), ev[w][0].where())
            sink(fl, fn, b[1])
    if groups:
        g = ev[fl.one(ev, "EncodeGroups" if enc else "DecodeGroups") or 0][2]
        fl.ob("group size is the one both tools use", g[3:5] == [("c", 32), ("c", 128)], str(g[3:5]))


def encflow(fl, fn, ev, jpg, out, end, n, callee):
    k = fl.one(ev, callee)
    g = fl.one(ev, "GetMaximumBrunsliEncodedSize")
    if k is None or g is None:
        return
    a = ev[k][2]
    w = ev[k][0].where()
    fl.ob("what was parsed is encoded", a[0] == jpg and ev[g][2][0] == jpg, str(a[0]), w)
    fl.ob("encoded into the output", a[1] == ("data", out, 0), str(a[1]), w)
    sz = a[2]
    before_ = [x for x in ev[:k] if x[1] == "resize" and x[2][0] == ("obj", out)]
    after = [x for x in ev[k:end] if x[1] == "resize" and x[2][0] == ("obj", out)]
    isz = lambda d: sz[0] == "obj" and d == ("load", sz[1])
    fl.ob("room for the largest result", len(before_) == 1 and (isz(before_[0][2][1]) or before_[0][2][1] == (
        "call", "GetMaximumBrunsliEncodedSize")), str([x[2] for x in before_]), w)
    st = [x for x in fn.f.insts() if x.op == "store" and fn.obj(x.ops[1]) == sz]
    fl.ob("the size passed is the room there is", len(st) == 1 and fn.descr(st[0].ops[0]) == (
        "call", "GetMaximumBrunsliEncodedSize") and before(fn.f, st[0], ev[k][0]), str([fn.descr(x.ops[0]) for x in st]), w)

    def fresh(x):
        v = fn.f.val(x[0].ops[1])
        return v is not None and v.op == "load" and before(fn.f, ev[k][0], v)
    fl.ob("the result is cut to the size reported", len(after) == 1 and isz(after[0][2][1]) and fresh(after[0]), str([x[2] for x in after]), w)
    ch = [x for x in changes(ev, out, k, end) if x not in after]
    fl.ob("nothing else changes the result", not ch, str([x[1] for x in ch]), w)


def sink(fl, fn, d):
    """R4: a sink appends all bytes and returns their number."""
    g = None
    if d[0] == "F":
        g = fn.m.functions.get(d[1])
    if g is None or g.decl:
        fl.rep.ob("R4", fl.key + ": sink", fl.w if hasattr(fl, "w") else fn.w, False, "unknown sink %s" % (d,))
        return
    s = Scen(g, fn.mods)
    app = [i for i in g.insts() if i.op in ("call", "invoke") and not (i.callee or "").startswith("llvm.")]
    ret = [i for i in g.insts() if i.op == "ret"]
    w = app[0].where() if app else fn.w
    ok = len(app) == 1 and len(ret) == 1
    if ok and name(app[0]) == "append":
        ok = [tuple(o) for o in app[0].ops[:3]] == [("a", 0), ("a", 1), ("a", 2)] and tuple(ret[0].ops[0]) == ("a", 2)
    elif ok:                # hands on to the user's own sink
        c = app[0].d["callee"]
        fld = lambda o, n: s.paths.key(o) is not None and g.val(o) is not None and g.val(o).op == "load" and s.paths.key(
            g.val(o).ops[0]) in (("a", 0),) + tuple(k for k in [s.paths.key(g.val(o).ops[0])] if k and k[0] == "f" and k[1] == ("a", 0))
        ok = fld(c, 0) and len(app[0].ops) == 3 and fld(app[0].ops[0], 1) and [tuple(o) for o in app[0].ops[1:]] == [
            ("a", 1), ("a", 2)] and ret[0].ops[0] == ["i", app[0].id] and s.paths.key(g.val(c).ops[0]) != s.paths.key(g.val(app[0].ops[0]).ops[0])
    fl.rep.ob("R4", fl.key + ": the sink passes on every byte and its verdict", w, ok, "sink %s" % g.qual)


def capi(rep):
    keep = (r"^EncodeBrunsli$", r"^DecodeBrunsli$", r"(^|::|[ ])(%s)\(" % CODEC)
    fn = Fn("enc", "EncodeBrunsli", keep)
    key = "EncodeBrunsli"
    outcomes(rep, fn, key, vs.rng(1, 1 << 30), vs.of(0), lambda p: p.pcall(lambda i, s: name(i) == "(indirect)", vs.of(100)), None, False, 2)
    for v, t in ((99, "takes less"), (0, "takes nothing"), (101, "claims more")):
        res = fn.run(premise().pcall(lambda i, s: name(i) == "(indirect)", vs.of(v)))
        rep.ob("R1", "%s reports failure when the sink %s" % (key, t), fn.w, bool(res) and not [r for r in res if r[1] is TOP or r[1] != vs.of(
            0)], "returns " + rets(res))
    fn.run(premise().pcall(lambda i, s: name(i) == "(indirect)", vs.of(100)))
    ev = fn.events
    fl = Flow(rep, fn, key)
    k, o = fl.one(ev, "ReadJpeg"), fl.one(ev, "(indirect)")
    if k is not None and o is not None:
        a, b = ev[k][2], ev[o][2]
        fl.ob("the codec gets all of the input", a[:3] == [("a", 1), ("a", 0), ("c", 2)], str(a[:3]), ev[k][0].where())
        out = b[1][1] if b[1][0] == "data" else None
        fl.ob("the sink gets all of the result", out is not None and b == [("a", 2), ("data", out, 0), ("size", out)] and tuple(
            ev[o][0].d["callee"][:2]) == ("a", 3), str(b), ev[o][0].where())
        encflow(fl, fn, ev, a[3], out, o, 100, "BrunsliEncodeJpeg")
    fn = Fn("dec", "DecodeBrunsli", keep)
    key = "DecodeBrunsli"
    outcomes(rep, fn, key, vs.rng(1, 1 << 30), vs.of(0), floor=2)
    fn.run(premise())
    decflow(Flow(rep, fn, key), fn, ("a", 1), [("a", 0)], None)


def decflow(fl, fn, data, size, out):
    ev = fn.events
    k, w = fl.one(ev, "BrunsliDecodeJpeg"), fl.one(ev, "WriteJpeg")
    if k is None or w is None:
        return
    a, b = ev[k][2], ev[w][2]
    fl.ob("the codec gets all of the input", a[0] == data and a[1] in size, str(a[:2]), ev[k][0].where())
    fl.ob("the decoded file is written", b[0] == a[2], str(b[0]), ev[w][0].where())
    if out is None:     # user's sink in a struct: fields hold the arguments
        st = dict()
        for i in fn.f.insts():
            if i.op == "store" and absx.local_root(fn.key(i.ops[1])) == b[2][1]:
                st.setdefault(tuple(i.ops[0][:2]), []).append(i)
        fl.ob("the sink is the caller's", set(st) == {("a", 2), ("a", 3)} and all(len(x) == 1 for x in st.values()), str(sorted(st)))
    else:
        fl.ob("output is collected", out(b[2]), str(b[2]), ev[w][0].where())
    sink(fl, fn, b[1])


def jni(rep):
    J = "Java_dev_brunsli_wrapper_CodecJNI_native"
    keep = (r"^Java_dev_brunsli_wrapper_CodecJNI_native(De|En)code$", r"^JNI_OnLoad$", r"(^|::|[ ])(%s)\(" % CODEC,
            r"^_?J[A-Za-z]*_?::", r"JNIEnv_::", r"JavaVM_::")
    ok = vs.rng(1, 1 << 62)
    for w in ("Decode", "Encode"):
        fn = Fn("jni", J + w, keep)
        key = "native" + w
        outcomes(rep, fn, key, ok, vs.of(0), floor=5)
        fn.run(premise())
        ev = fn.events
        fl = Flow(rep, fn, key)
        r, n = fl.one(ev, "SetByteArrayRegion"), fl.one(ev, "NewByteArray")
        if r is None or n is None:
            continue
        b = ev[r][2]
        out = b[4][1] if b[4][0] == "data" else None
        size = lambda d: d in (("size", out), ("trunc", "i32", ("size", out)))
        fl.ob("the whole result is copied into the array", out is not None and b[1] == ("call", "NewByteArray") and b[2] == ("c", 0) and size(
            b[3]) and b[4][2] == 0 and size(ev[n][2][1]), str(b[1:]), ev[r][0].where())
        ad, cp = fl.one(ev, "GetDirectBufferAddress"), fl.one(ev, "GetDirectBufferCapacity")
        fl.ob("the input is the caller's buffer", ad is not None and cp is not None and ev[ad][2][1] == ("a", 2) and ev[cp][2][1] == ("a", 2), "")
        data, cap = ("call", "GetDirectBufferAddress"), ("call", "GetDirectBufferCapacity")
        if w == "Decode":
            decflow(fl, fn, data, [cap], lambda d: d == ("obj", out))
            k = index(ev, "WriteJpeg")
            ch = changes(ev, out, k[0], r) if k else []
            fl.ob("nothing else changes the result", not ch, str([x[1] for x in ch]))
        else:
            k = fl.one(ev, "ReadJpeg")
            if k is not None:
                a = ev[k][2]
                fl.ob("the codec gets all of the input", a[:3] == [data, cap, ("c", 2)], str(a[:3]), ev[k][0].where())
                encflow(fl, fn, ev, a[3], out, n, 100, "BrunsliEncodeJpeg")
    fn = Fn("jni", "JNI_OnLoad", keep)
    outcomes(rep, fn, "JNI_OnLoad", vs.rng(1, 1 << 30), vs.rng(-9, 0), floor=3)
    fn.run(premise())
    fl = Flow(rep, fn, "JNI_OnLoad")
    k, r = fl.one(fn.events, "FindClass"), fl.one(fn.events, "RegisterNatives")
    if k is None or r is None:
        return
    fl.ob("binds the class of the Java sources", fn.events[k][2][1] == ("str", "dev/brunsli/wrapper/CodecJNI"), str(fn.events[k][2][1]))
    t = fn.events[r][2][2]
    g = fn.m.globals.get(t[1]) if t[0] == "g" else None
    got = []
    for x in (g.get("ptrs") or [] if g else []):
        got.append(("F", x) if x in fn.m.functions else fn.descr(["g", x]))
    want = []
    for w in ("Decode", "Encode"):
        want.append((("str", "native" + w), ("str", "(Ljava/nio/ByteBuffer;)[B"), ("F", J + w)))
    trip = [tuple(got[q:q + 3]) for q in range(0, len(got), 3)]
    fl.ob("every native method is bound to its own function", sorted(map(str, trip)) == sorted(map(str, want)) and fn.events[r][3][3] == 2,
          "%s, %s bound" % (trip, fn.events[r][3][3]))


def wasm(rep):
    names = ["BrunsliToJpeg", "JpegToBrunsli", "BrunsliDecoderInit", "BrunsliDecoderProcess", "BrunsliDecoderCleanup", "GetJpegData",
             "GetJpegLength", "FreeJpeg", "GetBrunsliData", "GetBrunsliLength", "FreeBrunsli"]
    keep = tuple("^%s$" % n for n in names) + (r"(^|::|[ ])(%s)\(" % CODEC, r"BrunsliDecoder::")
    ok = vs.rng(1, 1 << 62)
    for w in ("BrunsliToJpeg", "JpegToBrunsli"):
        fn = Fn("wasm", w, keep)
        outcomes(rep, fn, w, ok, vs.of(0), floor=2)
        rv = set()

        def on(i, e, mm):
            if i.op == "ret":
                rv.add(i)
        fn.run(premise(), on)
        ev = fn.events
        fl = Flow(rep, fn, w)
        out = [x for x in ev if x[1].startswith("operator new")]
        if not fl.ob("one result object", len(out) == 1, "%d" % len(out)):
            continue
        out = fn.key(["i", out[0][0].id])
        src = set()

        def back(o, d=0):
            v = fn.f.val(o)
            if v is not None and v.op in ("phi", "select") and d < 8:
                for x in v.ops[1 if v.op == "select" else 0:]:
                    back(x, d + 1)
            else:
                src.add(("c", 0) if o[0] == "n" else fn.key(o))
        for x in rv:
            back(x.ops[0])
        fl.ob("the result object is returned", src <= {("c", 0), out} and out in src, str(src))
        if w == "BrunsliToJpeg":
            decflow(fl, fn, ("a", 0), [("a", 1)], lambda d: d == ("obj", out))
            k = index(ev, "WriteJpeg")
            ch = changes(ev, out, k[0], len(ev)) if k else []
            fl.ob("nothing else changes the result", not ch, str([x[1] for x in ch]))
        else:
            k = fl.one(ev, "ReadJpeg")
            if k is not None:
                a = ev[k][2]
                fl.ob("the codec gets all of the input", a[:3] == [("a", 0), ("a", 1), ("c", 2)], str(a[:3]), ev[k][0].where())
                encflow(fl, fn, ev, a[3], out, len(ev), 100, "BrunsliEncodeJpeg")
    for w, want in (("GetJpegData", "data"), ("GetJpegLength", "size"), ("GetBrunsliData", "data"), ("GetBrunsliLength", "size")):
        fn = Fn("wasm", w, keep)
        got = set()

        def back2(o, d=0):
            v = fn.f.val(o)
            if v is not None and v.op in ("phi", "select") and d < 8:
                for x in v.ops[1 if v.op == "select" else 0:]:
                    back2(x, d + 1)
            else:
                got.add(fn.descr(o)[:2])
        for i in fn.f.insts():
            if i.op == "ret":
                back2(i.ops[0])
        rep.ob("R3", w + " describes the result object", fn.w, got - {("c", 0)} == {(want, ("a", 0))}, str(got))
    # streaming
    fn = Fn("wasm", "BrunsliDecoderProcess", keep)
    key = "BrunsliDecoderProcess"
    st = fn.m.enum("Status") if hasattr(fn.m, "enum") else None
    for v, want, t in ((0, 0, "more input"), (1, 0, "more output"), (3, 1, "done"), (2, 2, "error")):
        res = fn.run(Premise().pcall(lambda i, s: name(i) == "Decode", vs.of(v)))
        rep.ob("R1" if v == 2 else "R2", "%s reports %s" % (key, t), fn.w, bool(res) and all(r[1] == vs.of(want) for r in res), "returns " + rets(res))
    fl = Flow(rep, fn, key)
    k = fl.one(fn.events, "Decode")
    if k is not None:
        c = fn.events[k][0]
        a = fn.events[k][2]

        def cell(d):
            return [fn.descr(i.ops[0]) for i in fn.f.insts() if i.op == "store" and fn.obj(i.ops[1]) == d and before(fn.f, i, c)]
        slot = lambda n: ("load", ("x", ("a", 0), n))
        fl.ob("the instance's decoder is used", a[0] == ("load", ("a", 0)) or a[0] == slot(0), str(a[0]), c.where())
        fl.ob("the input is the instance's", cell(a[2]) == [slot(2)] and cell(a[1]) == [slot(3)], "%s, %s" % (cell(a[2]), cell(a[1])), c.where())
        fl.ob("the output is the instance's", cell(a[4]) == [slot(4)] and cell(a[3]) == [("c", 65536)], "%s, %s" % (cell(a[4]), cell(a[3])), c.where())
        o = [i for i in fn.f.insts() if i.op == "store" and fn.key(i.ops[1]) == ("x", ("a", 0), 5)]
        want = ("sub", ("c", 65536), ("load", a[3][1]))
        strip = lambda d: d[2] if d[0] == "trunc" else d
        fl.ob("the size of the output is what Decode filled", len(o) == 1 and strip(fn.descr(o[0].ops[0])) == want and before(fn.f, c, o[0]),
              str([fn.descr(x.ops[0]) for x in o]), c.where())
    fn = Fn("wasm", "BrunsliDecoderInit", keep)
    fl = Flow(rep, fn, "BrunsliDecoderInit")
    fn.run(premise())
    got = {}
    for i in fn.f.insts():
        k = fn.key(i.ops[1]) if i.op == "store" else None
        if k is None:
            continue
        n = 0
        if k[0] == "x" and isinstance(k[2], int):
            n, k = k[2], k[1]
        got.setdefault(n, []).append(i)
    mal = fn.calls("malloc")
    sizes = [fn.descr(i.ops[0]) for i in mal]
    fl.ob("buffers have the published size", len(mal) == 2 and sizes == [("c", 65536)] * 2 and [fn.descr(x.ops[0]) for x in got.get(1, [])] == [
        ("c", 65536)], "%s, %s" % (sizes, [fn.descr(x.ops[0]) for x in got.get(1, [])]))
    strip = lambda d: d[2] if d[0] == "trunc" else d
    src = {}
    for n in (2, 4):
        for x in got.get(n, []):
            v = fn.f.val(x.ops[0])
            while v is not None and v.op in ("trunc", "ptrtoint"):
                v = fn.f.val(v.ops[0])
            src[n] = v
    fl.ob("input and output have a buffer each", len(src) == 2 and src[2] is not src[4] and set(src.values()) == set(mal), str(src))


def java(rep):
    src = os.path.join(REPO, "java/dev/brunsli/wrapper")
    fs = [os.path.join(src, x) for x in ("Codec.java", "CodecJNI.java")]
    d = tempfile.mkdtemp(prefix="bsa-java-", dir=ir.build.BUILD)
    try:
        p = subprocess.run(["javac", "-d", d] + fs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise AnalysisBroken("cannot compile the Java sources: " + p.stdout[-500:])
        out = {}
        for c in ("Codec", "CodecJNI"):
            p = subprocess.run(["javap", "-c", "-p", "-constants", os.path.join(d, "dev/brunsli/wrapper", c + ".class")], stdout=subprocess.PIPE, text=True)
            out[c] = p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    w = "java/dev/brunsli/wrapper/Codec.java"
    for n in ("nativeDecode", "nativeEncode"):
        rep.ob("R5", "%s is declared as the native side defines it" % n, "java/dev/brunsli/wrapper/CodecJNI.java",
               re.search(r"static native byte\[\] %s\(java\.nio\.ByteBuffer\);" % n, out["CodecJNI"]) is not None, "")
    meths = {}
    exc = {}
    cur = None
    for l in out["Codec"].split("\n"):
        m = re.match(r"  (?:public|private|protected|static| )*\S+ (\w+)\((.*?)\)", l)
        if m and l.rstrip().endswith((";",)) and ":" not in l:
            cur = (m.group(1), m.group(2))
            meths[cur] = []
            continue
        m = re.match(r"\s+(\d+)\s+(\d+)\s+(\d+)\s+(Class|any)", l)
        if m and cur:
            exc.setdefault(cur, []).append(tuple(int(x) for x in m.groups()[:3]))
        m = re.match(r"\s+(\d+): (\S+)\s*(.*)", l)
        if m and cur:
            meths[cur].append((int(m.group(1)), m.group(2), m.group(3)))
    BB = "java.nio.ByteBuffer"
    for n, nat in (("decode", "nativeDecode"), ("encode", "nativeEncode")):
        b = meths.get((n, BB))
        if not b:
            raise AnalysisBroken("no Java method %s(ByteBuffer)" % n)
        for direct in (0, 1):
            for null in (0, 1):
                r = jpaths(exc.get((n, BB), []), b, nat, {"isDirect": direct, nat: 0 if null else ("native",)})
                if not direct:
                    ok = r == {("throw", False)}
                    t = "%s refuses buffers it can not read" % n
                elif null:
                    ok = r == {("throw", True)}
                    t = "%s throws when there is no result" % n
                else:
                    ok = r == {(("native",), True)}
                    t = "%s returns the result" % n
                if direct or not null:
                    rep.ob("R5", t, w, ok, str(sorted(map(str, r))))
        a = meths.get((n, "byte[]"))
        if not a:
            raise AnalysisBroken("no Java method %s(byte[])" % n)
        txt = " ".join(x[1] + " " + x[2] for x in a)
        al = re.search(r"aload_0 \s*arraylength \s*invokestatic \S+ // Method java/nio/ByteBuffer\.allocateDirect", txt)
        al = al or re.search(r"aload_0\s+arraylength\s+invokestatic\s+\S+\s+// Method java/nio/ByteBuffer\.allocateDirect", txt)
        put = re.search(r"// Method java/nio/ByteBuffer\.put:\(\[B\)", txt)
        go = re.search(r"// Method %s:\(Ljava/nio/ByteBuffer;\)\[B\s+areturn" % n, txt)
        rep.ob("R5", "%s of an array works on a copy of all of it" % n, w, bool(al and put and go and al.start() < put.start() < go.start()), txt[:200])


def jpaths(handlers, code, nat, vals):
    """Outcomes of straight bytecode: (returned value or "throw", native called)."""
    at = {pc: k for k, (pc, o, a) in enumerate(code)}
    out = set()
    work = [(0, (), (("arg",),) + (None,) * 8, False)]
    seen = 0
    while work:
        k, st, loc, called = work.pop()
        seen += 1
        if seen > 2000:
            raise AnalysisBroken("Java method is too complex")
        pc, o, a = code[k]
        if o.startswith("invoke") or o == "athrow":
            hs = [h for h in handlers if h[0] <= pc < h[1]]
            for h in hs:
                work.append((at[h[2]], (("exception",),), loc, called or o != "athrow" and nat in a))
            if hs and o == "athrow":
                continue
        st = list(st)
        loc = list(loc)
        nxt = [k + 1]
        m = re.match(r"([ai])(load|store)_?(\d+)?$", o)
        if m:
            n = int(m.group(3) if m.group(3) else a.split()[0])
            if m.group(2) == "load":
                st.append(loc[n])
            else:
                loc[n] = st.pop()
        elif o.startswith("invoke"):
            q = re.search(r"// (?:Interface)?Method (\S+?):\((.*?)\)(\S+)", a)
            fn = q.group(1).strip('"').split(".")[-1].strip('"')
            nargs = len(re.findall(r"\[*(?:L[^;]+;|[BCDFIJSZ])", q.group(2))) + (0 if o == "invokestatic" else 1)
            args = st[len(st) - nargs:] if nargs else []
            del st[len(st) - nargs:]
            if fn == nat:
                called = called or args == [("arg",)]
            if q.group(3) != "V":
                if fn in vals and ("arg",) in args:
                    st.append(vals[fn])
                else:
                    st.append(("call", fn))
        elif o == "new":
            st.append(("new", a))
        elif o == "dup":
            st.append(st[-1])
        elif o == "pop":
            st.pop()
        elif o in ("ldc", "ldc_w"):
            st.append(("const",))
        elif o == "aconst_null":
            st.append(0)
        elif o.startswith("iconst_"):
            st.append(int(o[7:]) if o[7:] != "m1" else -1)
        elif o in ("ifnull", "ifnonnull", "ifeq", "ifne"):
            v = st.pop()
            t = at[int(a.split()[0])]
            if v == 0 or v == 1 or v == ("native",):
                z = v == 0
                nxt = [t if z == (o in ("ifnull", "ifeq")) else k + 1]
            else:
                nxt = [t, k + 1]
        elif o == "goto":
            nxt = [at[int(a.split()[0])]]
        elif o == "athrow":
            out.add(("throw", called))
            continue
        elif o == "areturn":
            out.add((st.pop(), called))
            continue
        elif o in ("nop", "checkcast"):
            pass
        elif o in ("newarray", "anewarray", "arraylength", "ineg", "i2l", "l2i", "getfield", "instanceof"):
            st.pop()
            st.append((o,))
        elif o in ("bipush", "sipush", "getstatic"):
            st.append((o,))
        elif o in ("iadd", "isub", "imul", "iand", "ior", "baload", "aaload"):
            st.pop()
            st.pop()
            st.append((o,))
        elif re.match("if_[ai]cmp..$", o):
            st.pop()
            st.pop()
            nxt = [at[int(a.split()[0])], k + 1]
        elif o in ("iflt", "ifge", "ifgt", "ifle"):
            st.pop()
            nxt = [at[int(a.split()[0])], k + 1]
        else:
            raise AnalysisBroken("Java instruction %s is not handled" % o)
        for n in nxt:
            work.append((n, tuple(st), tuple(loc), called))
    return out


def run(rep):
    rep.rule("R1", "failure of any operation is reported", 60)
    rep.rule("R2", "success is reported when everything succeeded", 10)
    rep.rule("R3", "all of the data is handed on unchanged", 80)
    rep.rule("R4", "sinks pass on every byte", 5)
    rep.rule("R5", "the Java methods throw when there is no result", 8)
    for u, e, g in (("cbrunsli", True, False), ("dbrunsli", False, False), ("cbrunsli-groups", True, True), ("dbrunsli-groups", False, True)):
        tool(rep, u, e, g)
    capi(rep)
    jni(rep)
    wasm(rep)
    java(rep)
