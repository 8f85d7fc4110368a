"""Shared helpers: the common decoder/encoder units and scenario obligations."""
from bsa import ir, absx, vs, scen
from bsa.build import AnalysisBroken
from bsa.scen import Premise, Scen
from checks import c03

STAGES = ["VerifySignature", "DecodeHeader", "DecodeOriginalJpg", "ParseSection", "ProcessSection"]
BITS = ["BrunsliBitReaderIsHealthy", "BrunsliBitReaderCanRead", "BrunsliBitReaderFinish",
        "BrunsliBitReaderSuspend", "BrunsliBitReaderResume", "BrunsliBitReaderInit",
        "BrunsliBitReaderRead", "BrunsliBitReaderSetOptimistic", "DecodeNumNonzeros",
        "DecodeAcBlock", "DecodeEmptyAcBlock", "CanRead"]


def names_re(names):
    return tuple(sorted(r"^(?!.*(\$_|'lambda)).*(^|[ :])%s(<[^(]*>)?\(" % n for n in names))


def keep(extra=()):
    return tuple(sorted(set(c03.keep()) | set(names_re(STAGES)) | set(names_re(BITS)) | set(names_re(extra))))


_mods = {}


def unit(u, extra=()):
    k = (u, tuple(extra))
    if k not in _mods:
        m = ir.load(u, keep=keep(extra))
        _mods[k] = (m, absx.ModSets(m))
    return _mods[k]


SUCCESS = {
    "BrunsliStatus": vs.of(0), "Stage": vs.rng(0, 5), "bool": vs.of(1, -1),
    "SerializationStatus": vs.of(0, 1, 3), "Status": vs.of(0, 1, 3),
}


def success(f):
    r = (f.ditypes or ["?"])[0]
    s = SUCCESS.get(r.split("::")[-1])
    if s is None:
        raise AnalysisBroken("no success values known for %s returning %s" % (f.qual, r))
    return s


def cells(s, field):
    """All memory cells of field (struct, name) accessed in the function."""
    ks = set()
    for x in s.fn.insts():
        if x.op in ("load", "store"):
            kk = s.paths.cell(x.ops[0], x.ty) if x.op == "load" else s.paths.cell(x.ops[1], x.d.get("vty", ""))
            f = absx.field_of(kk)
            if isinstance(f, tuple) and scen.smatch(f[0], field[0]) and f[1] == field[1]:
                ks.add(kk)
    return ks


def entry(s, *items):
    """Memory at entry: (struct, field, vset) for every cell of that field."""
    mem = {}
    for st, fl, v in items:
        ks = cells(s, (st, fl))
        if not ks:
            raise AnalysisBroken("no access to %s.%s in %s" % (st, fl, s.fn.qual))
        for k in ks:
            mem[k] = v
    return mem


def show(v):
    if v is None:
        return "anything"
    return ",".join("%d" % l if l == h else "%d..%d" % (l, h) for l, h in v)


def scenario(rep, rule, key, um, fn, pr, want, ent=(), good=None, cap=None, start=None, where=None, on_inst=None):
    """Under premise `pr`, function `fn` never ("fail") / possibly ("ok")
    returns success."""
    m, mods = um
    f = fn if not isinstance(fn, str) else m.one(fn)
    s = Scen(f, mods, pr)
    mem = entry(s, *ent)
    good = success(f) if good is None else good
    isgood = lambda v: vs.meets(v, good)
    res = s.run({}, mem, start=start, stop=lambda r: isgood(r[1]), cap=cap, on_inst=on_inst)
    if s.capped:
        raise AnalysisBroken("%s: exploration of %s does not converge" % (key, f.qual))
    ok = [r for r in res if isgood(r[1])]
    w = where or (f.file.replace(ir.build.REPO + "/", "") + ":" + str(f.d.get("line", "?")))
    if want == "fail":
        bad = ok[0] if ok else None
        d = ""
        if bad:
            d = "%s may return %s via %s%s" % (
                f.qual, show(bad[1]), c03.trail_text(f, bad[2]),
                "" if s.hits else " (the condition is never consulted)")
        rep.ob(rule, key, w, not bad, d)
    else:
        d = ""
        if not ok:
            d = "%s returns only %s" % (f.qual, "; ".join(sorted(set(show(r[1]) for r in res))) or "nothing")
        rep.ob(rule, key, w, bool(ok), d)
    return s


def F(s, f):
    return ("F", s, f)


POS = F("State", "pos")
LEN = F("State", "len")
END = F("SectionState", "projected_end")


def before(f, a, b):
    """Does instruction a come before b on every path to b?"""
    return f.dominates(a.bb.id, b.bb.id) if a.bb is not b.bb else a.idx < b.idx
