"""A02: the constant tables that define the format have the published contents
and the two sides refer to the same ones.

Tables are identified by content in the compiled program, so renaming, moving,
retyping or sharing them changes nothing; altering an entry on either side does.
"""
import json
import os
from bsa import ir
from bsa.build import AnalysisBroken, VERIF
from checks import c03

# Tables that are an implementation device: a correct rewrite may do without
# them, so they are only compared when an object of that name exists.
DEVICE = {"kBitMask", "kLut", "kIsValidMarker", "kMinRequiredComponents", "huff",
          "kSignature", "kJPEGZigZagOrder"}


def load_ref():
    with open(os.path.join(VERIF, "ref", "tables.json")) as f:
        return json.load(f)


def contents(m):
    res = {}
    for g in m.globals.values():
        if not g["decl"] and g.get("init"):
            res.setdefault(tuple(g["init"]), []).append(g)
    return res


def where(g):
    return "%s:%s" % ((g.get("file") or "?").replace("/repo/", ""), g.get("line", "?"))


def closest(m, vals):
    best = None
    for g in m.globals.values():
        v = g.get("init")
        if g["decl"] or not v or len(v) != len(vals):
            continue
        d = [k for k in range(len(v)) if v[k] != vals[k]]
        if best is None or len(d) < len(best[1]):
            best = (g, d)
    if best and len(best[1]) * 4 <= len(vals):
        g, d = best
        return "%s at %s differs at index %d (%s, expected %s)%s" % (
            g["dem"], where(g), d[0], g["init"][d[0]], vals[d[0]],
            " and %d more" % (len(d) - 1) if len(d) > 1 else "")
    return "no table with this content exists"


def run(rep):
    rep.rule("R1", "each side contains the published content of the table", 45)
    rep.rule("R2", "a table keeps the published content wherever it is defined", 40)
    rep.rule("R3", "every step that codes through the table refers to that content", 40)
    rep.rule("R4", "sibling tables of the two sides describe the same code", 6)
    ref = load_ref()
    mods = {}
    users = sorted(set(u.split("::")[-1] for t in ref.values() for s in t["sides"].values() for u in s))
    keepre = tuple(sorted(set(c03.keep()) | set(
        r"^(?!.*(\$_|'lambda)).*(^|[ :])%s(<[^(]*>)?\(" % n for n in users)))
    for side in ("dec", "enc"):
        m = mods[side] = ir.load(side, keep=keepre)
        cs = contents(m)
        rep.count("constant tables seen (%s)" % side, len(cs))
        for n, t in sorted(ref.items()):
            if side not in t["sides"]:
                continue
            v = tuple(t["values"])
            gs = cs.get(v, [])
            if n not in DEVICE:
                rep.ob("R1", "%s: %s" % (side, n), where(gs[0]) if gs else side, bool(gs),
                       "" if gs else closest(m, v))
            for g in m.globals.values():
                if g.get("vname") == n and not g["decl"] and g.get("init") and (g.get("file") or "").startswith(ir.build.REPO):
                    bad = tuple(g["init"]) != v
                    if bad and len(g["init"]) != len(v) and n in DEVICE:
                        continue
                    rep.ob("R2", "%s: %s" % (side, n), where(g), not bad, closest(m, v) if bad else "")
            if n in DEVICE:
                continue
            names = set(g["name"] for g in gs)
            for q in t["sides"][side]:
                fs = [f for f in m.functions.values() if not f.decl and f.qual == q]
                if not fs:
                    continue        # merged into another step; R1 still applies
                ok = any(f.name in g["users"] for f in fs for g in gs)
                rep.ob("R3", "%s: %s in %s" % (side, n, q), fs[0].file.replace("/repo/", ""),
                       ok, "the step no longer uses the published table")
    siblings(rep, mods, ref)


def get(mods, side, n, ref):
    # content actually present in the tree under analysis
    for g in mods[side].globals.values():
        if g.get("vname") == n and not g["decl"] and g.get("init"):
            return g["init"], where(g)
    return ref[n]["values"], side


def siblings(rep, mods, ref):
    nat, w = get(mods, "enc", "kJPEGNaturalOrder", ref)
    zig, w2 = get(mods, "enc", "kJPEGZigZagOrder", ref)
    ok = all(zig[nat[k]] == k for k in range(64)) and all(x == 63 for x in nat[64:])
    rep.ob("R4", "zigzag order inverts natural order", w2, ok, "tables are not inverse permutations")
    for tree, lens, syms, base in (("kLengthTree", "kHistogramLengthBitLengths", "kHistogramLengthSymbols", 3),
                                   ("kLogCountTree", "kLogCountBitLengths", "kLogCountSymbols", 0)):
        t, w = get(mods, "dec", tree, ref)
        t = [x - 256 if x > 127 else x for x in t]
        ln, w2 = get(mods, "enc", lens, ref)
        sy, w3 = get(mods, "enc", syms, ref)
        ok = True
        d = ""
        for v in range(len(ln)):
            pos, delta, bits = 0, 1, 0
            b = sy[v]
            while delta > 0 and bits < 32:
                pos += delta + ((b >> bits) & 1)
                bits += 1
                delta = t[pos] if pos < len(t) else 0
            # the decoder's tree is laid out from position 0 with root delta 1
            if -delta != v + base or bits != ln[v]:
                ok = False
                d = "value %d is written as %d bits %d but read as %d after %d bits" % (v + base, ln[v], sy[v], -delta, bits)
                break
        rep.ob("R4", "%s decodes %s" % (tree, syms), w, ok, d)
    a, w = get(mods, "dec", "kCodeLengthCodeOrder", ref)
    b, w2 = get(mods, "enc", "kStorageOrder", ref)
    rep.ob("R4", "order of code length codes", w, a == b, "decoder and encoder order differ")
    h, w = get(mods, "dec", "huff", ref)
    sy, _ = get(mods, "enc", "kHuffmanBitLengthHuffmanCodeSymbols", ref)
    ln, w2 = get(mods, "enc", "kHuffmanBitLengthHuffmanCodeBitLengths", ref)
    ok = len(h) == 32
    d = "unexpected shape"
    if ok:
        for v in range(6):
            for hi in range(0, 16, 1 << ln[v]):
                e = (sy[v] | hi) & 15
                if h[2 * e] != ln[v] or h[2 * e + 1] != v:
                    ok = False
                    d = "code length %d is written as %d bits %d but index %d reads %s" % (v, ln[v], sy[v], e, h[2 * e:2 * e + 2])
    rep.ob("R4", "static code of code lengths", w, ok, d)
    a, w = get(mods, "dec", "kBrunsliSignature", ref)
    b, w2 = get(mods, "enc", "kBrunsliSignature", ref)
    c, w3 = get(mods, "dec", "kSignature", ref)
    rep.ob("R4", "signature written, verified and detected", w, a == b == c, "%s %s %s" % (a, b, c))
    for n in ("kNumNonzeroContextSkip", "kContextAlgorithm", "kNonzeroBuckets", "kFreqContext", "kNumNonzeroContext", "kApp0Densities", "kStockQuantizationTables"):
        a, w = get(mods, "dec", n, ref)
        b, w2 = get(mods, "enc", n, ref)
        rep.ob("R4", "%s on both sides" % n, w, a == b, "decoder and encoder disagree")
