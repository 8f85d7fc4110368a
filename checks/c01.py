"""C01: sections are only accepted in an order their contents can rely on.

The order is a typestate over the set of sections met.  Each rule fixes one
state and one event as a premise and decides (value-set dataflow, bsa/scen.py)
that the automaton in the source refuses / takes the transition.
"""
from bsa import vs
from checks.lib import *

T = {"meta": 3, "int": 4, "quant": 5, "histo": 6, "dc": 7, "ac": 8, "jpg": 9}
NEEDS = {"quant": ["int"], "histo": ["int"], "dc": ["histo", "quant"], "ac": ["dc"]}
BASE = (1 << 1) | (1 << 2)          # signature and header


def bits(names):
    r = 0
    for n in names:
        r |= 1 << T[n]
    return r


def run(rep):
    rep.rule("R1", "a section is refused while something it depends on has not been met", 10)
    rep.rule("R2", "a section is accepted once everything it depends on has been met", 6)
    rep.rule("R3", "the stream advances only along signature, header, sections or bypass payload, end", 12)
    rep.rule("R4", "per-group decoding starts only after all common sections", 3)
    rep.rule("R5", "output starts only once metadata, tables and the first coefficient section were met", 3)
    rep.rule("R6", "coefficient storage and tables are set up before coefficients are decoded", 2)
    um = unit("dec")
    m, mods = um
    P = Premise

    def tagged(t, met, missing, section=1):
        p = P().call("ReadTag", vs.of(0)).call("EnterSection", vs.of(0)).field("SectionState", "tag", vs.of(t))
        p.field("SectionState", "is_section", vs.of(1, -1) if section else vs.of(0))
        p.bit("SectionState", "tags_met", zeros=missing, ones=met | BASE)
        return p.bit("State", "tags_met", zeros=missing | met | BASE)
    head = ("SectionHeaderState", "stage", vs.of(0))
    every = ["int", "quant", "histo", "dc", "ac"]
    for n, deps in NEEDS.items():
        for d in deps:
            scenario(rep, "R1", "%s section before the %s section" % (n, d), um, "ParseSection",
                     tagged(T[n], 0, 1 << T[d]), "fail", [head])
        closure = set(deps)
        for d in list(deps) + ["int"]:
            closure |= set(NEEDS.get(d, [])) | set(x for y in NEEDS.get(d, []) for x in NEEDS.get(y, []))
        scenario(rep, "R2", "%s section after all it depends on" % n, um, "ParseSection",
                 tagged(T[n], bits(closure), 0), "ok", [head])
    scenario(rep, "R1", "metadata section after the DC section", um, "ParseSection",
             tagged(T["meta"], 1 << T["dc"], 0), "fail", [head])
    scenario(rep, "R2", "metadata section before the DC section", um, "ParseSection",
             tagged(T["meta"], 1 << T["int"], bits(["dc", "ac"])), "ok", [head])
    scenario(rep, "R2", "internals section first", um, "ParseSection",
             tagged(T["int"], 0, bits(every)), "ok", [head])
    for n, t in (("signature", 1), ("header", 2), ("bypass payload", 9)):
        scenario(rep, "R1", "%s among the sections" % n, um, "ProcessSection",
                 P().field("SectionState", "tag", vs.of(t)).field("State", "skip_tags", vs.of(0)), "fail")
    # the tag itself has been recorded by then, or it would shadow a missing one
    for t in sorted(set(range(1, 16))):
        scenario(rep, "R1", "tag %d seen a second time" % t, um, "ReadTag",
                 P().field("State", "*data", vs.of((t << 3 | 2) - (256 if t > 15 else 0), t << 3 | 2))
                 .rel(LEN, POS, vs.rng(1, 1 << 20)).bit("SectionState", "tags_met", ones=1 << t), "fail")

    # --- stage automaton
    S = {"SIGNATURE": 0, "HEADER": 1, "FALLBACK": 2, "SECTION": 3, "BODY": 4, "DONE": 5, "ERROR": 6}

    def minus(*keep_):
        return vs.of(*[v for v in range(6) if v not in [S[k] for k in keep_]])

    def never(key, fn, pr, allowed, *ent):
        scenario(rep, "R3", key, um, fn, pr, "fail", ent, good=minus(*allowed))

    def may(key, fn, pr, to, *ent):
        scenario(rep, "R3", key, um, fn, pr, "ok", ent, good=vs.of(S[to]))
    never("signature is followed by the header only", "VerifySignature", P(), ["HEADER"])
    hst = m.enum("HeaderState::Stage")
    hlive = ("HeaderState", "stage", vs.rng(0, hst["FINALE"]))
    never("header is followed by sections or bypass payload only", "DecodeHeader", P(), ["SECTION", "FALLBACK"], hlive)
    fin = ("HeaderState", "stage", vs.of(hst["FINALE"]))
    v3 = lambda v: P().field("HeaderState", "varint_values", vs.of(v << 2), 3)
    for v in (0, 2):
        never("version %d has no bypass payload" % v, "DecodeHeader", v3(v), ["SECTION"], fin)
    never("bypass version has nothing but payload", "DecodeHeader",
          v3(1).bit("SectionState", "tags_met", ones=8), ["FALLBACK"], fin)
    may("bypass version leads to the payload", "DecodeHeader", v3(1).bit("SectionState", "tags_met", ones=8), "FALLBACK", fin)
    never("bypass payload is followed by the end only", "DecodeOriginalJpg", P(), ["DONE"])
    never("a section tag leads to contents, next tag or end", "ParseSection", P(), ["SECTION", "BODY", "DONE"])
    never("sections do not end while tags are being read", "ParseSection",
          P().call("ReadTag", vs.of(0)), ["SECTION", "BODY"], head)
    never("sections do not end before AC data was met", "ParseSection",
          P().bit("SectionState", "tags_met", zeros=1 << T["ac"]).bit("State", "tags_met", zeros=1 << T["ac"]),
          ["SECTION", "BODY"], head)
    for n in ("meta", "int", "quant", "histo", "dc"):
        p = P().field("SectionState", "tag", vs.of(T[n])).field("State", "skip_tags", vs.of(0))
        never("%s section is followed by further sections" % n, "ProcessSection", p, ["SECTION"])
    p = P().field("SectionState", "tag", vs.of(T["ac"])).field("State", "skip_tags", vs.of(0))
    never("AC section ends the stream", "ProcessSection", p, ["DONE"])
    for t in range(10, 16):
        never("unknown section %d is followed by further sections" % t, "ProcessSection",
              P().field("SectionState", "tag", vs.of(t)), ["SECTION"])
    # every state but the accepting one keeps the loop from reporting success
    f = m.one("DoProcessJpeg")
    for k in ("SIGNATURE", "HEADER", "FALLBACK", "SECTION", "BODY"):
        pr = P()
        for fn in STAGES:
            pr.call(fn, vs.of(S["ERROR"]))
        pr.field("InternalState", "result", vs.rng(1, 7))
        scenario(rep, "R3", "success is not reported from stage %s" % k, um, f, pr, "fail", [("State", "stage", vs.of(S[k]))])
    stagefn = {"SIGNATURE": "VerifySignature", "HEADER": "DecodeHeader", "FALLBACK": "DecodeOriginalJpg",
               "SECTION": "ParseSection", "BODY": "ProcessSection"}
    for k, fn in stagefn.items():
        # from stage k only its own function runs: with it failing, others succeeding, nothing succeeds
        pr = P().field("InternalState", "result", vs.rng(1, 7))
        for k2, fn2 in stagefn.items():
            pr.call(fn2, vs.of(S["ERROR"]) if k2 == k else vs.of(S["DONE"]))
        scenario(rep, "R3", "stage %s is served by %s" % (k, fn), um, f, pr, "fail", [("State", "stage", vs.of(S[k]))])

    # --- group decoder
    gm = unit("groups", ("DecodeGroups", "SkipSection"))
    for n in ("int", "quant", "histo"):
        scenario(rep, "R4", "groups decoded without the %s section" % n, gm, "DecodeGroups",
                 P().call("ProcessJpeg", vs.of(7)).bit("SectionState", "tags_met", zeros=1 << T[n])
                 .bit("State", "tags_met", zeros=1 << T[n]), "fail")
    for v in range(0, 7):
        scenario(rep, "R4", "groups decoded after common sections gave status %d" % v, gm, "DecodeGroups",
                 P().call("ProcessJpeg", vs.of(v)), "fail")

    # --- serializer
    dcac = (1 << T["dc"]) | (1 << T["ac"])
    init = ("SerializationState", "stage", vs.of(0))
    good = vs.of(1, 3)
    um2 = unit("dec", ("SerializeSection", "PushOutput", "EncodeSOI"))
    g = um2[0].one("SerializeJpeg")

    pr = P().bit("SectionState", "tags_met", zeros=dcac).bit("State", "tags_met", zeros=dcac).field("State", "stage", vs.rng(0, 4))
    scenario(rep, "R5", "output started before the first coefficient section", um2, g, pr, "fail", [init], good=good)
    for n in ("dc", "ac"):
        pr = P().bit("SectionState", "tags_met", zeros=dcac & ~(1 << T[n]), ones=1 << T[n]).field("State", "stage", vs.rng(0, 4))
        pr.field("JPEGData", "version", vs.of(0)).call("SerializeSection", vs.of(3))
        scenario(rep, "R5", "output may start once the %s section was met" % n, um2, g, pr, "ok", [init], good=vs.of(3))

    # --- coefficient storage
    for fn in ("DecodeDCDataSection", "DecodeACDataSection"):
        um3 = unit("dec", ("WarmupMeta", fn))
        f = um3[0].one("ProcessSection")
        s = Scen(f, um3[1], Premise())
        calls = lambda n: [i for i in f.insts() if scen.call_is(i, n, None, s)]
        if not calls(fn):
            raise AnalysisBroken("ProcessSection does not call " + fn)
        for u in calls(fn):
            rep.ob("R6", "%s after WarmupMeta" % fn, u.where(), any(before(f, w, u) for w in calls("WarmupMeta")),
                   "coefficients are decoded before their storage is set up")
