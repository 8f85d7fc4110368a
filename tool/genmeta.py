#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, level="other"):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files,
                           "mechanism": [{"name": n, "where": w} for n, w in mech]},
                  _tech=tech, _note=note, _level=level))


DEC = "c/dec/brunsli_decode.cc"
ENC = "c/enc/brunsli_encode.cc"
WR = "c/dec/jpeg_data_writer.cc"
RD = "c/enc/jpeg_data_reader.cc"

prop("A02", "Constant tables that define the format are the published ones",
     "Every constant table the file format depends on (initial probabilities, context tables, stock quantization and "
     "Huffman tables, canned application markers, scan orders, static prefix codes, signature) has the published "
     "contents in the encoder and in the decoder. Both sides code through the same contents, and tables that are two "
     "views of one code (write table and read tree) agree entry by entry.",
     ["inputs", "histories"], "for all streams ever written or read, by any release",
     "Round-trip tests pass when both sides change together, and only touch the table entries their few images use.",
     ["c/common/constants.cc", "c/common/constants.h", "c/common/context.cc", "c/common/context.h",
      "c/common/distributions.h", "c/common/quant_matrix.cc", "c/dec/histogram_decode.cc",
      "c/enc/histogram_encode.cc", "c/enc/huffman_encode.cc", "c/dec/huffman_decode.cc",
      "c/include/brunsli/jpeg_data.h"],
     [("shared constant tables", "c/common/constants.h, c/common/context.h"),
      ("write/read table pairs", "c/enc/histogram_encode.cc, c/dec/histogram_decode.cc")],
     "compiled constant data compared by content and by referring step, plus entry-wise agreement of sibling tables (LLVM IR query)",
     "Exact for table contents and for which step refers to them; arithmetic on the looked-up values is not decided here.")

prop("C03", "An error reported by any step reaches the caller of the API",
     "Whenever a step of encoding, decoding, parsing or writing reports failure, the public operation that ran it "
     "reports failure too: no path turns the failure into success. This includes failures inside parallel group tasks, "
     "and a decoder instance that has failed keeps reporting failure on every later call.",
     ["inputs", "fault_sequences", "histories"], "for all inputs, all failing steps and all call histories",
     "The tests feed valid streams and a handful of truncations; almost none of the failing branches is ever taken.",
     [DEC, WR, ENC, RD, "c/experimental/groups.cc", "c/tools/cbrunsli.cc", "c/tools/dbrunsli.cc"],
     [("status returned by every step", "c/dec, c/enc"), ("error stage recorded and sticky", DEC + ":Fail"),
      ("shared failure flag of group tasks", "c/experimental/groups.cc")],
     "path-sensitive dataflow over finite value sets on LLVM IR from every call of a failing step to the returns of its caller",
     "Every call site of a status-returning step is an obligation; absorbed failures are listed with reasons in checks/c03.py.")

prop("E01", "Results depend only on the arguments of the call",
     "The codec keeps no mutable state outside the objects it is given and reads nothing but its arguments: no mutable "
     "global, static or thread-local data, no clock, environment, locale or random source, no dependence on memory "
     "addresses. Therefore equal inputs give equal outputs and independent instances may run concurrently.",
     ["schedules", "histories", "inputs"], "for all interleavings of independent instances and all call histories",
     "Tests run once, in one thread; hidden state only shows under particular histories or interleavings.",
     ["c/common", "c/dec", "c/enc", "c/experimental/groups.cc"],
     [("all state lives in caller-visible objects", "c/dec/state_internal.h, c/enc/state.h")],
     "whole-program effect analysis on LLVM IR: inventory of static storage, external symbols and address-to-integer flows",
     "Complete for the library and the groups codec; external C symbols must be on a reviewed list.")

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(V, "tool", "props_more.py")).read()) if os.path.exists(
    os.path.join(V, "tool", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks = []
nas = set(n["property"] for n in NA)
for p in P:
    i = p["id"]
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    if i in nas:
        continue
    if not os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        raise SystemExit("no check for " + i)
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": p["_tech"], "level": p["_level"], "level_note": p["_note"]})
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": NA,
       "notes": "Static analysis of LLVM IR compiled from /repo's current sources; see DESIGN.md. "
                "Exit 2 means the analysis could not be carried out. /repo carries fix: commits only, no hooks."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
