"""E01: results depend on nothing but the arguments.

R1  no writable global, thread-local or function-local static object is
    defined by the codec (so no state survives a call or is shared by threads)
R2  no routine reachable from the codec reads an ambient source (clock,
    environment, random numbers, process/thread identity, locale); external C
    functions must be on a reviewed list of pure or memory-only routines
R3  an address never becomes a number, except to form the difference of two
    addresses (so results never depend on where memory was placed)
R4  no unordered/pointer-keyed container is iterated: no instantiation of an
    unordered container or of an associative container keyed by a pointer
"""
import re
from bsa import ir
from bsa.build import AnalysisBroken

# Reviewed external C symbols.  Anything else that is not a C++ runtime/library
# symbol (mangled) or compiler intrinsic is reported.
PURE_C = {
    "memcmp", "memcpy", "memmove", "memset", "memchr", "strlen", "strcmp",
    "strncmp", "log2", "log2f", "log", "logf", "abs", "labs", "floor", "ceil",
    "exp2", "pow", "sqrt", "__once_proxy",
    "abort", "fflush", "fprintf", "fputs", "fwrite", "puts", "printf", "putchar",
    "malloc", "free", "calloc", "realloc", "exit",
    "BrotliDecoderCreateInstance", "BrotliDecoderDecompressStream",
    "BrotliDecoderDestroyInstance", "BrotliDecoderDecompress",
    "BrotliDecoderIsFinished", "BrotliDecoderTakeOutput",
    "BrotliDecoderHasMoreOutput", "BrotliDecoderSetParameter",
    "BrotliEncoderCompress", "BrotliEncoderCreateInstance",
    "BrotliEncoderDestroyInstance", "BrotliEncoderSetParameter",
    "BrotliEncoderCompressStream", "BrotliEncoderIsFinished",
    "BrotliEncoderMaxCompressedSize", "BrotliEncoderHasMoreOutput",
    "BrotliEncoderTakeOutput", "BrotliDecoderGetErrorCode",
    "BrotliDecoderErrorString",
    "__gxx_personality_v0", "__clang_call_terminate", "__cxa_begin_catch",
    "__cxa_end_catch", "__cxa_rethrow", "__cxa_allocate_exception",
    "__cxa_throw", "__cxa_free_exception", "__cxa_pure_virtual",
    "__cxa_throw_bad_array_new_length", "__stack_chk_fail", "__assert_fail",
    # needed by the parallel tool only: one thread per core, result independent
}
PURE_GROUPS = {"sched_getaffinity", "pthread_create", "__gthrw_"}

AMBIENT_CXX = re.compile(
    r"(std::random_device|std::chrono::|std::this_thread::(get_id|sleep)|std::rand\b|"
    r"std::locale|std::getenv|std::thread::hardware_concurrency|std::time\b|"
    r"std::clock\b|std::hash<.*\*>)")


def _units(tier):
    return ["lib", "groups"]


def _ptr_operand_ok(fn, i):
    """ptrtoint used only as an operand of sub whose other side is ptrtoint."""
    us = fn.uses.get(i.id, [])
    for u in us:
        if u.op == "sub":
            for o in u.ops:
                v = fn.val(o)
                if o[0] == "ce" and o[1] == "ptrtoint":
                    continue
                if v is None or v.op != "ptrtoint":
                    return False
            continue
        if u.op == "icmp":   # equality/ordering of two addresses
            if all((fn.val(o) is not None and fn.val(o).op == "ptrtoint") or
                   o[0] == "ce" for o in u.ops):
                continue
        return False
    return True


def run(rep):
    rep.rule("R1", "objects with static storage defined by the codec are immutable", 30)
    rep.rule("R2", "functions reachable from the codec read no ambient source", 200)
    rep.rule("R3", "addresses are only subtracted from addresses", 3)
    rep.rule("R4", "no address-ordered container is instantiated", 1)
    for unit in _units(rep.tier):
        m = ir.load(unit, inline=False)
        rep.count("functions analysed (%s)" % unit, len([f for f in m.functions.values() if not f.decl]))
        for g in m.globals.values():
            if g["decl"]:
                # an external object: only standard streams may be referenced
                us = [u for u in g.get("users", []) if m.functions[u].repo]
                if not us:
                    continue
                ok = g["const"] or g["name"] in ("stderr", "stdout", "stdin") or \
                    g["name"].startswith(("_ZTV", "_ZTI", "_ZTS", "_ZTT", "_ZSt4c", "_ZSt5n", "__dso_handle", "__libc_single"))
                rep.ob("R1", "external " + g["dem"], "used by %s" % (us[:2],), ok,
                       "external mutable object referenced")
                continue
            nm = g["name"]
            where = "%s:%s" % (g.get("file", "?").replace("/repo/", ""), g.get("line", "?"))
            if nm.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZTT", ".str", "llvm.", "__const.", "switch.table")):
                continue
            if nm.startswith("_ZGV"):
                # guard variable: one-time initialisation of a function-local
                # static; harmless only when the guarded object is constant
                rep.ob("R1", "one-time initialised " + g["dem"], where,
                       _guard_const(m, g), "function-local static with runtime initialisation")
                continue
            it = g.get("ditype", "")
            const_decl = it.startswith("const ") and not it.split("[")[0].endswith("*")
            ok = (g["const"] or const_decl) and not g["tls"]
            if nm == "_ZStL8__ioinit":
                ok = True
            rep.ob("R1", "global " + g["dem"], where, ok,
                   "mutable object with static or thread storage duration survives the call")
        # reachability: everything defined in the unit counts as the codec
        for f in m.functions.values():
            if f.decl:
                users = None
                n = f.name
                if n.startswith("llvm."):
                    if n.startswith(("llvm.readcyclecounter", "llvm.thread.pointer", "llvm.returnaddress", "llvm.frameaddress", "llvm.get.rounding")):
                        rep.ob("R2", n, _caller(m, n), False, "reads machine state")
                    continue
                if n.startswith("_Z") :
                    bad = AMBIENT_CXX.search(f.dem) is not None
                    if bad and unit == "groups" and "hardware_concurrency" in f.dem:
                        bad = False
                    rep.ob("R2", "%s: %s" % (unit, f.dem[:100]), _caller(m, n) if bad else unit, not bad,
                           "reads an ambient source")
                    continue
                ok = n in PURE_C or (unit == "groups" and (n in PURE_GROUPS or n.startswith(("pthread_", "__gthr", "__pthread"))))
                rep.ob("R2", "%s: %s" % (unit, n), _caller(m, n), ok,
                       "external routine outside the reviewed list of pure/memory-only routines")
            else:
                bad = AMBIENT_CXX.search(f.short) is not None and "hardware_concurrency" not in f.dem \
                    and not f.repo and not f.short.startswith("std::locale")
                if bad and unit == "groups" and "chrono" in f.dem:
                    bad = True
                rep.ob("R2", "%s: %s" % (unit, f.dem[:100]), f.file.replace("/repo/", ""), not bad,
                       "reads an ambient source")
                um = re.search(r"std::(unordered_(map|set|multimap|multiset)<[^,>]*|(map|set|multimap|multiset)<[^,<>]*\*,)", f.dem)
                if um:
                    rep.ob("R4", "%s: %s" % (unit, um.group(0)), f.file, False,
                           "iteration order depends on hashing/addresses")
        rep.ob("R4", unit, unit, True, "")
        for f in m.repo_fns():
            for i in f.insts():
                if i.op == "ptrtoint":
                    rep.ob("R3", "%s: %s" % (unit, f.short), i.where(), _ptr_operand_ok(f, i),
                           "address value flows into a computation")


def _guard_const(m, g):
    # _ZGVZ...E3foo guards _ZZ...E3foo
    other = m.globals.get("_Z" + g["name"][4:]) or m.globals.get("_ZZ" + g["name"][5:])
    if other is None:
        return False
    it = other.get("ditype", "")
    return it.startswith("const ")


def _caller(m, n):
    for f in m.functions.values():
        if f.decl:
            continue
        for i in f.insts():
            if i.callee == n:
                return i.where() + " in " + f.short
    return "?"
