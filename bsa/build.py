"""Builds the analysis input: LLVM IR of /repo's current sources, as JSON.

Everything is rebuilt from the working tree.  A cache under /verif/build (git
ignored) is keyed by the hash of every source file and of this tool, so it can
only ever return what a fresh build would return.
"""
import hashlib
import os
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"


class AnalysisBroken(Exception):
    """The analysis could not be carried out (exit code 2, no verdict)."""


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, **kw)
    return p


def _sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def ensure_tool():
    src = os.path.join(VERIF, "tool", "irdump.cc")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "irdump-" + _sha([src]))
    if os.path.exists(out):
        return out
    cfg = _run(["llvm-config-18", "--cxxflags"]).stdout.split()
    cfg = [c for c in cfg if not c.startswith("-std=") and c != "-fno-exceptions"]
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CLANG, "-O1", "-std=c++17"] + cfg + [
        src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    p = _run(cmd)
    if p.returncode != 0:
        raise AnalysisBroken("cannot build irdump: " + p.stderr[-2000:])
    os.replace(tmp, out)
    return out


def repo_sources(dirs, exts=(".cc", ".c")):
    res = []
    for d in dirs:
        p = os.path.join(REPO, d)
        if os.path.isfile(p):
            res.append(p)
            continue
        if not os.path.isdir(p):
            raise AnalysisBroken("missing source directory " + p)
        for root, sub, files in os.walk(p):
            sub.sort()
            for f in sorted(files):
                if f.endswith(exts):
                    res.append(os.path.join(root, f))
    return res


def _all_inputs():
    res = []
    for d in ("c", "wasm", "java"):
        for root, sub, files in os.walk(os.path.join(REPO, d)):
            if "tests" in root.split(os.sep):
                continue
            for f in files:
                if f.endswith((".cc", ".c", ".h", ".java")):
                    res.append(os.path.join(root, f))
    return res


LIB = ["c/common", "c/dec", "c/enc"]
JNI = "/usr/lib/jvm/java-17-openjdk-amd64/include"

# unit name -> (sources, extra compiler flags)
UNITS = {
    "lib": (LIB, ["-std=c++11"]),
    "probe": (LIB + [os.path.join(VERIF, "tool", "probe.cc")], ["-std=c++11"]),
    "dec": (["c/common", "c/dec"], ["-std=c++11"]),
    "enc": (["c/common", "c/enc"], ["-std=c++11"]),
    "gprobe": (LIB + ["c/experimental/groups.cc", os.path.join(VERIF, "tool", "probe.cc")], ["-std=c++11"]),
    "groups": (LIB + ["c/experimental/groups.cc"], ["-std=c++11"]),
    "cbrunsli": (["c/tools/cbrunsli.cc"], ["-std=c++11"]),
    "dbrunsli": (["c/tools/dbrunsli.cc"], ["-std=c++11"]),
    "cbrunsli-groups": (["c/tools/cbrunsli.cc"],
                        ["-std=c++11", "-DBRUNSLI_EXPERIMENTAL_GROUPS"]),
    "dbrunsli-groups": (["c/tools/dbrunsli.cc"],
                        ["-std=c++11", "-DBRUNSLI_EXPERIMENTAL_GROUPS"]),
    "jni": (["java/dev/brunsli/wrapper/codec_jni.cc",
             "java/dev/brunsli/wrapper/codec_jni_onload.cc"],
            ["-std=c++11", "-I" + JNI, "-I" + JNI + "/linux"]),
    "wasm": (["wasm/codec.cc"], ["-std=c++11", "-fms-extensions", "-w"]),
}

BASE = ["-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes",
        "-g", "-fno-discard-value-names",
        "-DNDEBUG", "-fno-access-control"]


def _compile(src, flags, out):
    cmd = [CLANG] + BASE + flags + ["-I" + os.path.join(REPO, "c/include"),
                                    "-I" + REPO, "-emit-llvm", "-c", src, "-o", out]
    p = _run(cmd + ["-fno-exceptions"])
    if p.returncode != 0:
        p = _run(cmd)  # the source uses exceptions
    if p.returncode != 0:
        raise AnalysisBroken("cannot compile %s:\n%s" % (src, p.stderr[-3000:]))


def module_json(unit, keep=(), inline=True, passes=None):
    """Returns the path of the JSON dump of `unit`.

    keep: demangled-name regexes of functions that must not be inlined.
    """
    tool = ensure_tool()
    srcs, flags = UNITS[unit]
    files = repo_sources(srcs)
    if not files:
        raise AnalysisBroken("unit %s has no sources" % unit)
    me = [os.path.join(VERIF, "bsa", "build.py"), os.path.join(VERIF, "tool", "probe.cc"), tool]
    key = _sha(_all_inputs() + me, repr((REPO, unit, list(keep), inline, passes, flags)))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s.json" % (unit, key))
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="bsa-", dir=BUILD)
    try:
        bcs = []
        jobs = []
        with ThreadPoolExecutor(max_workers=8) as ex:
            for i, f in enumerate(files):
                bc = os.path.join(tmp, "%03d.bc" % i)
                bcs.append(bc)
                jobs.append(ex.submit(_compile, f, flags, bc))
            for j in jobs:
                j.result()
        cmd = [tool, "--out", os.path.join(tmp, "out.json"), "--repo", REPO + "/"]
        if keep:
            kf = os.path.join(tmp, "keep")
            with open(kf, "w") as f:
                f.write("\n".join(keep) + "\n")
            cmd += ["--keep", kf]
        if not inline:
            cmd.append("--no-inline")
        if passes:
            cmd += ["--passes", passes, "--inline-std"]
        p = _run(cmd + bcs)
        if p.returncode != 0:
            raise AnalysisBroken("irdump failed: " + p.stderr[-2000:])
        # keep the cache small
        olds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.endswith(".json")]
        olds.sort(key=lambda x: os.path.getmtime(x))
        for o in olds[:-40]:
            try:
                os.unlink(o)
            except OSError:
                pass
        os.replace(os.path.join(tmp, "out.json"), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
