"""Mechanical extraction: /repo's current sources -> LLVM IR -> JSON; and the
native build of the same contracts for replay."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        e = BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
        e.text = p.stderr
        raise e
    return p.stdout


def tool(out):
    """the IR dumper (built on demand: checks run in fresh copies)"""
    exe = os.path.join(out, "irdump")
    pre = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if os.path.exists(pre) and os.path.getmtime(pre) >= os.path.getmtime(src):
        return pre
    flags = [f for f in run(["llvm-config-18", "--cxxflags"]).split() if f.startswith(("-I", "-D"))]
    run(["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions"] + flags +
        [src, "-o", exe, "-lLLVM-18", "-L/usr/lib/llvm-18/lib"])
    return exe


def config_h(out):
    inc = os.path.join(out, "include", "smash")
    os.makedirs(inc, exist_ok=True)
    src = open(os.path.join(REPO, "src/include/smash/config.h.in")).read()
    src = re.sub(r"#cmakedefine (\w+).*", r"/* \1 not set */", src)
    src = re.sub(r"@\w+@", "verif", src)
    open(os.path.join(inc, "config.h"), "w").write(src)
    return os.path.join(out, "include")


def includes(out):
    return ["-DGCC_COMPILER", "-DLITTLE_ENDIAN_ARCHITECTURE", "-I" + os.path.join(VERIF, "units"),
            "-I" + REPO + "/src/include", "-I" + config_h(out),
            "-I" + REPO + "/src",
            "-isystem", REPO + "/3rdparty/Cuba-4.2.2", "-isystem", REPO + "/3rdparty/einhard",
            "-isystem", REPO + "/3rdparty/yaml-cpp-0.8.0/include", "-isystem", "/usr/include/eigen3"]


COMMON = ["-std=c++17", "-DNDEBUG", "-fno-math-errno", "-ffp-contract=off", "-fno-access-control", "-w"]


def directives(unit):
    d = {"sources": [], "flags": [], "native": []}
    for l in open(unit):
        m = re.match(r"//@(\w+)\s+(.*)", l)
        if m:
            d.setdefault(m.group(1), []).extend(m.group(2).split())
    return d


def srcpath(s):
    if s.startswith("@"):
        return os.path.join(VERIF, "units", s[1:])
    return s if s.startswith("/") else os.path.join(REPO, "src", s)


def blocks(lines):
    """top-level definitions of a unit: (first, last) line indices, by indentation"""
    out, i = [], 0
    while i < len(lines):
        l = lines[i]
        if l and not l[0].isspace() and not l.startswith(("#", "//", "}", "using ", "extern ")) and l.rstrip().endswith("{"):
            j = i
            while j < len(lines) and not lines[j].startswith("}"):
                j += 1
            out.append((i, j))
            i = j
        elif l and l.startswith(("VC_PROOF", "static ", "inline ")) and l.rstrip().endswith(("}", ";")):
            out.append((i, i))
        i += 1
    return out


def usable(unit, out, flags):
    """The unit itself, or - when contracts in it no longer compile against /repo (say, a private member they
    look at was renamed) - a copy without those contracts and the helpers they need.  Returns (path, dropped)."""
    lines = open(unit).read().split("\n")
    path = os.path.join(out, os.path.basename(unit))
    dropped = []
    for _ in range(12):
        open(path, "w").write("\n".join(lines))
        try:
            run(["clang++-18"] + flags + ["-fsyntax-only", "-ferror-limit=0", path])
            return path, dropped
        except BuildError as e:
            bad = {int(m.group(1)) - 1 for m in re.finditer(re.escape(path) + r":(\d+):\d+: (?:fatal )?error:", e.text)}
            if os.environ.get("VC_SHOW_ERRORS"):
                print(e.text)
            hit = [b for b in blocks(lines) if any(b[0] <= k <= b[1] for k in bad)]
            if not hit:
                raise
            for a, b in hit:
                m = re.match(r"VC_PROOF\((\w+)\)", lines[a])
                if m:
                    dropped.append(m.group(1))
                for k in range(a, b + 1):
                    lines[k] = ""
    raise BuildError("unit does not compile: " + unit)


def extract(unit, out, jobs=8, extra=()):
    """IR of the unit and the /repo sources it names.  When a proof needs a /repo
    function defined elsewhere (say, code moved to another file), the runner asks
    again with that file in extra."""
    os.makedirs(out, exist_ok=True)
    d = directives(unit)
    irdump = tool(out)
    flags = COMMON + includes(out) + d["flags"] + ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only",
                                                  "-fno-vectorize", "-emit-llvm", "-c"]
    srcs = [unit] + [p for p in (srcpath(s) for s in list(d["sources"]) + list(extra)) if os.path.exists(p)]
    bcs = []

    def comp(i):
        o = os.path.join(out, "u%d.bc" % i)
        run(["clang++-18"] + flags + [srcs[i], "-o", o])
        return o
    dropped = []
    with ThreadPoolExecutor(jobs) as tp:
        futs = [tp.submit(comp, i) for i in range(len(srcs))]
    for i, f in enumerate(futs):
        if i == 0 and f.exception():
            srcs[0], dropped = usable(unit, out, [x for x in flags if x not in ("-c", "-emit-llvm")])
            bcs.append(comp(0))
        else:
            bcs.append(f.result())
    linked = os.path.join(out, "l.bc")
    run([LLVM + "/llvm-link"] + bcs + ["-o", linked])
    txt = open(srcs[0]).read()
    proofs = re.findall(r"^VC_PROOF\((\w+)\)", txt, re.M)
    stubs = re.findall(r"\b(vcstub_\w+)", txt)
    api = ",".join(["vcproof_" + p for p in proofs] + sorted(set(stubs)))
    o = os.path.join(out, "o.bc")
    run([LLVM + "/opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify),function(loop-simplify)",
         "--internalize-public-api-list=" + api, linked, "-o", o])
    js = os.path.join(out, "o.json")
    with open(js, "w") as f:
        p = subprocess.run([irdump, o], stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-2000:])
    mod = json.load(open(js))
    mod["dropped"] = dropped
    return mod, proofs, srcs


def defining_source(dem):
    """the /repo/src file that defines the function with this demangled name"""
    head = dem.split("(")[0].split("<")[0].strip()
    if "smash::" not in head:
        return None
    name = head.split("smash::", 1)[1].split()[-1]
    short = name.split("::")
    pat = re.compile(r"(?m)^[\w:&*<>, ]*\b" + r"\s*::\s*".join(re.escape(x) for x in short[-2:]) + r"\s*\(")
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".cc") and f != "smash.cc":
            if pat.search(open(os.path.join(REPO, "src", f), errors="replace").read()):
                return f
    return None


PYTHIA = {"bremsstrahlungaction.cc", "crosssections.cc", "experiment.cc", "scatteraction.cc", "scatteractionmulti.cc",
          "scatteractionphoton.cc", "scatteractionsfinder.cc", "stringprocess.cc", "smash.cc", "library.cc",
          "hepmcoutput.cc", "hepmcinterface.cc", "rivetoutput.cc", "rootoutput.cc"}


def native(unit, out, jobs=8, everything=False):
    """the same contracts compiled to machine code"""
    d = directives(unit)
    exe = os.path.join(out, "native" + ("_all" if everything else ""))
    srcs = [unit] + [p for p in [srcpath(s) for s in d["sources"]] + [srcpath(s) for s in d["native"] if not s.startswith("-")] if os.path.exists(p)]
    libs = [s for s in d["native"] if s.startswith("-")]
    flags = COMMON + includes(out) + d["flags"] + ["-O1", "-g1", "-DVC_NATIVE", "-pthread"]
    if everything:
        flags.append("-DVC_EVERYTHING")
        have = {os.path.abspath(s) for s in srcs}
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):
            p = os.path.join(REPO, "src", f)
            if f.endswith(".cc") and f not in PYTHIA and p not in have:
                srcs.append(p)
    if any(s.endswith("/logging.cc") for s in srcs):
        srcs.append(os.path.join(REPO, "3rdparty/einhard/einhard.cpp"))
        flags.append("-DVC_LOGGING")

    def comp(i):
        o = os.path.join(out, "n%d.o" % i)
        try:
            run(["clang++-18"] + flags + ["-c", srcs[i], "-o", o])
        except BuildError:
            if i == 0:
                srcs[0], _ = usable(unit, out, flags)
                run(["clang++-18"] + flags + ["-c", srcs[0], "-o", o])
                return o
            if not everything:
                raise
            return None
        return o
    with ThreadPoolExecutor(jobs) as tp:
        objs = [o for o in tp.map(comp, range(len(srcs))) if o]
    run(["clang++-18", "-pthread", "-no-pie"] + objs + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition",
         "-lgsl", "-lgslcblas"] + libs)
    return exe
