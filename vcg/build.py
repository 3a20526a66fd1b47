"""Compile a contract unit (which includes the real /repo code) to LLVM IR for proof and to a native
binary for replay.  Everything is rebuilt from /repo's working tree."""
import os, subprocess, shutil, hashlib, re

REPO = os.environ.get("VC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin"


def tool(n):
    p = os.path.join(LLVM, n)
    return p if os.path.exists(p) else shutil.which(n) or shutil.which(n + "-18")


CXX = [f for f in ["-std=c++20", "-DSIMU_EXPORT", "-DSIMU_OS_LINUX", "-DNDEBUG"]]

PASSES = ("function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,"
          "sroa,early-cse,instsimplify,simplifycfg,dce,loop-simplify)")


class BuildError(Exception):
    pass


def sh(cmd, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def incs():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "contracts")]


def repo_sources(which):
    out = []
    for s in which:
        out.append(os.path.join(REPO, s))
    return out


def to_ir(unit, outdir, sources=(), defs=()):
    """contract unit + listed /repo sources -> one optimised (function-local passes only) bitcode file"""
    os.makedirs(outdir, exist_ok=True)
    bcs = []
    procs = []
    for s in [unit] + repo_sources(sources):
        o = os.path.join(outdir, os.path.basename(s) + ".bc")
        cmd = [tool("clang++")] + CXX + ["-DVC_PROOF"] + list(defs) + incs() + [
            "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-math-errno", "-fno-strict-aliasing", "-fno-access-control",
            "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics", "-fno-discard-value-names",
            "-w", "-ferror-limit=0", "-emit-llvm", "-c", s, "-o", o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bcs.append(o)
    for cmd, p in procs:
        out, _ = p.communicate(timeout=600)
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), out.decode(errors="replace")[-60000:]))
    linked = os.path.join(outdir, "linked.bc")
    sh([tool("llvm-link")] + bcs + ["-o", linked])
    opt = os.path.join(outdir, "opt.bc")
    sh([tool("opt"), "-passes=" + PASSES, linked, "-o", opt])
    return opt


def to_native(unit, out, sources=(), defs=(), san=True):
    cmd = [tool("clang++")] + CXX + list(defs) + incs() + ["-O1", "-g1", "-ffp-contract=off", "-fno-access-control", "-w", "-ferror-limit=0"]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=undefined"]
    objs = []
    procs = []
    for i, s in enumerate([unit, os.path.join(VERIF, "native", "runner.cpp")] + repo_sources(sources)):
        o = out + ".%d.o" % i
        c = cmd + ["-c", s, "-o", o]
        procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for c, p in procs:
        o, _ = p.communicate(timeout=600)
        if p.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(c), o.decode(errors="replace")[-60000:]))
    sh(cmd + objs + ["-o", out])
    return out


def chunks(src):
    """line ranges [a, b) of the top-level definitions of a contract unit"""
    lines = src.split("\n")
    out, depth, start = [], 0, None
    for i, l in enumerate(lines):
        t = re.sub(r'"(\\.|[^"\\])*"', '""', l)
        t = re.sub(r"'(\\.|[^'])'", "0", t)
        t = t.split("//")[0]
        if start is None:
            if not t.strip() or t.startswith("#"):
                continue
            start = i
        depth += t.count("{") - t.count("}")
        if depth == 0 and re.search(r'[;}]\s*$', t):
            out.append((start, i + 1))
            start = None
    return out


def without_errors(src, message, unit):
    """the unit without the top-level definitions the compiler complained about; None if that cannot be told"""
    base = os.path.basename(unit)
    if re.search(r'error: static assertion failed', message):
        return None
    at = set(int(n) for f, n in re.findall(r'^(\S*?):(\d+):\d+: (?:fatal )?error:', message, re.M) if os.path.basename(f) == base)
    if not at:
        at = set(int(n) for f, n in re.findall(r'^(\S*?):(\d+):\d+: note:.*requested here', message, re.M) if os.path.basename(f) == base)
    if not at:
        return None
    lines = src.split("\n")
    hit = False
    for a, b in chunks(src):
        if any(a < n <= b for n in at):
            hit = True
            for i in range(a, b):
                lines[i] = ""
    return "\n".join(lines) if hit else None


def demangle(names):
    p = subprocess.run([tool("llvm-cxxfilt")], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().split("\n")[:len(names)]
