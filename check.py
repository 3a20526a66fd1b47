#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--contract REGEX]
Deductive check of one property: rebuilds the contract units of the property against /repo's current sources,
generates the proof obligations of every contract from the LLVM IR of the real code, discharges them, executes the
same contracts natively (replay of refuted obligations; bounded complement), writes evidence/<id>.json."""
import sys, os
VT = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3
except ImportError:
    os.execv(VT, [VT] + sys.argv)
import re, json, time, glob, shutil, subprocess, tempfile, argparse, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vcg"))
import build

CRE = re.compile(r'^VC_(CONTRACT|BOUNDED)\(((C\d\d)_\w+)\s*(?:,\s*([^)]*))?\)', re.M)


def units():
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.cpp"))):
        yield f, open(f).read()


class Unit:
    def __init__(s, path, src):
        s.path, s.src = path, src
        s.base = os.path.basename(path)[:-4]
        s.contracts = []
        for m in CRE.finditer(src):
            o = m.group(4) or ""
            s.contracts.append(dict(name=m.group(2), prop=m.group(3), bounded=m.group(1) == "BOUNDED", mode="fp" if "fp" in o.split() else "real",
                                    opts={k: eval(v) for k, v in re.findall(r'(\w+)=([\w.]+)', o)}, unit=path))
        s.sources = [x for m in re.finditer(r'^//\s*vc:sources (.*)', src, re.M) for x in m.group(1).split()]
        s.replaces = [m.groups() for m in re.finditer(r'^//\s*vc:replace(-recursive)? (\S+) "(.*?)" with (\S+)', src, re.M)]
        s.assumes = [m.groups() for m in re.finditer(r'^//\s*vc:assumes (\S+) (.*)', src, re.M)]
        s.defs = [x for m in re.finditer(r'^//\s*vc:flags (.*)', src, re.M) for x in m.group(1).split()]


def prove_contract(c, bc, replaces, tmo_total, q):
    """runs in a child process"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    sys.setrecursionlimit(20000)
    import llvmir, sym
    from step import Vcg
    from exe import Undecided, NeedCut
    t0 = time.time()
    cuts = set()
    res = dict(contract=c["name"], status="proved", oblig={}, notes=[])
    g = None
    try:
        for it in range(12):
            mod = llvmir.Module(bc)
            o = dict(c["opts"])
            if os.environ.get("VERIF_TIER") == "thorough":
                o["timeout"] = 3 * o.get("timeout", 20000)
            g = Vcg(mod, mode=c["mode"], opts=o, deadline=t0 + tmo_total)
            g.cuts = set(cuts)
            for rec, rxn, rx, stub in replaces:
                if re.fullmatch(rxn, c["name"]):
                    g.replace.append((rx, stub, bool(rec)))
            try:
                g.run("vc_contract_" + c["name"])
                break
            except NeedCut as e:
                cuts.add((e.fn, e.idx))
        else:
            res["status"] = "undecided"
            res["notes"].append("too many loop cuts")
    except (Undecided, sym.Unsupported) as e:
        res["status"] = "undecided"
        res["notes"].append("undecided: %s" % e)
    except MemoryError:
        res["status"] = "undecided"
        res["notes"].append("undecided: out of memory")
    except Exception as e:
        res["status"] = "undecided"
        res["notes"].append("undecided: verifier error %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:]))
    if g is not None:
        res["oblig"] = {k: dict(count=o["count"], discharged=o["discharged"], failed=o["failed"][:3], unknown=o["unknown"][:3], nf=len(o["failed"]), nu=len(o["unknown"]),
                                time=round(o["time"], 3)) for k, o in g.oblig.items()}
        res["fns"] = sorted(g.dem.get(f, f) for f in g.fns)
        res["solver_time"] = g.solver_time
        res["solver_calls"] = g.solver_calls
        res["backends"] = {k: v for k, v in g.backends.items() if v}
        res["paths"] = g.paths
        res["covers"] = sorted(g.cover_hits)
        res["uncovered"] = sorted(g.cover_all - g.cover_hits)
        res["notes"] += sorted(g.notes)
        res["loops_cut"] = len(cuts)
        res["fails"] = sum(len(o["failed"]) for o in g.oblig.values())
        res["unknowns"] = sum(len(o["unknown"]) for o in g.oblig.values())
        if res["status"] == "proved":
            if res["fails"]:
                res["status"] = "failed"
            elif res["unknowns"]:
                res["status"] = "undecided"
            elif not sum(o["count"] for o in g.oblig.values()) or not g.paths:
                res["status"] = "vacuous"
        elif res["fails"]:
            res["status"] = "failed"
    res["time"] = time.time() - t0
    q.put(res)


def flat_inputs(inp):
    """model -> native replay lines, or None"""
    lines = []
    if inp is None:
        return None
    for k, v in inp:
        if v is None:
            return None
        if k == "arr":
            for x in v:
                if x is None:
                    return None
                lines.append("r %.17g" % x)
        elif isinstance(v, bool):
            lines.append("b %d" % v)
        else:
            lines.append("%s %.17g" % (k[0], v))
    return lines


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--contract", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay", default="")
    a = ap.parse_args()
    os.environ["VERIF_TIER"] = a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    thorough = a.tier == "thorough"
    BUDGET = 4 * 3600 if thorough else 560
    work = tempfile.mkdtemp(prefix="vc_%s_" % a.prop)
    try:
        rc = run(a, seed, t0, thorough, BUDGET, work)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    for p in mp.active_children():
        p.kill()
    os._exit(rc)


def native_run(binp, c, cases, seed, out, secs):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    return subprocess.Popen([binp, c, str(cases), str(seed), out, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)


def native_replay(binp, c, path):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    r = subprocess.run([binp, c, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
    return r.returncode, (r.stdout.decode(errors="replace").strip().split("\n") or [""])[-1], r.stderr.decode(errors="replace")[-2000:]


def run(a, seed, t0, thorough, BUDGET, work):
    prop = a.prop
    us = [Unit(p, s) for p, s in units()]
    us = [u for u in us if any(c["prop"] == prop and re.search(a.contract, c["name"]) for c in u.contracts)]
    if not us:
        print("no contracts for", prop)
        return 2
    # ---- build (parallel per unit)
    def build_unit(u):
        d = os.path.join(work, u.base)
        os.makedirs(d, exist_ok=True)
        u.bc = build.to_ir(u.path, d, u.sources, u.defs) if any(not c["bounded"] and c["prop"] == prop for c in u.contracts) else None
        u.bin = os.path.join(work, u.base + ".native")

    def both_builds(u):
        with cf.ThreadPoolExecutor(2) as ex2:
            f = ex2.submit(build_unit, u)
            g = ex2.submit(build.to_native, u.path, os.path.join(work, u.base + ".native"), u.sources, u.defs)
            f.result(), g.result()

    import concurrent.futures as cf
    dropped = []

    def fit(u):
        """compile the unit; contracts that no longer fit the code's private interface are left out (reported, undecided)"""
        u.dropped = []
        src, path = u.src, u.path
        for it in range(15):
            try:
                both_builds(u)
                return None
            except build.BuildError as e:
                smaller = build.without_errors(src, str(e), u.path)
                if smaller is None:
                    return str(e)
                src = smaller
                u.path = os.path.join(work, os.path.basename(path))
                open(u.path, "w").write(src)
                left = set(m.group(2) for m in CRE.finditer(src))
                u.dropped += [c["name"] for c in u.contracts if c["name"] not in left and c["prop"] == prop]
                u.contracts = [c for c in u.contracts if c["name"] in left]
                if not u.contracts:
                    return str(e)
        return "too many contracts do not fit"

    with cf.ThreadPoolExecutor(8) as ex:
        errs = list(ex.map(fit, us))
    good = [u for u, e in zip(us, errs) if e is None]
    for u, e in zip(us, errs):
        names = u.dropped + ([c["name"] for c in u.contracts if c["prop"] == prop] if e is not None else [])
        if names:
            print("UNDECIDED: contracts of %s that do not fit the private interface of the current code: %s" % (u.base, " ".join(names)))
            dropped += names
    if any(e and "error: static assertion failed" in e for e in errs) or not any(c["prop"] == prop and re.search(a.contract, c["name"]) for u in good for c in u.contracts):
        print("BUILD ERROR: the contracts do not compile against /repo's current sources")
        print("\n".join(e[-3000:] for e in errs if e))
        return 3
    us = good
    t_build = time.time() - t0
    if a.replay:
        for u in us:
            for c in u.contracts:
                if re.search(a.contract, c["name"]) and ("# contract " + c["name"]) in open(a.replay).read():
                    print(native_replay(u.bin, c["name"], a.replay))
        return 0
    jobs = [(u, c) for u in us for c in u.contracts if c["prop"] == prop and re.search(a.contract, c["name"])]
    # ---- proofs
    NP = 7
    pend = [(u, c) for u, c in jobs if not c["bounded"]]
    pend.sort(key=lambda x: -x[1]["opts"].get("cost", 1))
    running = []
    results = {}
    natres = {}
    natpend = [(u, c) for u, c in jobs]
    nat_running = []
    ncases = {False: 3000, True: 200000}[thorough]
    nsecs = {False: 8, True: 300}[thorough]
    mpctx = mp.get_context("fork")
    while pend or running or natpend or nat_running:
        while pend and len(running) + len(nat_running) < NP + 1:
            u, c = pend.pop(0)
            q = mpctx.Queue()
            rem = max(30, BUDGET - (time.time() - t0))
            if any(x["status"] == "failed" for x in results.values()):
                rem = 45  # already refuted: the rest only adds detail
            if not thorough:
                rem = min(rem, c["opts"].get("limit", 1e9))
            p = mpctx.Process(target=prove_contract, args=(c, u.bc, u.replaces, rem, q))
            p.start()
            running.append((p, q, u, c, time.time() + rem + 20))
        while natpend and (len(running) + len(nat_running) < NP + 1):
            u, c = natpend.pop(0)
            k = c["opts"].get("cases", 1)
            out = os.path.join(work, c["name"] + ".nat")
            mult = 5 if c["bounded"] else 1
            nat_running.append((native_run(u.bin, c["name"], int(ncases * mult * k), seed, out, nsecs * (3 if c["bounded"] else 1)), u, c, out))
        for r in list(running):
            p, q, u, c, dl = r
            res = None
            try:
                res = q.get(timeout=0.05)
            except Exception:
                if not p.is_alive():
                    try:
                        res = q.get(timeout=1)
                    except Exception:
                        res = dict(contract=c["name"], status="undecided", oblig={}, notes=["undecided: verifier process died"])
                elif time.time() > dl:
                    p.kill()
                    res = dict(contract=c["name"], status="undecided", oblig={}, notes=["undecided: time budget"])
            if res is not None:
                results[c["name"]] = res
                if res["status"] == "failed":
                    running[:] = [x[:4] + (min(x[4], time.time() + 90),) for x in running]
                p.join(1)
                if p.is_alive():
                    p.kill()
                running[:] = [x for x in running if x[0] is not p]
        for r in list(nat_running):
            p, u, c, out = r
            if p.poll() is not None:
                so, se = p.communicate()
                natres[c["name"]] = (p.returncode, so.decode(errors="replace"), se.decode(errors="replace")[-3000:], out)
                nat_running.remove(r)
        time.sleep(0.02)
    # ---- verdicts
    rdir = os.path.join(HERE, "replays", prop)
    known = load_known(prop)
    violations = []
    knownhits = []
    undecided = [(n, "the contract does not fit the private interface of the current code") for n in dropped]
    searched = set()
    for u, c in jobs:
        n = c["name"]
        rc, so, se, out = natres[n]
        res = results.get(n)
        nat_fail = None
        if rc == 1:
            m = re.search(r'^FAIL \S+ (.*)$', so, re.M)
            nat_fail = m.group(1) if m else "failure"
        elif rc != 0:
            print("native runner error on %s: rc=%s %s" % (n, rc, se[-500:]))
            return 3
        done = False
        if res and res["status"] == "failed" and not nat_fail and len(searched) >= 4:
            searched.add(n)  # enough searching for one run
        if res and res["status"] == "failed":
            for on, o in res["oblig"].items():
                if not o["nf"]:
                    continue
                rep = os.path.join(rdir, n + "." + re.sub(r'\W+', "_", on)[:60] + ".txt")
                os.makedirs(rdir, exist_ok=True)
                found = None
                for cand in [x for rec in o["failed"] for x in rec.get("alts", [])] + [rec["inputs"] for rec in o["failed"]]:
                    ls = flat_inputs(cand)
                    if ls is None:
                        continue
                    with open(rep, "w") as fh:
                        fh.write("# contract %s\n# obligation %s\n# from the verifier's counterexample\n" % (n, on) + "\n".join(ls) + "\n")
                    try:
                        rrc, line, err = native_replay(u.bin, n, rep)
                    except subprocess.TimeoutExpired:
                        continue
                    if rrc == 1:
                        found = line
                        with open(rep, "a") as fh:
                            fh.write("# native result: %s\n# %s\n" % (line, err.replace("\n", "\n# ")))
                        break
                if not found and not nat_fail and n not in searched and time.time() - t0 < 700:
                    searched.add(n)
                    # search the real code for a failing input with a larger budget
                    p = native_run(u.bin, n, 400000, seed + 7919, out, 30)
                    so2, se2 = p.communicate()
                    if p.returncode == 1:
                        nat_fail = re.search(r'^FAIL \S+ (.*)$', so2.decode(errors="replace"), re.M).group(1)
                        se = se2.decode(errors="replace")[-3000:]
                if not found and nat_fail:
                    shutil.copy(out, rep)
                    with open(rep, "a") as fh:
                        fh.write("# native search: %s\n# %s\n" % (nat_fail, se.replace("\n", "\n# ")))
                    found = nat_fail
                rec = o["failed"][0]
                with open(rep, "a") as fh:
                    fh.write("# failed obligation: %s / %s\n# back end: %s\n# goal: %s\n# info: %s\n# model: %s\n# path: %s\n" % (
                        n, on, rec["solver"], rec["goal"], rec["info"], json.dumps(rec["inputs"])[:2000], "\n#   ".join(rec["pc"])))
                if known_hit(known, n, on):
                    knownhits.append((n, on, known_hit(known, n, on)))
                elif found or not rec.get("abstract"):
                    violations.append((n, on, rep, bool(found)))
                else:
                    undecided.append((n, "obligation %s not discharged (abstracted path)" % on))
                done = True
        if nat_fail and not done:
            os.makedirs(rdir, exist_ok=True)
            rep = os.path.join(rdir, n + ".native.txt")
            shutil.copy(out, rep)
            with open(rep, "a") as fh:
                fh.write("# native execution of the contract failed: %s\n# %s\n" % (nat_fail, se.replace("\n", "\n# ")))
            if known_hit(known, n, nat_fail):
                knownhits.append((n, nat_fail, known_hit(known, n, nat_fail)))
            else:
                violations.append((n, nat_fail, rep, True))
        if res and res["status"] in ("undecided", "vacuous"):
            undecided.append((n, res["status"] + ": " + "; ".join(res["notes"][:3]) + "; open: " + ", ".join(k for k, o in res["oblig"].items() if o["nu"])))
    # ---- report
    tot = sum(o["count"] for r in results.values() for o in r["oblig"].values())
    dis = sum(o["discharged"] for r in results.values() for o in r["oblig"].values())
    back = {}
    for r in results.values():
        for k, v in r.get("backends", {}).items():
            back[k] = back.get(k, 0) + v
    fns = sorted({f for r in results.values() for f in r.get("fns", []) if "simu::" in f})
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level_of(prop),
              coverage=dict(
                  obligations=tot + sum(1 for n, w in undecided if "vacuous" in w or not results.get(n, {}).get("oblig")), discharged=dis,
                  checker_cmd="python3 /verif/check.py %s --tier %s" % (prop, a.tier),
                  trusted_base=["clang 18 front end and LLVM function-local passes (%s)" % build.PASSES, "vcg (LLVM-IR verification-condition generator in /verif/vcg)",
                                "z3 %s" % z3.get_version_string(), "cvc5", "sympy Groebner bases where listed", "externs.py: assumed contracts of libm, libstdc++, C++ runtime"],
                  contracts={n: dict(status=r["status"], obligations=sum(o["count"] for o in r["oblig"].values()), discharged=sum(o["discharged"] for o in r["oblig"].values()),
                                     named={k: [o["discharged"], o["count"]] for k, o in r["oblig"].items()}, paths=r.get("paths"), loops_cut_by_invariant=r.get("loops_cut", 0),
                                     seconds=round(r.get("time", 0), 1), solver_seconds=round(r.get("solver_time", 0), 1), notes=r["notes"][:8]) for n, r in results.items()},
                  back_ends=back, solver_seconds=round(sum(r.get("solver_time", 0) for r in results.values()), 1),
                  functions_under_contract=fns, functions_count=len(fns),
                  undischarged=[dict(contract=n, why=w) for n, w in undecided],
                  bounded_native={n: dict(standin=next(c["bounded"] for _, c in jobs if c["name"] == n), summary=so.strip().split("\n")[0], sample=(so.strip().split("\n") + [""])[1][:300])
                                  for n, (rc, so, se, out) in natres.items()},
              ),
              assumptions=ASSUME + [x for u in us for cre, x in u.assumes if any(re.fullmatch(cre, c["name"]) for _, c in jobs)],
              wall_s=round(time.time() - t0, 2), violations=len(violations), known_findings=len(knownhits))
    if ev["level"] != "proof":
        ran = sum(int(m.group(1)) for (rc, so, se, out) in natres.values() for m in [re.search(r'RAN (\d+)', so)] if m)
        dist = sum(int(m.group(1)) for (rc, so, se, out) in natres.values() for m in [re.search(r'DISTINCT (\d+)', so)] if m)
        ev["coverage"].update(evaluations=ran, distinct_nontrivial=dist, rule="seeded inputs drawn by the contract (native/runner.cpp); non-trivial: not discarded by a precondition and input vector not seen before",
                              samples=[(so.strip().split("\n") + [""])[1][:300] for (rc, so, se, out) in natres.values()][:5])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for n, r in results.items():
        print("%-44s %-9s obligations %d/%d paths %s  %.1fs" % (n, r["status"], sum(o["discharged"] for o in r["oblig"].values()), sum(o["count"] for o in r["oblig"].values()), r.get("paths"), r.get("time", 0)))
    for n, (rc, so, se, out) in natres.items():
        if any(c["bounded"] for _, c in jobs if c["name"] == n):
            print("%-44s bounded   %s" % (n, so.strip().split("\n")[0]))
    print("%s: %d/%d obligations discharged, %d contracts, %d functions, build %.1fs, total %.1fs" % (prop, dis, tot, len(results), len(fns), t_build, time.time() - t0))
    for n, w in undecided:
        print("UNDECIDED %s: %s (bounded native execution stands in)" % (n, w[:600]))
    for n, on, what in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for n, on, rep, found in violations:
        print("failed obligation: %s / %s" % (n, on))
        print("VIOLATION property=%s replay=%s%s" % (prop, rep, "" if found else " no-failing-input-found"))
    return 1 if violations else 0


ASSUME = ["proof obligations over the reals treat float arithmetic as exact (contracts marked fp use IEEE-754 binary32 semantics); rounding is only exercised by the bounded native runs",
          "integers are mathematical integers for symbolic sizes and indices (no wrap-around)",
          "a thrown exception's message construction is dropped; control transfers at the allocation of the exception",
          "stack and heap blocks are distinct, 16-byte aligned; allocation does not fail",
          "sin/cos are uninterpreted apart from the Pythagorean identity and angle addition; sqrt is exact"]


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation="(.*?)" (.*)', l)
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def known_hit(known, contract, ob):
    for p, c, o, what in known:
        if c == contract and o == ob:
            return what
    return None


if __name__ == "__main__":
    main()
