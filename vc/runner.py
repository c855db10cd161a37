"""Runs the proofs of one property and decides the verdict."""
import glob
import json
import os
import pickle
import re
import resource
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from concurrent.futures import ThreadPoolExecutor

from . import build

VERIF = build.VERIF


def load_units(pid):
    return sorted(glob.glob(os.path.join(VERIF, "units", pid + ".cc")) + glob.glob(os.path.join(VERIF, "units", pid + "_*.cc")))


def run_proof(module, proof, cfg):
    """in a child process; returns a plain dict"""
    import z3
    from . import machine, prove
    from .values import Unsupported
    from . import execu
    from . import loops
    res = {"proof": proof, "error": None, "obligations": [], "covers": {}, "functions": {}, "models": {}, "trusted": []}
    t0 = time.time()
    ex = machine.Machine(module)
    ex.inductive = loops.Inductive(ex)
    ex.deadline = t0 + cfg["explore"]
    st = execu.State()
    outs = []
    try:
        outs = ex.call(st, "vcproof_" + proof, [])
        for o in outs:
            if o.kind == "exc":
                ex.curloc = ("vcproof_" + proof, 0)
                ex.oblige(o.st, "no uncaught exception (%s)" % str(o.v[0]), False, "exception")
    except Unsupported as e:
        res["error"] = "unsupported: %s (in %s)" % (e, " < ".join(module["functions"][f]["dem"][:80] for f in reversed(ex.callstack[-4:])) or ex.curloc)
    except RecursionError:
        res["error"] = "unsupported: recursion"
    except Exception as e:
        res["error"] = "internal: %s\n%s" % (e, traceback.format_exc()[-1500:])
    res["explore_s"] = time.time() - t0
    res["stats"] = ex.stats
    # vacuity: some path reaches the end, every cover is reachable
    reach = False
    for o in outs:
        if o.kind == "ret":
            r, _ = prove.run_z3(list(o.st.pc), 10)
            if r != "unsat":
                reach = True
                break
    res["reach_end"] = reach
    for lab, pc in ex.covers.items():
        r, _ = prove.run_z3(list(pc), 10)
        res["covers"][lab] = r
    budget = cfg["budget"]
    for ob in ex.obls:
        if time.time() - t0 > cfg["wall"]:
            ob.status = ob.status or "unknown"
        else:
            prove.prove(ex, ob, budget)
        fn, ln = ob.loc if isinstance(ob.loc, tuple) else ("", 0)
        f = module["functions"].get(fn)
        res["obligations"].append({
            "label": ob.label, "kind": ob.kind, "status": ob.status, "backend": ob.backend, "time": round(ob.time, 3),
            "exact": ob.exact, "model": ob.model,
            "loc": "%s:%s" % ((f["dem"] if f else fn), ln)})
        if ob.status == "violated" and cfg.get("stop_at_first", True):
            nv = sum(1 for o in res["obligations"] if o["status"] == "violated")
            if nv >= 6:
                break
    res["trivial"] = ex.trivial
    for f, n in ex.executed.items():
        ff = module["functions"][f]
        res["functions"][ff["dem"]] = [ff.get("file", ""), n]
    res["models"] = ex.modelled
    res["trusted"] = sorted(ex.trusted)
    res["wall"] = time.time() - t0
    return res


def child(module, proof, cfg, path):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (cfg["mem"] << 20, cfg["mem"] << 20))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(100000)
    threading.stack_size(512 << 20)
    out = {}

    def body():
        try:
            out["r"] = run_proof(module, proof, cfg)
        except MemoryError:
            out["r"] = {"proof": proof, "error": "out of memory", "obligations": []}
        except BaseException as e:
            out["r"] = {"proof": proof, "error": "internal: %r %s" % (e, traceback.format_exc()[-1500:]), "obligations": []}
    t = threading.Thread(target=body)
    t.start()
    t.join()
    with open(path, "wb") as f:
        pickle.dump(out["r"], f)
    os._exit(0)


def run_all(tasks, cfg, jobs):
    """tasks: list of (module, proof, unit); forked workers"""
    pending = list(tasks)
    running = {}
    results = []
    tmp = tempfile.mkdtemp(prefix="vc")
    n = 0
    while pending or running:
        while pending and len(running) < jobs:
            module, proof, unit = pending.pop(0)
            if time.time() > cfg["stop"]:
                results.append({"proof": proof, "error": "not started within the time of the check", "obligations": [], "unit": unit})
                continue
            n += 1
            path = os.path.join(tmp, "r%d" % n)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                child(module, proof, cfg, path)
            running[pid] = (proof, unit, path, time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (proof, unit, path, t) in list(running.items()):
                if time.time() - t > cfg["wall"] + 30 or time.time() > cfg["stop"]:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        proof, unit, path, t = running.pop(pid)
        try:
            with open(path, "rb") as f:
                r = pickle.load(f)
            os.unlink(path)
        except Exception:
            r = {"proof": proof, "error": "worker died or timed out after %.0f s" % (time.time() - t), "obligations": []}
        r["unit"] = unit
        results.append(r)
    os.rmdir(tmp)
    order = {(u, p): i for i, (m, p, u) in enumerate(tasks)}
    results.sort(key=lambda r: order[(r["unit"], r["proof"])])
    return results


def replay(exe, proof, model, path, tries=200):
    with open(path, "w") as f:
        f.write("# proof=%s\n" % proof)
        for k, v in sorted(model.items()):
            f.write("%s=%s\n" % (k, v))
    try:
        p = subprocess.run([exe, "replay", proof, path, str(tries)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return p.returncode, p.stdout


def randomrun(exe, proof, n, seed, secs, path):
    try:
        p = subprocess.run([exe, "random", proof, str(n), str(seed), str(secs), path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return p.returncode, p.stdout


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                out.append(rest)
    return out


def main(argv):
    pid = argv[1]
    if pid == "setup":
        import z3  # noqa: F401
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        t = build.tool(os.path.join(VERIF, "build"))
        print("setup: " + t)
        return 0
    if "native" in argv[2:]:
        # development aid: evaluates every contract natively for a few seconds
        bad = 0
        d0 = tempfile.mkdtemp(prefix="vcn_")
        for i, u in enumerate(load_units(pid)):
            out = os.path.join(d0, str(i))
            os.makedirs(out)
            e = build.native(u, out)
            for p in re.findall(r"^VC_PROOF\((\w+)\)", open(u).read(), re.M):
                code, txt = randomrun(e, p, 10**7, 1, 3, os.path.join(d0, "rep"))
                if code == 3:
                    e = build.native(u, out, everything=True)
                    code, txt = randomrun(e, p, 10**7, 1, 3, os.path.join(d0, "rep"))
                    txt = "(everything linked) " + txt
                print("%-30s %s %s" % (p, code, txt.strip().replace("\n", " ")[:300]))
                bad |= code != 0
        subprocess.run(["rm", "-rf", d0])
        return int(bad)
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = "-v" in argv
    only = [a[7:] for a in argv if a.startswith("--only=")]
    for a in argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = int(os.environ.get("VC_JOBS", "8"))
    cfg = {"budget": 40 if tier == "quick" else 240, "explore": 150 if tier == "quick" else 1500,
           "wall": 240 if tier == "quick" else 2400, "mem": 6000}
    # the check as a whole answers within 15 minutes (quick)
    cfg["stop"] = t0 + (420 if tier == "quick" else 5 * 3600)
    cfg["standins"] = 200 if tier == "quick" else 3600
    scratch = tempfile.mkdtemp(prefix="vcb_" + pid)
    repdir = os.path.join(VERIF, "replay")
    os.makedirs(repdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        rc = decide(pid, tier, seed, cfg, jobs, scratch, repdir, verbose, only, t0)
    finally:
        subprocess.run(["rm", "-rf", scratch])
    return rc


def decide(pid, tier, seed, cfg, jobs, scratch, repdir, verbose, only, t0):
    units = load_units(pid)
    if not units:
        print("no unit for", pid)
        return 2
    tasks = []
    outdirs = {}
    not_compiled = []
    usable = []
    declared = []      # contracts outside the verifier's reach: bounded native evaluation only
    for i, u in enumerate(units):
        out = os.path.join(scratch, "u%d" % i)
        outdirs[u] = out
        try:
            mod, proofs, srcs = build.extract(u, out)
        except build.BuildError as e:
            print("EXTRACTION FAILED for", u)
            print(str(e)[-3000:])
            not_compiled.append(os.path.basename(u))
            continue
        usable.append(u)
        for p in mod["dropped"]:
            print("NOT EXTRACTED %s (does not compile against the current code)" % p)
            not_compiled.append(p)
        d = build.directives(u)
        for p in proofs:
            if only and p not in only:
                continue
            if ("thorough_" in p or p in d.get("thorough", [])) and tier == "quick":
                continue
            if p in d.get("standin", []):
                declared.append({"unit": u, "proof": p, "error": None, "obligations": []})
                continue
            tasks.append((mod, p, u))
    if not tasks and not declared:
        print("%s: no contract could be extracted, no verdict" % pid)
        return 2
    tb = time.time() - t0
    results = run_all(tasks, cfg, jobs)
    # code that lives in a /repo source the unit does not name: extract again with it
    extra = {}
    for rnd in range(3):
        again = {}
        for r in results:
            m = re.match(r"unsupported: no body for (.*?)(?: \(in .*)?$", r["error"] or "")
            src = build.defining_source(m.group(1)) if m else None
            if src and src not in extra.get(r["unit"], []) and src not in build.directives(r["unit"])["sources"]:
                again.setdefault(r["unit"], (set(), set()))
                again[r["unit"]][0].add(src)
                again[r["unit"]][1].add(r["proof"])
        if not again:
            break
        retry = []
        for u, (fs, ps) in again.items():
            extra.setdefault(u, []).extend(sorted(fs))
            try:
                mod, proofs, srcs = build.extract(u, outdirs[u] + "x%d" % rnd, extra=extra[u])
            except build.BuildError:
                continue
            print("extracted again with", " ".join(extra[u]))
            retry += [(mod, p, u) for p in proofs if p in ps]
        new = {(r["unit"], r["proof"]): r for r in run_all(retry, cfg, jobs)}
        results = [new.get((r["unit"], r["proof"]), r) for r in results]
    viol, undec = [], []
    nob = ndis = triv = 0
    backends = {}
    solver_time = 0.0
    funcs, models, trusted, bounded = {}, {}, set(), []
    vac = []
    for r in results:
        for ob in r["obligations"]:
            nob += 1
            solver_time += ob["time"]
            if ob["status"] == "proved":
                ndis += 1
                backends[ob["backend"]] = backends.get(ob["backend"], 0) + 1
            elif ob["status"] == "violated":
                viol.append((r, ob))
            else:
                undec.append((r, ob["label"] + " @ " + ob["loc"]))
        triv += r.get("trivial", 0)
        if r["error"]:
            undec.append((r, r["error"]))
        else:
            if not r.get("reach_end") and not any(o["status"] == "violated" for o in r["obligations"]):
                vac.append("%s: no path reaches the end of the contract" % r["proof"])
            if not any(o["kind"] in ("assert", "eq", "le") for o in r["obligations"]):
                vac.append("%s: no obligations generated" % r["proof"])
            for lab, c in r.get("covers", {}).items():
                if c == "unsat":
                    vac.append("%s: cover '%s' unreachable" % (r["proof"], lab))
        for f, (file, n) in r.get("functions", {}).items():
            if "/repo/" in file or file.startswith(build.REPO):
                funcs[f] = funcs.get(f, 0) + n
        for k, v in r.get("models", {}).items():
            models[k] = models.get(k, 0) + v
        trusted |= set(r.get("trusted", []))
        if verbose:
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            print("  %-40s obl=%d ok=%d paths-checks=%s explore=%.1fs wall=%.1fs %s" % (
                r["proof"], len(r["obligations"]), len(r["obligations"]) - len(bad), r.get("stats", {}).get("checks"),
                r.get("explore_s", 0), r.get("wall", 0), ("ERROR " + r["error"]) if r["error"] else ""))
            for o in bad[:5]:
                print("      %s: %s [%s] %s" % (o["status"], o["label"], o["loc"], o["model"]))
    # bounded proofs are declared in the unit
    for u in units:
        bounded += build.directives(u).get("bounded", [])

    rc = 0
    lines = []
    failed_labels = []
    native = {}
    finds = known_findings(pid)

    lock = threading.Lock()

    def exe(u, everything=False):
        k = (u, everything)
        with lock:
            if k not in native:
                native[k] = None
                try:
                    native[k] = build.native(u, outdirs[u], everything=everything)
                except build.BuildError as e:
                    print("native build failed: " + str(e)[-1500:])
            return native[k]

    def on_native(u, fn, *args):
        """runs fn(exe, *args); with all of /repo linked in when a function was missing"""
        code, txt = fn(exe(u), *args)
        if code == 3 and exe(u, True):
            code, txt = fn(exe(u, True), *args)
        return (2 if code == 3 else code), txt

    undecided_final = []
    seen = set()
    confirmed = []
    cand = []
    for r, ob in viol:
        key = (r["unit"], r["proof"], ob["label"])
        if key not in seen and sum(1 for k in seen if k[1] == r["proof"]) < 4:
            seen.add(key)
            cand.append((r, ob, os.path.join(repdir, "%s_%s_%d.txt" % (pid, r["proof"], len(seen) - 1))))

    def try_native(c):
        r, ob, rep = c
        code, txt = on_native(r["unit"], replay, r["proof"], ob["model"] or {}, rep)
        if code in (0, 2, "timeout"):
            code, txt = on_native(r["unit"], randomrun, r["proof"], 10**7, seed, 10, rep + ".rnd")
        return code, txt
    for u in {c[0]["unit"] for c in cand}:
        exe(u)
    with ThreadPoolExecutor(jobs) as tp:
        outcome = list(tp.map(try_native, [c for c in cand if exe(c[0]["unit"])]))
    undecided_final += [c for c in cand if not exe(c[0]["unit"])]
    for (r, ob, rep), (code, txt) in zip([c for c in cand if exe(c[0]["unit"])], outcome):
        if code not in (0, 2, "timeout"):
            with open(rep, "a") as f:
                f.write("# failed obligation: %s at %s\n# native run of the contract on the compiled /repo code:\n" % (ob["label"], ob["loc"]))
                f.write("".join("# " + l + "\n" for l in txt.splitlines()))
                f.write("# unit: %s\n" % os.path.relpath(r["unit"], VERIF))
            confirmed.append((r, ob, rep, txt.splitlines()[0] if txt else "crash"))
        else:
            undecided_final.append((r, ob, rep))
    for r, ob, rep, first in confirmed:
        what = "%s: %s" % (r["proof"], ob["label"])
        kf = [f for f in finds if f.split(" :: ")[0] == what]
        if kf:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
        else:
            print("failed obligation %s at %s; native: %s" % (what, ob["loc"], first))
            lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rep, VERIF)))
            rc = 1
    unreplayed = []
    confirmed_keys = {(r["unit"], r["proof"]) for r, ob, rep, f in confirmed}
    for r, ob, rep in undecided_final:
        if (r["unit"], r["proof"]) in confirmed_keys:
            continue
        if ob["exact"] and ob["kind"] in ("assert", "eq", "le", "exception", "safety"):
            with open(rep, "a") as f:
                f.write("# failed obligation: %s at %s\n# solver: sat (%s); the counterexample does not fail natively\n" % (ob["label"], ob["loc"], ob["backend"]))
            unreplayed.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, os.path.relpath(rep, VERIF)))
            print("failed obligation %s: %s at %s (not reproduced natively)" % (r["proof"], ob["label"], ob["loc"]))
        undec.append((r, ob["label"]))
    # undecided obligations: bounded stand-in by native evaluation
    standin = []
    nostandin = []
    todo = {}
    for r, what in undec:
        key = (r["unit"], r["proof"])
        if key not in confirmed_keys:
            todo.setdefault(key, (r, what))
    for r in declared:
        todo.setdefault((r["unit"], r["proof"]), (r, "declared bounded: the function is outside the verifier's reach"))
    for u in {k[0] for k in todo}:
        exe(u)
    secs = max(4, min(20 if tier == "quick" else 120, cfg["standins"] * jobs // max(1, len(todo))))

    def stand_in(k):
        rep = os.path.join(repdir, "%s_%s_bounded.txt" % (pid, k[1]))
        if not exe(k[0]):
            return 2, "", rep
        return on_native(k[0], randomrun, k[1], 10**7, seed, (8 if tier == "quick" else 120) if k in dkeys else secs, rep) + (rep,)
    dkeys = {(r["unit"], r["proof"]) for r in declared}
    with ThreadPoolExecutor(jobs) as tp:
        outcome = list(tp.map(stand_in, todo))
    for (k, (r, what)), (code, txt, rep) in zip(todo.items(), outcome):
        print("%s %s: %s" % ("BOUNDED" if k in dkeys else "UNDECIDED", r["proof"], what[:600]))
        if code == 0:
            standin.append("%s: %s" % (r["proof"], txt.strip()))
            print("  bounded stand-in (native evaluation of the contract): " + txt.strip())
        elif code in (2, "timeout"):
            nostandin.append(r["proof"])
            print("  no stand-in either")
        else:
            what = "%s: bounded" % r["proof"]
            print("  bounded stand-in failed: " + (txt.splitlines()[0] if txt else "crash"))
            if any(f.split(" :: ")[0].startswith(r["proof"] + ":") for f in finds):
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
            else:
                lines.append("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rep, VERIF)))
                rc = 1
    if unreplayed and rc == 0:
        lines.append(unreplayed[0])
        rc = 1
    # contracts without any answer are listed in the evidence as not explored; with no answer at all there is no verdict
    if rc == 0 and len(nostandin) == len(results) + len(declared):
        rc = 2
    if vac and rc == 0:
        for v in vac:
            print("VACUOUS " + v)
        rc = 2
    if nob == 0 and not standin:
        rc = rc or 2
    assumptions = sorted(trusted)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nob, "discharged": ndis, "checker_cmd": "python3-vt check.py %s %s" % (pid, tier),
            "trusted_base": ["clang 18 front end (C++ to LLVM IR at -O0-equivalent, then sroa/early-cse/simplifycfg)",
                             "the VC generator vc/*.py (symbolic execution of the IR)", "z3 5.3, cvc5 1.4, own polynomial normaliser"]
            + ["model of %s (%d calls)" % kv for kv in sorted(models.items()) if not kv[0].startswith("vc_") and not kv[0].startswith("llvm.")],
            "functions_under_contract": sorted(funcs), "contracts": [r["proof"] for r in results],
            "safety_checks_discharged_on_the_fly": triv, "backends": backends, "solver_s": round(solver_time, 2),
            "extraction_s": round(tb, 2), "bounded_stand_ins": standin, "bounded_contracts": bounded + [r["proof"] for r in declared],
            "not_extracted": not_compiled, "not_explored": nostandin,
            "undischarged": [w[:300] for r, w in undec],
            "per_contract": [{"contract": r["proof"], "obligations": len(r["obligations"]),
                              "instructions": r.get("stats", {}).get("instr"), "wall_s": round(r.get("wall", 0), 2)} for r in results],
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": sum(1 for l in lines if l.startswith("VIOLATION")),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s %s: %d/%d obligations discharged (+%d on the fly), %d contracts, %.1f s, %s" % (
        pid, tier, ndis, nob, triv, len(results), time.time() - t0, {0: "holds", 1: "VIOLATED", 2: "no verdict"}[rc]))
    return rc
