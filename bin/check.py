#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo's working tree."""
import json, os, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import irbuild, driver, specs

VERIF = irbuild.VERIF


def known_findings(pid):
    """signatures of listed findings: lines 'known: property=<id> kind=<kind> scen=<scenario> where=<where>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:") and ("property=%s " % pid) in l:
                out.append(l.strip())
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = specs.SPECS[pid](tier)
    work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    code = 2
    try:
        code = run(pid, tier, seed, spec, work, rdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, tier, seed, spec, work, rdir, t0):
    driver.build_engine()
    configs = []
    for j in spec["jobs"]:
        if j["config"] not in configs:
            configs.append(j["config"])
    configs.sort(key=lambda c: c in irbuild.TARGETS)  # these take longest to build
    with ThreadPoolExecutor(8) as ex:
        # configurations are built while the executor works on those that are ready
        pending = {c: ex.submit(irbuild.build, c, work) for c in configs}
        built, lls, nohook, left_out, failed = {}, {}, [], [], []

        def ready(c):
            if c not in built:
                built[c] = pending[c].result()
                if c in irbuild.HOOKED and built[c][1] is not None:
                    # the hook reaches private items that may have been renamed; everything else is still checked
                    nohook.append(c)
                    built[c] = irbuild.build(c, work, hook=False)
                lls[c] = built[c][0]
                if built[c][1] is not None or not built[c][0]:
                    lls[c] = []
                    (left_out if c in irbuild.TARGETS else failed).append((c, (built[c][1] or "")[-3000:]))
            return lls[c]
        home = [c for c in configs if c not in irbuild.TARGETS]
        for c in home:
            if not ready(c):
                print("configuration %s does not build:\n%s" % failed[0])
                return 2
        tbuild = time.time() - t0
        sym = None
        for c in home:
            sym = sym or driver.cache_symbol(lls[c])
        # the native program is built while the executor works
        tcfgs = [c for c in home if any(j["config"] == c and j.get("traces") for j in spec["jobs"])][:2]
        native = {c: ex.submit(driver.build_replay, c, work, sym, lls[c]) for c in tcfgs}
        results, errors = [], []
        jobs = sorted(spec["jobs"], key=lambda j: j["config"] in irbuild.TARGETS)
        for i, j in enumerate(jobs):
            if not ready(j["config"]):
                continue
            if j["config"] in nohook:
                j = dict(j, scens=[x for x in j["scens"] if "!" not in x], witness=[])
            if not (j["scens"] or j.get("close")):
                continue
            if j.get("traces") and j["config"] not in native:
                native[j["config"]] = ex.submit(driver.build_replay, j["config"], work, sym, lls[j["config"]])
                tcfgs.append(j["config"])
            d, err = driver.run_job(j, lls[j["config"]], work, "job%d" % i)
            if err is not None:
                errors.append("%s: %s" % (j.get("label", j["config"]), err))
                continue
            for v in d["violations"]:
                v["config"] = j["config"]
            d["job"] = j
            results.append(d)
            if sum(1 for v in d["violations"] if v["kind"] in spec["kinds"]) >= 2 and len(d["violations"]) > 3:
                break
        viols = []
        for d in results:
            for v in d["violations"]:
                if v["kind"] in spec["kinds"] and spec.get("filter", lambda v: True)(v):
                    viols.append(v)
        known = known_findings(pid)
        kf, new = [], []
        for v in viols:
            m = [k for k in known if ("kind=%s " % v["kind"]) in k and ("where=%s" % v["where"]) in k]
            (kf if m else new).append((v, m[0] if m else None))
        for k in sorted(set(m for _, m in kf)):
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        # ---- replay
        bins = {}

        def binary(c):
            if c not in bins:
                f = native.get(c) or ex.submit(driver.build_replay, c, work, sym, lls[c])
                bins[c] = f.result()
            return bins[c][0]
        confirmed, unconfirmed, replays = [], [], []
        seen = set()
        order = sorted((v for v, _ in new), key=lambda v: (v["config"] in irbuild.TARGETS, 0 if v["kind"] in driver.DECISIVE else 1, sum(c["m"] * c["k"] * c["n"] if max(c["m"], c["k"], c["n"]) < 1 << 40 else 0 for c in v["calls"])))
        for v in order:
            key = (v["kind"], v["where"], v["config"])
            if key in seen or len(replays) >= 8:
                continue
            seen.add(key)
            path = os.path.join(rdir, "%s-%d.txt" % (pid, len(replays)))
            text = spec.get("replay", driver.replay_text)(v)
            with open(path, "w") as f:
                f.write(text)
            b = binary(v["config"])
            if b is None:
                verdict, out = "error", "the replay program does not build: " + (bins[v["config"]][1] or "")[-600:]
            else:
                verdict, out = driver.run_replay(b, path)
            replays.append({"kind": v["kind"], "what": v["what"][:400], "scenario": v["scen"], "config": v["config"], "where": v["where"], "native": verdict, "output": out[:600]})
            with open(path, "a") as f:
                f.write("# native run: %s %s\n# run again: python3 bin/replay.py %s %s\n" % (verdict, out.replace("\n", " ")[:800], v["config"], path))
            decisive = v["kind"] in driver.DECISIVE and not spec.get("trust", False)
            # without a native program for another processor's code the executor's word stands
            decisive = decisive and not (b is None and v["config"] in irbuild.TARGETS)
            if verdict == "yes" or (not decisive) or verdict == "unrealisable":
                confirmed.append((v, path, verdict, out))
                break
            unconfirmed.append((v, path, verdict, out))
        # ---- does the executor predict the machine's bits?
        validated, tr_err = 0, None
        if not confirmed:
            for c in tcfgs:
                tr = [t for d in results if d["config"] == c for t in d.get("traces", [])]
                if not tr:
                    continue
                b, err = native[c].result()
                if b is None:
                    if c not in irbuild.TARGETS:
                        tr_err = "the native program does not build: " + err[-800:]
                    continue
                tp = os.path.join(work, "traces-%s.txt" % c)
                with open(tp, "w") as f:
                    f.write(driver.trace_text(tr))
                verdict, out = driver.run_replay(b, tp)
                if out.startswith("OK "):
                    validated += int(out.split()[1])
                else:
                    tr_err = "executor and machine disagree (%s): %s" % (c, out[:500])
        else:
            for f in native.values():
                f.cancel()
    # ---- report
    incon = sorted(set(x for d in results for x in d["inconclusive"]))
    hard = [x for x in incon if x != "time budget"]
    T = {}
    for d in results:
        for k, x in d["totals"].items():
            T[k] = max(T.get(k, 0), x) if k == "max_conc" else T.get(k, 0) + x
    done = sum(d["scenarios_done"] for d in results)
    bad = sum(d.get("scenarios_incomplete", 0) for d in results)
    skipped = sum(d["scenarios_skipped"] for d in results)
    S = {}
    for d in results:
        for k in ("queries", "sat", "unsat", "unknown"):
            S[k] = S.get(k, 0) + d["solver"][k]
        S["seconds"] = round(S.get("seconds", 0) + d["solver"]["seconds"], 2)
    funcs = {}
    for d in results:
        for k, x in d["functions"].items():
            funcs[k] = funcs.get(k, 0) + x
    vac = []
    for d in results:
        for w in d["job"].get("witness", spec.get("witness", [])):
            if d["totals"].get(w, 0) == 0 and not d["violations"]:
                vac.append("%s: nothing of '%s' was checked" % (d["label"], w))
    branches = sum(d["branches"] for d in results)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": T.get("paths", 0), "transitions": sum(d["steps"] for d in results), "traces_validated_against_impl": validated,
            "samples": [s for d in results for s in d["scenarios"][:4]][:24],
            "explanation": spec["explain"] + " States are symbolic paths (each stands for every input that satisfies its path condition); transitions are instructions executed symbolically.",
            "scenarios": done, "scenarios_not_reached": skipped, "scenarios_incomplete": bad,
            "bounds": spec["bounds"], "solver": dict(S, name="z3 5.3.2"),
            "functions_encoded": funcs, "branches": branches, "branches_both_sides": sum(d["branches_both"] for d in results),
            "size_branches_not_taken": sorted(set(u for d in results for u in d["uncovered"]))[:40],
            "counters": T, "jobs": [{"label": d["label"], "config": d["config"], "seconds": d["seconds"], "scenarios": d["scenarios_done"], "paths": d["totals"]["paths"], "queries": d["solver"]["queries"], "solver_s": d["solver"]["seconds"], "inconclusive": d["inconclusive"], "not_reached": d["scenarios_skipped"]} for d in results],
            "features_symbolic": sorted(set(f for d in results for f in d["features"])),
            "inconclusive": incon, "hook_not_built": nohook, "configurations_left_out": [c for c, _ in left_out], "build_s": round(tbuild, 1), "replays": replays,
        },
        "assumptions": spec["assume"],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d paths, %d solver queries (%.1f s), %d traces checked against the machine, %.1f s" % (pid, tier, done, T.get("paths", 0), S.get("queries", 0), S.get("seconds", 0.0), validated, time.time() - t0))
    for d in results:
        print("  %-24s %5d scenarios %7d paths %6.1f s%s" % (d["label"], d["scenarios_done"], d["totals"]["paths"], d["seconds"], "  (%d not reached)" % d["scenarios_skipped"] if d["scenarios_skipped"] else ""))
    if confirmed:
        v, path, verdict, out = confirmed[0]
        print("%s at %s, scenario %s, configuration %s: %s" % (v["kind"], v["where"] or "the end of the call", v["scen"], v["config"], v["what"][:700]))
        print("model: " + ", ".join("%s=%s" % x for x in list(v["model"].items())[:24] if x[0] != "leaves"))
        print("native replay: %s %s" % (verdict, out[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in errors:
        print("ERROR " + e)
    for x in hard[:10]:
        print("INCONCLUSIVE " + x)
    for v, path, verdict, out in unconfirmed[:3]:
        print("UNCONFIRMED %s in %s (%s): %s; native replay: %s %s" % (v["kind"], v["scen"], v["config"], v["what"][:500], verdict, out[:300]))
    for x in vac:
        print("VACUOUS " + x)
    if tr_err:
        print("UNFAITHFUL " + tr_err)
    if errors or unconfirmed or tr_err or vac:
        return 2
    if hard and (bad * 2 > done):
        return 2
    if nohook:
        print("INCOMPLETE: the guarded hook does not build (%s); the probes that need it were left out" % ", ".join(nohook))
    for c, e in left_out:
        print("INCOMPLETE: configuration %s does not build here and was left out: %s" % (c, e[-300:].replace("\n", " ")))
    if incon or skipped:
        print("INCOMPLETE: %d scenarios not reached, %d incomplete" % (skipped, bad))
    return 0


main()
