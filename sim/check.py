#!/usr/bin/env python3
"""Runs the check of one property: seeded search over schedules and fault sequences in the simulators.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: held on everything explored, 1: violated (VIOLATION line), 2: the check itself failed
"""
import os, sys, json, time, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def command(part):
    """argv prefix of a simulator"""
    if part.get("kind", "c") == "c":
        return [B.build(part["sim"])]
    if part["kind"] == "py":
        return [part.get("python", "/opt/vp/venv/bin/python"), os.path.join(HERE, part["sim"], "main.py")]
    if part["kind"] == "node":
        return ["node", os.path.join(HERE, part["sim"], "main.mjs")]
    fail("unknown kind")

def env(tmp):
    e = dict(os.environ)
    e.update({"SIM_TMP": tmp, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1:max_allocation_size_mb=2048",
              "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "VERIF_REPO": B.REPO, "TZ": "UTC", "LC_ALL": "C"})
    return e

def read_jsonl(p):
    out = []
    if os.path.exists(p):
        with open(p, errors="replace") as f:
            for l in f:
                l = l.strip()
                if not l: continue
                try: out.append(json.loads(l))
                except ValueError: pass
    return out

def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    return [k for k in read_jsonl(p) if k.get("property") == prop and k.get("status") == "known"]

def write_tape(path, seed, tape):
    with open(path, "w") as f:
        f.write("%d %d\n" % (seed, len(tape)))
        f.write(" ".join(str(x) for x in tape) + "\n")

def replay(prop, path):
    r = json.load(open(path))
    part = {"sim": r["sim"], "kind": r.get("kind_of_sim", "c")}
    for p in PROPS[prop]["parts"]:
        if p["sim"] == r["sim"]: part = p
    tmp = tempfile.mkdtemp(prefix="simreplay")
    try:
        t = os.path.join(tmp, "tape")
        write_tape(t, r["seed"], r["tape"])
        res = os.path.join(tmp, "res")
        subprocess.run(command(part) + ["--prop", r["run_as"], "--tier", r["tier"], "--replay", t, "--out", res], env=env(tmp))
        got = read_jsonl(res)
        if not got: fail("replay gave no result")
        g = got[0]
        print(g.get("trace", ""))
        print("replay: status=%s kind=%s hash=%s (recorded %s)\n%s" % (g["status"], g["kind"], g["hash"], r["hash"], g["text"]))
        same = g["status"] == "violation" and g["kind"] == r["violation"] and (g["hash"] == r["hash"] or r["violation"].startswith("crash") or r["violation"] == "no-termination")
        if same:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("the recorded violation does not occur on this tree")
        return 0 if g["status"] == "ok" else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    global PROPS
    PROPS = json.load(open(os.path.join(HERE, "props.json")))
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = None
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 2
        elif args[i] == "--seed": seed = int(args[i + 1]); i += 2
        elif args[i] == "--replay": rep = args[i + 1]; i += 2
        else: fail("unknown option " + args[i])
    if tier not in ("quick", "thorough"): tier = "quick"
    if rep: sys.exit(replay(prop, rep))
    P = PROPS[prop]
    known = known_findings(prop)
    t_start = time.time()
    tmp = tempfile.mkdtemp(prefix="sim" + prop)
    agg = {"runs": 0, "events": 0, "checks": 0, "sim_ms": 0, "decisions": 0, "nontrivial": 0, "det": 0, "det_bad": 0, "known": 0}
    faults, stats, samples, states = {}, {}, [], set()
    per_part = []
    violation = None
    try:
        for pi, part in enumerate(P["parts"]):
            conf = part[tier]
            run_as = part.get("as", prop)
            try:
                cmd = command(part)
            except RuntimeError as e:
                fail("build: " + str(e))
            t_part = time.time()
            nw = min(8, os.cpu_count() or 1)
            per = (conf["runs"] + nw - 1) // nw
            kn = "\n".join(k["kind"] for k in known)
            procs = []
            for w in range(nw):
                o = os.path.join(tmp, "p%d.w%d" % (pi, w))
                base = seed * 1000003 + w * per + 1 + pi * 7919
                errf = open(o + ".err", "w")
                pr = subprocess.Popen(cmd + ["--prop", run_as, "--tier", tier, "--base", str(base), "--count", str(per), "--max-seconds", str(conf.get("max_s", 120)), "--known", kn, "--out", o], env=env(tmp), stdout=errf, stderr=subprocess.STDOUT)
                procs.append((pr, o, errf))
            for pr, o, errf in procs:
                rc = pr.wait()
                errf.close()
                if rc != 0: fail("simulator %s worker ended with %d: %s" % (part["sim"], rc, open(o + ".err").read()[-2000:]))
            part_runs = 0
            for pr, o, _ in procs:
                summ = None
                for r in read_jsonl(o):
                    if "summary" in r: summ = r["summary"]
                    elif "nondeterministic" in r: fail("simulator %s is not deterministic for seed %d" % (part["sim"], r["nondeterministic"]))
                    elif r["status"] == "error": fail("simulator %s seed %d: %s\n%s" % (part["sim"], r["seed"], r["text"], r.get("trace", "")[-3000:]))
                    elif r["status"] == "violation":
                        if "trace" in r and (violation is None or r["decisions"] < violation[1]["decisions"]): violation = (part, r, run_as)
                    elif "trace" in r and len([s for s in samples if s["simulator"] == part["sim"]]) < 2:
                        samples.append({"simulator": part["sim"], "seed": r["seed"], "history_hash": r["hash"], "decisions": r["decisions"], "faults": r["faults"], "history": r["trace"].split("\n")[:40]})
                if not summ: fail("no summary of " + part["sim"])
                part_runs += summ["runs"]
                for k in agg: agg[k] += summ[k] if k != "nontrivial" else summ["nontrivial"]
                for k, v in summ["faults"].items(): faults[k] = faults.get(k, 0) + v
                for k, v in summ["stats"].items(): stats[k] = stats.get(k, 0) + v
                states.update((pi, s) for s in summ["state_hashes"])
            dt = max(time.time() - t_part, 1e-6)
            per_part.append({"simulator": part["sim"], "runs": part_runs, "wall_s": round(dt, 2), "runs_per_hour": int(part_runs * 3600 / dt), "real_code": part.get("real", []), "stubs": part.get("stubs", [])})
            if violation: break
        nviol = 0
        if violation:
            part, r, run_as = violation
            cmd = command(part)
            # 1. the same seed again: it has to give the same violation
            res = os.path.join(tmp, "again")
            subprocess.run(cmd + ["--prop", run_as, "--tier", tier, "--base", str(r["seed"]), "--count", "1", "--out", res], env=env(tmp))
            again = [x for x in read_jsonl(res) if "status" in x]
            if not again or again[0]["status"] != "violation" or again[0]["kind"] != r["kind"]: fail("violation %s of seed %d does not repeat" % (r["kind"], r["seed"]))
            # 2. minimise
            res = os.path.join(tmp, "min")
            subprocess.run(cmd + ["--prop", run_as, "--tier", tier, "--base", str(r["seed"]), "--minimise", "--min-seconds", "40", "--out", res], env=env(tmp))
            m = read_jsonl(res)
            m = m[0] if m and m[0]["status"] == "violation" and m[0]["kind"] == r["kind"] else r
            # 3. replay of the written file in a fresh process
            rdir = os.path.join(VERIF, "out", "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.json" % (prop, r["seed"]))
            t = os.path.join(tmp, "tape")
            write_tape(t, m["seed"], m["tape"])
            res = os.path.join(tmp, "rep")
            subprocess.run(cmd + ["--prop", run_as, "--tier", tier, "--replay", t, "--out", res], env=env(tmp))
            g = read_jsonl(res)
            if not g or g[0]["status"] != "violation" or g[0]["kind"] != m["kind"]: fail("the minimised schedule of seed %d does not reproduce %s" % (r["seed"], r["kind"]))
            g = g[0]
            json.dump({"property": prop, "sim": part["sim"], "kind_of_sim": part.get("kind", "c"), "run_as": run_as, "tier": tier, "seed": m["seed"], "tape": m["tape"], "hash": g["hash"], "violation": g["kind"], "text": g["text"], "faults": g["faults"],
                       "decisions_before": r["decisions"], "trace": g["trace"].split("\n")}, open(path, "w"), indent=1)
            print(g["trace"][-6000:])
            print("%s: %s" % (g["kind"], g["text"]))
            print("seed=%d decisions=%d -> %d, faults=%s" % (r["seed"], r["decisions"], len(m["tape"]), json.dumps(g["faults"])))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            nviol = 1
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        wall = time.time() - t_start
        rate = agg["runs"] * 3600 / max(sum(p["wall_s"] for p in per_part), 1e-6)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": nviol,
              "coverage": {"evaluations": agg["runs"], "distinct_nontrivial": agg["nontrivial"],
                           "rule": P.get("rule", "One case is one simulated run: a seed decides every schedule step, delay, message content and fault. A run is non-trivial if its history hash is new, it has more than three events and at least one oracle was evaluated in it."),
                           "samples": samples, "runs_and_seeds_per_hour": int(rate), "simulated_seconds": round(agg["sim_ms"] / 1000.0, 1), "events": agg["events"], "decisions": agg["decisions"],
                           "oracle_evaluations": agg["checks"], "faults_injected": dict(sorted(faults.items())), "distinct_states": len(states),
                           "distinct_states_measure": P.get("state_measure", "hashes of abstract states recorded by the simulator after each step"), "counters": dict(sorted(stats.items())),
                           "determinism_reruns": agg["det"], "determinism_mismatches": agg["det_bad"], "known_finding_hits": agg["known"], "simulators": per_part},
              "assumptions": P.get("assumptions", [])}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %d runs (%d distinct non-trivial), %d states, %d oracle evaluations, %.1f s, faults %s" % (prop, tier, agg["runs"], agg["nontrivial"], len(states), agg["checks"], wall, json.dumps(dict(sorted(faults.items())))))
        sys.exit(1 if nviol else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    main()
