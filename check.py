#!/usr/bin/env python3
"""check.py <PROPERTY>: build the explorers of a property from /repo's working tree,
run them, write evidence/<PROPERTY>.json, report violations.
  exit 0  held on everything explored (known findings are printed)
  exit 1  VIOLATION line(s)
  exit 2  no answer (build or internal error)
check.py --replay FILE re-executes one recorded violation."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/mc")
import build, props

def known(pid):
    p = V + "/known_findings.json"
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status") == "known"] if os.path.exists(p) else []

def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        if build.build([r["target"]]): return 2
        env = dict(os.environ, **r["env"])
        return subprocess.call([f"{build.BUILD}/bin/{r['target']}", "--case", r["case"], "--sched", r["sched"]] + r.get("args", []), env=env)
    pid = sys.argv[1]
    tier = "thorough" if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    runs = P["runs"]
    if build.build(sorted({r[0] for r in runs})):
        print(f"BUILD FAILED for {pid}: the harness cannot be compiled against the current tree"); return 2
    tot = dict(executions=0, steps=0, sched_points=0, evaluations=0, states=0, nontrivial=0, cases=0)
    samples, capped, viol, known_hit, maxcp, outcomes = [], [], [], {}, 0, 0
    kn = known(pid)
    os.makedirs(V + "/build/reports", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    budget = P.get("budget", 600) if tier == "quick" else P.get("tbudget", 6000)
    for i, (target, env, args) in enumerate(runs):
        rep = f"{V}/build/reports/{pid}.{i}.json"
        if os.path.exists(rep): os.unlink(rep)
        e = dict(os.environ, **env); e["VERIF_TIER"] = tier; e.pop("MC_LOG", None)
        left = max(30, budget - (time.time() - t0))
        p = subprocess.run([f"{build.BUILD}/bin/{target}", "--report", rep, "--" + tier, "--budget", str(left)] + list(args), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode not in (0, 1) or not os.path.exists(rep):
            print(p.stdout[-2000:]); print(f"internal error: {target} ended with {p.returncode}"); return 2
        r = json.load(open(rep))
        if not r["ok"]:
            print(p.stdout[-2000:]); print(f"internal error: {target}: worker failed"); return 2
        for k in tot: tot[k] += r.get(k, 0)
        outcomes += r["distinct_outcomes"]; maxcp = max(maxcp, r["max_choice_points"])
        samples += [f"[{target}] " + (s if isinstance(s, str) else json.dumps(s)) for s in r["samples"][:12]]
        capped += r["capped"]
        if r.get("unreproduced"): print(f"note: {r['unreproduced']} unreproducible executions in {target} (not reported)")
        for v in r["violations"]:
            hit = next((k for k in kn if re.search(k["case"], v["case"]) and re.search(k["key"], v["key"])), None)
            if hit: known_hit.setdefault(hit["what"], 0); known_hit[hit["what"]] += 1
            else: viol.append(dict(v, target=target, env=env, args=[a for a in args] + ["--" + tier]))
    wall = time.time() - t0
    lvl = P["level"]
    cov = dict(samples=samples[:20] or ["-"], exhaustive=not capped)
    if lvl == "model_checking":
        cov.update(states=tot["states"], transitions=tot["evaluations"], traces_validated_against_impl=tot["executions"])
    else:
        cov.update(evaluations=tot["executions"] + tot["evaluations"], distinct_nontrivial=tot["nontrivial"])
    cov.update(rule=P["rule"], cases=tot["cases"], controlled_executions=tot["executions"], scheduling_decisions=tot["sched_points"], in_process_evaluations=tot["evaluations"], explored_states=tot["states"],
               longest_execution_choice_points=maxcp, distinct_outcomes=outcomes, capped_cases=capped[:20], bounds=P.get("bounds", ""))
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=P.get("assumptions", props.ASSUME), wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for w, n in known_hit.items(): print(f"KNOWN-FINDING: property={pid} {w} ({n} explored cases)")
    print(f"{pid}: {tot['cases']} cases, {tot['executions']} controlled executions, {tot['evaluations']} in-process evaluations, {tot['states']} states, {outcomes} distinct outcomes, capped {len(capped)}, {wall:.1f}s")
    if viol:
        os.makedirs(V + "/build/replays", exist_ok=True)
        for n, v in enumerate(viol[:10]):
            path = f"{V}/build/replays/{pid}.{n}.json"
            json.dump(v, open(path, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  case {v['case']} sched '{v['sched']}' {v['key']}: {v['msg'][:600]}")
        if len(viol) > 10: print(f"  ... {len(viol) - 10} more")
        return 1
    return 0
sys.exit(main())
