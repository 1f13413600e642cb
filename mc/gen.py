#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc")
import props
with open(V + "/properties.jsonl", "w") as f:
    for p in list(props.PROPS.values()) + [n for n in props.NA if "title" in n]:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"], **({"observe_at": p["observe"]} if "observe" in p else {}), hook_needed=None))
        assert len(o["title"]) <= 80, o["title"]
        for x in p["files"]: assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(o) + "\n")
m = dict(version=1, setup_cmd="python3 mc/build.py selftest && ./build/bin/selftest",
         checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']} --thorough", technique=p["technique"], level=p["level"], level_note=p["note"]) for p in props.PROPS.values()],
         not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in props.NA],
         hooks=dict(guard="PSI_MC_BATCH_SIZE", enable="the h_crash target is compiled with -DPSI_MC_BATCH_SIZE=2 (mc/targets.py), which replaces the default number of keys per batch so that small inputs take several batches", source_commits=["24bf342"]),
         notes="All other instrumentation is done by link-time interposition and by compiling selected files with -fsanitize=thread against our own run-time (mc/tsanrt.cc). known_findings.json lists known and fixed defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
# ---- DESIGN.md
t = open(V + "/mc/DESIGN.in.md").read()
o = ["## Properties and how they are decided\n"]
for p in props.PROPS.values():
    o.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* decided by: {p['technique']} (level `{p['level']}`)\n* explored: {p['qtext']}\n* harness: " + ", ".join(sorted({f"`mc/{r[0]}.cc`" for r in p['runs']})) + f"\n* strength: {p['note']}\n* why tests cannot: {p['why']}\n" + (f"* {p['design']}\n" if 'design' in p else ""))
o.append("## Not applicable\n")
for n in props.NA: o.append(f"* {n['id']}{' ' + n['title'] if 'title' in n else ''}: {n['reason']}")
t = t.replace("@@PROPS@@", "\n".join(o))
kf = json.load(open(V + "/known_findings.json"))
t = t.replace("@@KNOWN@@", "\n".join(f"* {k['property']}: {k['what']} — {k['where']}" for k in kf if k["status"] == "known"))
sd = []
for s in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    mf = f"{V}/seeded/{s}/meta.json"
    if os.path.exists(mf):
        m2 = json.load(open(mf)); sd.append(f"| {s} | {m2['property']} | {m2['what_it_breaks']} | {m2['needs']} | {props.SEEDS.get(s, m2['property'])} |")
t = t.replace("@@SEEDS@@", "| change | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(sd))
t = t.replace("@@FIXED@@", "\n".join(f"* {k['commit']} – {k['what'].split(' ', 3)[3]} ({k['property']}; {k['where']})" for k in kf if k["status"] == "fixed" and k["commit"] not in t) + props.FIXED).replace("@@FALSE@@", props.FALSE)
open(V + "/DESIGN.md", "w").write(t)
