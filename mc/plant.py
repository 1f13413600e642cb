#!/usr/bin/env python3
"""Helper used while developing: turns a hand-written change of a scratch copy into
seeded/<id>/ and confirms it (demo passes on HEAD, fails with the patch; stable tests pass).
usage: plant.py SPEC.py   (defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], SRCS, DEMO, OPT)"""
import os, subprocess, sys, json, shutil, runpy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from targets import GROUPS, PROTOS
V = "/verif"
sp = runpy.run_path(sys.argv[1]); D = f"{V}/seeded/{sp['ID']}"; WT = "/tmp/plantwt"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
if not os.path.exists(WT): print(sh(f"git -C /repo worktree add --detach {WT} HEAD").stderr[-200:])
sh(f"git -C {WT} checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C {WT} checkout -- .")
for f, a, b in sp["EDITS"]:
    s = open(f"{WT}/{f}").read(); assert s.count(a) == 1, (f, s.count(a), a)
    open(f"{WT}/{f}", "w").write(s.replace(a, b))
os.makedirs(D, exist_ok=True)
open(f"{D}/patch.diff", "w").write(sh(f"git -C {WT} diff").stdout)
def flat(l):
    o = []
    for x in l:
        for y in (flat(GROUPS[x]) if x in GROUPS else [x]):
            if y not in o: o.append(y)
    return o
srcs = flat(sp["SRCS"]); protos = [s for s in srcs if s.endswith(".proto")]; cc = [s for s in srcs if s.endswith(".cc")]
repop = [p for p in protos if not p.startswith("yacl/")]; shimp = [p for p in protos if p.startswith("yacl/")]
opt = sp.get("OPT", "-O1")
sh(f"tar --sort=name --mtime=2020-01-01 --owner=0 --group=0 -C {V} -cf - shim | gzip -n > {D}/shim.tar.gz")
open(f"{D}/demo.cc", "w").write(sp["DEMO"])
gen = f'protoc -I. -I"$T/shim" --cpp_out="$T/gen" {" ".join(repop)}\n' if repop else ""
if shimp: gen += f'protoc -I"$T/shim" --cpp_out="$T/gen" {" ".join(chr(34) + "$T/shim/" + p + chr(34) for p in shimp)}\n'
open(f"{D}/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the behaviour holds; 1: broken; 2: cannot build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar -xzf "$D/shim.tar.gz" -C "$T" || exit 2
mkdir -p "$T/gen" "$T/o" "$T/run"
{gen}F="-std=c++17 {opt} -w -msse4.2 -maes -mpclmul -mavx2 -mbmi2 -fopenmp -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -I$T/shim -I. -I$T/gen"
export F T
{{ echo "$D/demo.cc"; for s in {" ".join(cc)}; do echo "$s"; done; find "$T/gen" -name '*.cc'; }} |
  xargs -P 8 -I@ bash -c 'o=$(echo "@" | tr / _).o; g++ $F -c "@" -o "$T/o/$o" || exit 255' || exit 2
g++ -fopenmp -o "$T/demo" "$T"/o/*.o -lprotobuf -lspdlog -lfmt -lgmpxx -lgmp -lssl -lcrypto -labsl_throw_delegate -labsl_raw_logging_internal -ldl -lpthread {sp.get("LIBS", "")} || exit 2
cd "$T/run" && timeout 120 "$T/demo" >"$T/out" 2>&1
r=$?
tail -3 "$T/out"
[ $r = 0 ] || exit 1
exit 0
''')
json.dump(dict(property=sp["PROP"], needs=sp["NEEDS"], what_it_breaks=sp["BREAKS"]), open(f"{D}/meta.json", "w"), indent=1)
a = sh(f"timeout 300 bash {D}/demo.sh", cwd="/repo"); print("demo on HEAD:", a.returncode, a.stdout[-300:], a.stderr[-800:] if a.returncode else "")
b = sh(f"timeout 300 bash {D}/demo.sh", cwd=WT); print("demo on patch:", b.returncode, b.stdout[-300:], b.stderr[-800:] if b.returncode == 2 else "")
if a.returncode == 0 and b.returncode == 1 and "--nocheck" not in sys.argv:
    env = dict(os.environ, MC_REPO=WT, MC_BUILD="/tmp/mbuild")
    for p in sp.get("CHECKS", [sp["PROP"]]):
        c = sh(f"cd {V} && python3 check.py {p}", env=env); print("check", p, c.returncode, "\n".join(l[:260] for l in c.stdout.splitlines()[:6]))
