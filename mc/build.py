#!/usr/bin/env python3
"""Out-of-tree build of /repo sources against the stand-in libraries.

  build.py TARGET...      builds /verif/build/<variant>/bin/<target>

Everything is compiled from /repo's current working tree; ninja tracks
dependencies, so a run in a fresh copy builds from scratch.
"""
import os, sys, subprocess, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
from targets import TARGETS, GROUPS, PROTOS  # noqa

CXX = {"": "g++"}
COMMON = "-std=c++17 -g1 -w -msse4.2 -maes -mpclmul -mavx2 -mbmi2 -fopenmp -ffp-contract=off -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL"
LIBS = "-lprotobuf -lspdlog -lfmt -lgmpxx -lgmp -lssl -lcrypto -labsl_throw_delegate -labsl_raw_logging_internal -ldl -lpthread"

def esc(s): return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def gen(targets):
    inc = f"-I{VERIF}/shim -I{VERIF}/mc -I{REPO} -I{BUILD}/gen"
    o = [f"builddir = {BUILD}", "rule proto", f"  command = protoc -I{REPO} -I{VERIF}/shim --cpp_out={BUILD}/gen $in", "  description = PROTO $in",
         "rule cc", f"  command = g++ {COMMON} $opt {inc} -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
         "rule link", f"  command = g++ {COMMON} $opt -rdynamic -o $out $in $libs -lprotobuf -lspdlog -lfmt -lgmpxx -lgmp -lssl -lcrypto -labsl_throw_delegate -labsl_raw_logging_internal -ldl -lpthread", "  description = LINK $out"]
    gens = []
    for p in PROTOS:
        base = p[:-6]
        outs = [f"{BUILD}/gen/{base}.pb.cc", f"{BUILD}/gen/{base}.pb.h"]
        gens.append(outs[1])
        o.append(f"build {' '.join(outs)}: proto {VERIF + '/shim' if p.startswith('yacl/') else REPO}/{p}")
    o.append(f"build gen: phony {' '.join(gens)}")
    done = set()
    def obj(src, var, opt):
        path = src if os.path.isabs(src) else None
        if src.startswith("@"):   # harness source in /verif/mc
            path = f"{VERIF}/mc/{src[1:]}"; rel = "mc/" + src[1:]
        elif src.endswith(".proto"):
            path = f"{BUILD}/gen/{src[:-6]}.pb.cc"; rel = "gen/" + src[:-6] + ".pb.cc"; var, opt = "o", "-O1"
        else:
            path = f"{REPO}/{src}"; rel = src
        out = f"{BUILD}/{var}/{rel}.o"
        if out not in done:
            done.add(out)
            o.append(f"build {out}: cc {path} || gen\n  opt = {opt}")
        return out
    for t in targets:
        T = TARGETS[t]
        var = T.get("variant", "o1"); opt = T.get("opt", "-O1")
        srcs = []
        def add(x):
            if x in GROUPS:
                for y in GROUPS[x]: add(y)
            elif x not in srcs: srcs.append(x)
        for s in T["src"]: add(s)
        ho = T.get("hopt", opt)
        objs = []
        # instrumented objects first: the linker keeps the first copy of a template instance
        for s in sorted(srcs, key=lambda s: s not in T.get("tsan", ())):
            if s.startswith("@") : objs.append(obj(s, var + T.get("hvar", ""), ho))
            elif s in T.get("tsan", ()): objs.append(obj(s, var + "t", opt + " -O2 -fsanitize=thread -U__SANITIZE_THREAD__"))
            else: objs.append(obj(s, var, opt))
        o.append(f"build {BUILD}/bin/{t}: link {' '.join(objs)}\n  opt = {T.get('lopt', opt)}\n  libs = {T.get('libs', '')}")
    open(f"{BUILD}/build.ninja.{os.getpid()}", "w").write("\n".join(o) + "\n")
    return f"{BUILD}/build.ninja.{os.getpid()}"

def build(targets, keep=False, quiet=True):
    os.makedirs(f"{BUILD}/gen", exist_ok=True)
    import fcntl
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        nf = gen(targets)
        cmd = ["ninja", "-f", nf] + (["-k", "0"] if keep else []) + [f"{BUILD}/bin/{t}" for t in targets]
        r = subprocess.run(cmd, capture_output=True, text=True)
        os.unlink(nf)
    if r.returncode != 0:
        lines = r.stdout.splitlines()
        pick = [l for l in lines if ("error" in l or "FAILED" in l or "undefined" in l) and len(l) < 600]
        sys.stderr.write("\n".join(pick[:60]) + "\n" if pick else r.stdout[-3000:])
    elif not quiet:
        print(r.stdout[-500:])
    return r.returncode

if __name__ == "__main__":
    a = sys.argv[1:]
    keep = "-k" in a
    a = [x for x in a if x != "-k"]
    sys.exit(build(a or list(TARGETS), keep, False))
