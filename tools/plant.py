#!/usr/bin/env python3
"""Planted-bug bench (development aid; no check uses it).
  plant.py make SPEC.py        write seeded/<id>/ from a spec's add(...) calls
  plant.py demo ID...          demo on a clean copy (want 0) and on a patched copy (want nonzero)
  plant.py suite ID...         stable tests on the patched copy (want none failing)
  plant.py check ID[:PROP] ... run that property's quick check on the patched copy (want exit 1)
Scratch copies live under /tmp/sw (removed by `plant.py clean`)."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = V + "/seeded"; SW = os.environ.get("PLANT_SW", "/tmp/sw"); CLEAN = "/tmp/sw_clean"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)

def tree(path, build=False):
    if not os.path.isdir(path):
        os.makedirs(path)
        sh("git -C /repo archive HEAD | tar -x -C %s" % path)
        sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % path)
    return path

def reset(path):
    tree(path)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    mark = path + "/.head"
    sh("git -C %s checkout -q -- ." % path)
    if not os.path.exists(mark) or open(mark).read() != head:
        sh("git -C /repo archive HEAD | tar -x -C %s" % path)
        sh("cd %s && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % path)
        open(mark, "w").write(head)

def apply(path, bid):
    reset(path)
    r = sh("git -C %s apply %s/%s/patch.diff" % (path, SEED, bid))
    if r.returncode: sys.exit("patch %s does not apply: %s" % (bid, r.stderr))

DEMO = """#!/bin/bash
# exit 0: behaves as specified; nonzero otherwise.  Run with the repository as working directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
for p in %(plats)s; do
    %(cxx)s -std=c++17 -w %(flags)s -I src -I "src/graphblas/platforms/$p" "$D/demo.cpp" -o "$T/demo" %(libs)s || exit 2
    timeout 120 "$T/demo" || exit 1
done
exit 0
"""
PRE = """#include <graphblas/graphblas.hpp>
#include <iostream>
#include <vector>
#include <tuple>
using namespace grb;
#define CHECK(c) do { if (!(c)) { std::cerr << "wrong: " #c " line " << __LINE__ << std::endl; return 1; } } while (0)
"""
def add(bid, prop, file, edits, demo, needs, breaks, plats="sequential optimized_sequential", cxx="g++", flags="-O1", libs="", include=""):
    d = SEED + "/" + bid
    os.makedirs(d, exist_ok=True)
    reset(SW)
    files = edits if isinstance(edits, dict) else {file: edits}
    for f, eds in files.items():
        p = SW + "/src/" + f
        s = open(p).read()
        for e in eds:
            old, new = e[0], e[1]; nth = e[2] if len(e) > 2 else None
            n = s.count(old)
            if n == 0: sys.exit("%s: text not found in %s: %r" % (bid, f, old[:80]))
            if n > 1 and nth is None: sys.exit("%s: %d matches in %s: %r" % (bid, n, f, old[:80]))
            i = -1
            for _ in range((nth or 0) + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SW).stdout)
    open(d + "/demo.cpp", "w").write((PRE + include + demo) if "#include <graphblas" not in demo else demo)
    open(d + "/demo.sh", "w").write(DEMO % dict(plats=plats, cxx=cxx, flags=flags, libs=libs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    reset(SW)
    print("made", bid)

def demo(bid):
    reset(CLEAN); a = sh("bash %s/%s/demo.sh" % (SEED, bid), cwd=CLEAN)
    apply(SW, bid); b = sh("bash %s/%s/demo.sh" % (SEED, bid), cwd=SW)
    ok = a.returncode == 0 and b.returncode == 1
    print("%-34s demo clean=%d patched=%d %s %s" % (bid, a.returncode, b.returncode, "ok" if ok else "BAD", (a.stderr + a.stdout)[:300] if a.returncode else (b.stderr + b.stdout)[:160].replace("\n", " | ")), flush=True)
    reset(SW)

def suite(bid):
    apply(SW, bid)
    vp = SW + "/.vp"; os.makedirs(vp, exist_ok=True)
    for f in os.listdir("/opt/vp"):
        if os.path.isfile("/opt/vp/" + f):
            s = open("/opt/vp/" + f, errors="replace").read()
            if f.endswith((".sh", ".py")): s = s.replace("/repo", SW).replace("/opt/vp/", vp + "/")
            open(vp + "/" + f, "w").write(s)
    b = sh("bash %s/test.sh %s/out.json" % (vp, vp))
    try:
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; p = set(json.load(open(vp + "/out.json"))["passed"])
        m = [t for t in st if t not in p]
        print("%-34s suite: %d stable, %d failing %s" % (bid, len(st), len(m), m[:4]), flush=True)
    except Exception as e:
        print(bid, "suite error", e, (b.stdout + b.stderr)[-600:], flush=True)
    reset(SW)

def check(arg):
    bid, _, prop = arg.partition(":")
    prop = prop or json.load(open("%s/%s/meta.json" % (SEED, bid)))["property"]
    apply(SW, bid)
    env = dict(os.environ, VERIF_REPO=SW, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    r = subprocess.run([sys.executable, V + "/run.py", prop, "quick"], capture_output=True, text=True, errors="replace", env=env)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-34s %s exit %d %s %s" % (bid, prop, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (v[0][:150] if v else (r.stdout + r.stderr)[-300:])), flush=True)
    reset(SW)

if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if args == ["all"]: args = sorted(os.listdir(SEED))
    if cmd == "make":
        for a in args: exec(compile(open(a).read(), a, "exec"))
    elif cmd == "clean":
        for p in (SW, CLEAN): shutil.rmtree(p, ignore_errors=True)
    else:
        for a in args: globals()[cmd](a)
