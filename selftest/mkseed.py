#!/usr/bin/env python3
"""Build and validate planted bugs. usage: mkseed.py DEFS.py [id...]
DEFS.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], pkg='.', demo=go test source, needs, breaks)].
Writes /verif/seeded/<id>/ when the change builds, passes the stable tests and the demo tells it apart."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.24.13", PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"],
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
DEMO = '''#!/bin/bash
# Runs the demonstration beside this file as an in-package test through an overlay.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_seed_demo_test.go" "$here/demo.go.txt" > "$tmp/overlay.json"
go test %(flags)s -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestSeedDemo$' ./%(pkg)s
'''
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("tests") or base.get("passing") or base.get("stable") or base
def results(d):
    p = subprocess.run("go test -json -vet=off -count=1 -timeout 10m ./... > %s/go.json.tmp; python3 /opt/vp/results.py %s/res.json.tmp gojson:%s/go.json.tmp" % (d, d, d), shell=True, cwd=os.path.join(d, "repo"), env=ENV, capture_output=True, text=True)
    return json.load(open(d + "/res.json.tmp"))
def names(r):
    return {t if isinstance(t, str) else t.get("name") or t.get("id") for t in (r.get("passed") or [])}
def one(s):
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r)
        sd = os.path.join(d, "s"); os.makedirs(sd)
        pkg = s.get("pkg", ".")
        open(sd + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=s.get("flags", "")))
        open(sd + "/demo.go.txt", "w").write(s["demo"])
        run = lambda: subprocess.run(["bash", sd + "/demo.sh"], cwd=r, capture_output=True, text=True)
        a = run()
        if a.returncode != 0:
            return s["id"], "DEMO FAILS ON CLEAN TREE\n" + (a.stdout + a.stderr)[-1500:]
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "%s: %d matches of %r" % (f, t.count(old), old[:80])
            open(p, "w").write(t.replace(old, new))
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return s["id"], "NOBUILD " + b.stderr[:800]
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        c = run()
        if c.returncode == 0:
            return s["id"], "DEMO PASSES WITH THE CHANGE"
        if "FAIL" not in c.stdout and "panic" not in c.stdout + c.stderr:
            return s["id"], "DEMO ODD\n" + (c.stdout + c.stderr)[-800:]
        if "build failed" in c.stdout:
            return s["id"], "DEMO DOES NOT BUILD WITH CHANGE\n" + (c.stdout + c.stderr)[-800:]
        res = results(d)
        miss = [t for t in STABLE if t not in names(res)]
        if miss:
            return s["id"], "BREAKS TESTS %d: %s" % (len(miss), miss[:3])
        v = os.path.join(d, "v"); os.makedirs(v)
        if os.path.exists(V + "/known_findings.json"): shutil.copy(V + "/known_findings.json", v)
        k = subprocess.run([os.environ.get("AN", V + "/bin/vcheck-static"), "-repo", r, "-property", s["prop"]], capture_output=True, encoding="utf-8", errors="replace", env=dict(os.environ, VERIF_DIR=v))
        o = os.path.join(V, "seeded", s["id"]); os.makedirs(o, exist_ok=True)
        for f in ("demo.sh", "demo.go.txt"): shutil.copy(os.path.join(sd, f), o)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        first = [l for l in k.stdout.split("\n") if "] " in l][:1]
        return s["id"], ("caught " if k.returncode == 1 else "MISSED rc=%d " % k.returncode) + (first[0][:200] if first else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    global STABLE
    b = json.load(open("/opt/vp/BASELINE.json"))
    STABLE = [t if isinstance(t, str) else t["name"] for t in (b.get("stable") or b.get("tests") or b.get("passed") or b.get("stable_passing"))]
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, msg in ex.map(one, [s for s in m.SEEDS if not want or s["id"] in want]):
            print(i, "::", msg, flush=True)
main()
