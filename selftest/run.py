#!/usr/bin/env python3
"""Run the analyzer on mutated scratch copies of /repo.

Each case is (kind, property, file, old, new): kind 'bug' must be reported by the property's
check, kind 'same' (behaviour-preserving) must stay quiet. 'old' must occur exactly once.
usage: run.py [-j N] [filter]   (uses /verif/bin/vcheck-static, override with AN=path)
"""
import os, sys, subprocess, shutil, tempfile, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
AN = os.environ.get("AN", os.path.join(here, "..", "bin", "vcheck-static"))
sys.path.insert(0, here)
import cases

def one(i, case):
    kind, prop, edits = case[0], case[1], case[2:]
    if isinstance(edits[0], str):
        edits = [edits]
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, "BADCASE", "%s: %d matches of %r" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        v = os.path.join(d, "v"); os.makedirs(v)
        shutil.copy(os.path.join(here, "..", "known_findings.json"), v) if os.path.exists(os.path.join(here, "..", "known_findings.json")) else None
        p = subprocess.run([AN, "-repo", r, "-property", prop], capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_DIR=v))
        out = p.stdout
        if "[load]" in out:
            return i, "NOBUILD", out[:600]
        if kind == "bug":
            return i, ("caught" if p.returncode == 1 else "MISSED"), out
        return i, ("quiet" if p.returncode == 0 else "ALARM"), out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    args = sys.argv[1:]
    j = 6
    if args[:1] == ["-j"]:
        j = int(args[1]); args = args[2:]
    sel = [(i, c) for i, c in enumerate(cases.CASES) if not args or any(a == c[1] or a == str(i) or a == c[0] for a in args)]
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for f in [ex.submit(one, i, c) for i, c in sel]:
            i, res, out = f.result()
            c = cases.CASES[i]
            e = c[2:] if isinstance(c[2], str) else c[2]
            print(i, res, c[1], e[0], repr(e[2])[:100])
            if res not in ("caught", "quiet"):
                bad += 1
                print("    " + "\n    ".join(out.strip().split("\n")[:14]))
            elif os.environ.get("V"):
                print("    " + "\n    ".join(l[:220] for l in out.strip().split("\n")[:8]))
    print("bad:", bad, "of", len(sel))

main()
