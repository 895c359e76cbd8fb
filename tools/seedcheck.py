#!/usr/bin/env python3
"""seedcheck.py [ID...]: runs the check of each planted bug's property on a scratch copy of /repo carrying the bug (VERIF_REPO)."""
import sys, os, subprocess, shutil, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
for i in ids:
    S = "%s/seeded/%s" % (V, i); p = json.load(open(S + "/meta.json"))["property"]; W = "/tmp/sc-%s" % i
    shutil.rmtree(W, ignore_errors=True); sh("cp -a /repo %s" % W); t = time.time()
    try:
        r = sh("git apply %s/patch.diff" % S, cwd=W)
        if r.returncode: print(i, "patch does not apply", r.stderr[:200]); continue
        r = sh("python3-vt %s/vc/run.py %s" % (V, p), env=dict(os.environ, VERIF_REPO=W))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-32s %s %s %.0fs" % (i, p, ("CAUGHT" + (" (no input)" if "no-failing" in v[0] else " (failing input)")) if v and r.returncode == 1 else "MISSED rc=%d" % r.returncode, time.time() - t), flush=True)
        if not v: print(r.stdout[-600:], r.stderr[-300:])
    finally: shutil.rmtree(W, ignore_errors=True)
