#!/usr/bin/env python3
"""mut.py FILE OLD NEW PROP...  — run checks against a scratch copy of /repo with OLD replaced by NEW (developer tool)"""
import sys, os, shutil, subprocess, tempfile
f, old, new = sys.argv[1:4]
d = "/tmp/mut%d" % os.getpid()
shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
try:
    p = os.path.join(d, f); s = open(p).read()
    if s.count(old) < 1: print("pattern not found"); sys.exit(2)
    open(p, "w").write(s.replace(old, new, 1))
    for prop in sys.argv[4:]:
        r = subprocess.run(["python3-vt", "/verif/vc/run.py", prop], env=dict(os.environ, VERIF_REPO=d), text=True, capture_output=True)
        print(prop, "exit", r.returncode); print(r.stdout[-1500:]); print(r.stderr[-600:])
finally: shutil.rmtree(d)
