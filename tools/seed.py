#!/usr/bin/env python3
"""seed.py SPEC.py [check]: plants a bug described by SPEC.py (ID, PROP, FILE, EDITS=[(old,new)..] or [(file,old,new)], NEEDS, BREAKS, DEMO (python text using kr.py) or
CPP (C++ text linked with liboclgrind / API=True: liboclgrind-rt)) in a scratch copy of /repo bound over /repo in a private mount namespace, confirms it, and writes /verif/seeded/ID."""
import sys, os, subprocess, shutil, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
spec = {}; exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]; S = os.path.join(V, "seeded", ID); W = "/tmp/seedw-%s" % ID
shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
edits = [(e if len(e) == 3 else (spec["FILE"],) + tuple(e)) for e in spec["EDITS"]]
HEAD = '#!/bin/bash\n# exit 0: behaves as specified; nonzero: broken\nD=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\nR=$PWD; B=$R/_build\nF=$(/usr/lib/llvm-20/bin/llvm-config --cxxflags | tr " " "\\n" | grep -E "^-(I|D)" | tr "\\n" " ")\nL=$(/usr/lib/llvm-20/bin/llvm-config --ldflags --libs core irreader bitwriter support --link-shared | tr "\\n" " ")\n'
CC = 'g++ -std=gnu++17 -O0 -fno-rtti -w -I$B -I$R/src -I$R/src/core $F "$D/%s" -o $T/x -L$B %s-loclgrind -Wl,-rpath,$B $L -lpthread || exit 2\n'
if "DEMO" in spec:
    shutil.copy(os.path.join(V, "native", "krun.cpp"), S); shutil.copy(os.path.join(V, "tools", "kr.py"), S)
    open(S + "/demo.py", "w").write("import sys, os, struct\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom kr import *\n" + spec["DEMO"].lstrip("\n") + '\nprint("OK")\n')
    open(S + "/demo.sh", "w").write(HEAD + CC % ("krun.cpp", "") + 'KRUN=$T/x timeout 120 python3 "$D/demo.py"\n')
elif "PYAPI" in spec:
    shutil.copy(os.path.join(V, "vc", "clapi.py"), S)
    open(S + "/demo.py", "w").write("import sys, os, struct\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom clapi import *\ndef check(c, m):\n    if not c: print('FAIL:', m); sys.stdout.flush(); os._exit(1)\n" + spec["PYAPI"].lstrip("\n") + '\nprint("OK"); sys.stdout.flush(); os._exit(0)\n')
    open(S + "/demo.sh", "w").write(HEAD.split("F=$(")[0] + 'export CLAPI_LIB=$B/liboclgrind-rt.so LD_LIBRARY_PATH=$B CLAPI_DIR=$T OCLGRIND_MAX_ERRORS=1000000 OCLGRIND_NUM_THREADS=1 OCLGRIND_PCH_DIR=$B/include/oclgrind %s\ntimeout 120 python3 "$D/demo.py"\n' % spec.get("ENV", ""))
elif "SH" in spec: open(S + "/demo.sh", "w").write(HEAD + spec["SH"])
else:
    open(S + "/demo.cpp", "w").write(spec["CPP"].lstrip("\n"))
    open(S + "/demo.sh", "w").write(HEAD + CC % ("demo.cpp", "-loclgrind-rt " if spec.get("API") else "") + "cd $T; timeout 120 ./x\n")
for fn, txt in spec.get("FILES", {}).items(): open(os.path.join(S, fn), "w").write(txt)
os.chmod(S + "/demo.sh", 0o755)
json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(S + "/meta.json", "w"), indent=1)
shutil.rmtree(W, ignore_errors=True); sh("cp -a /repo %s" % W)
try:
    for f, o, n in edits:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(o) != 1: print("PATTERN occurs %d times in %s: %r" % (t.count(o), f, o[:80])); sys.exit(2)
        open(p, "w").write(t.replace(o, n))
    d = sh("git -C %s diff" % W).stdout; open(S + "/patch.diff", "w").write(d)
    r = sh("cd /repo && bash %s/demo.sh" % S)
    if r.returncode: print("demo fails on the unchanged tree:", r.stdout[-1500:], r.stderr[-1500:]); sys.exit(2)
    r = sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh /tmp/sd/%s.json >/tmp/sd/%s.log 2>&1; cd /repo && bash %s/demo.sh; echo DEMO=$?%s'" % (W, ID, ID, S, "; cd /verif; VERIF_EVIDENCE=/tmp/sd python3-vt vc/run.py %s 2>/tmp/sd/err" % spec["PROP"] if "nocheck" not in sys.argv else ""))
    res = json.load(open("/tmp/sd/%s.json" % ID)); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = st - set(res["passed"])
    print(ID, "tests missing:", len(miss), sorted(miss)[:5], "| DEMO nonzero:", "DEMO=0" not in r.stdout)
    print(r.stdout[-1800:], r.stderr[-300:])
    if miss or "DEMO=0" in r.stdout: shutil.rmtree(S); print("NOT KEPT"); sys.exit(1)
    print("CAUGHT" if "VIOLATION property=%s" % spec["PROP"] in r.stdout else "MISSED")
finally: shutil.rmtree(W, ignore_errors=True)
