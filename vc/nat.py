"""Running native harnesses (real code) and collecting failing inputs."""
import subprocess, json, os
import build
def run_harness(name, args, timeout=300, props=None, env=None, stdin=None):
    exe = build.harness(name)
    try:
        r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, env=dict(os.environ, **(env or {})), input=stdin, errors="replace")
        out = r.stdout; rc = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""); rc = "timeout"
    fails = []; cases = 0
    for l in out.splitlines():
        if not l.startswith("{"): continue
        try: o = json.loads(l)
        except ValueError: continue
        if "cases" in o: cases = o["cases"]
        elif props is None or o.get("prop") in props: fails.append(o)
    return dict(cases=cases, failures=fails, harness=name, rc=rc)
def mem(prop):
    def native(info): return run_harness("memh", [info["seed"], 30 if info["tier"] == "quick" else 300], props=[prop])
    return native

class Krun:
    """Runs kernels on the real simulator (native/krun.cpp)."""
    def __init__(self, env=None):
        e = dict(os.environ, OCLGRIND_NUM_THREADS="1", OCLGRIND_MAX_ERRORS="1000000"); e.update(env or {})
        d = build.native()
        e.setdefault("LD_LIBRARY_PATH", d)
        self.p = subprocess.Popen([build.harness("krun")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
        self.dead = None
    def _line(self):
        l = self.p.stdout.readline()
        if not l: self.dead = self.p.wait(); raise KrunCrash("simulator died (rc %s)" % self.dead)
        return l.decode(errors="replace").rstrip("\n")
    def _send(self, s):
        try: self.p.stdin.write(s if isinstance(s, bytes) else s.encode()); self.p.stdin.flush()
        except BrokenPipeError: self.dead = self.p.wait(); raise KrunCrash("simulator died (rc %s)" % self.dead)
    def module(self, text, cl=False, opts=""):
        b = text.encode(); self._send((("CL %d %s\n" if cl else "LL %d%s\n") % (len(b), opts)).encode() + b + b"\n")
        l = self._line()
        while not l.startswith(("OK", "BAD")): l = self._line()
        if l != "OK": raise RuntimeError("module rejected: " + l[:2000])
    def run(self, kernel, args, g=(1, 1, 1), l=(1, 1, 1), off=(0, 0, 0), dim=None):
        g = tuple(g) + (1,) * (3 - len(g)); l = tuple(l) + (1,) * (3 - len(l)); off = tuple(off) + (0,) * (3 - len(off))
        dim = dim or (3 if g[2] > 1 else 2 if g[1] > 1 else 1)
        s = ["RUN %s %d %d %d %d %d %d %d %d %d %d %d\n" % ((kernel, dim) + off + g + l + (len(args),))]
        for k, v in args:
            if k == "B": s.append("B %d %s\n" % ((v, "") if isinstance(v, int) else (len(v), v.hex())))
            elif k == "V": s.append("V %s\n" % v.hex())
            elif k == "L": s.append("L %d\n" % v)
            elif k == "I": s.append("I %d %d %d %d %d %d %d %s\n" % (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7].hex()))
        self._send("".join(s))
        outs = {}; logs = []
        while True:
            x = self._line()
            if x == "DONE": return outs, logs
            if x.startswith("OUT "): _, i, h = (x.split(" ") + [""])[:3]; outs[int(i)] = bytes.fromhex(h)
            elif x.startswith("LOG "): logs.append(x[4:])
            elif x.startswith("NOKERNEL"): logs.append(x)
    def close(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass
class KrunCrash(Exception): pass
