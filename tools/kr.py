"""Runs kernels on the simulator built in /repo/_build (through krun.cpp, compiled by demo.sh)."""
import subprocess, sys, os
class K:
    def __init__(self, env=None):
        e = dict(os.environ, OCLGRIND_NUM_THREADS="1", OCLGRIND_MAX_ERRORS="100000"); e.update(env or {})
        self.p = subprocess.Popen([os.environ["KRUN"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
    def line(self):
        l = self.p.stdout.readline()
        if not l: print("FAIL: simulator died"); sys.exit(1)
        return l.decode(errors="replace").rstrip("\n")
    def module(self, text, cl=True, opts=""):
        b = text.encode(); self.p.stdin.write((("CL %d %s\n" if cl else "LL %d%s\n") % (len(b), opts)).encode() + b + b"\n"); self.p.stdin.flush()
        l = self.line()
        while not l.startswith(("OK", "BAD")): l = self.line()
        if l != "OK": print("FAIL: module rejected", l); sys.exit(1)
    def run(self, kernel, args, g=(1,), l=(1,), off=(0,), dim=None):
        """args: bytes (buffer with contents), int (zero-filled buffer of that size), ('V', bytes) by value, ('L', n) local, ('I', (w,h,d,array,type,order,dtype,bytes)) image"""
        x = lambda t, d: tuple(t) + (d,) * (3 - len(t))
        g, l, off = x(g, 1), x(l, 1), x(off, 0); dim = dim or (3 if g[2] > 1 else 2 if g[1] > 1 else 1)
        s = ["RUN %s %d %d %d %d %d %d %d %d %d %d %d\n" % ((kernel, dim) + off + g + l + (len(args),))]
        for a in args:
            if isinstance(a, int): s.append("B %d\n" % a)
            elif isinstance(a, (bytes, bytearray)): s.append("B %d %s\n" % (len(a), bytes(a).hex()))
            elif a[0] == "V": s.append("V %s\n" % a[1].hex())
            elif a[0] == "L": s.append("L %d\n" % a[1])
            else: v = a[1]; s.append("I %d %d %d %d %d %d %d %s\n" % (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7].hex()))
        self.p.stdin.write("".join(s).encode()); self.p.stdin.flush()
        outs = {}; logs = []
        while True:
            r = self.line()
            if r == "DONE": return outs, logs
            if r.startswith("OUT "): _, i, h = (r.split(" ") + [""])[:3]; outs[int(i)] = bytes.fromhex(h)
            elif r.startswith("LOG "): logs.append(r[4:])
            elif r.startswith("NOKERNEL"): logs.append(r)
def check(c, msg):
    if not c: print("FAIL:", msg); sys.exit(1)
