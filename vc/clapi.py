"""The real runtime library (liboclgrind-rt.so) through ctypes, for native cross-checks.  Oracles run in a worker process:
  python3 clapi.py MODULE FUNCTION SEED N   -> JSON lines (failures, then {"cases": N})"""
import ctypes as ct, json, os, signal, sys, subprocess, random, struct, tempfile, shutil
U64, U32, VP, SZ = ct.c_uint64, ct.c_uint32, ct.c_void_p, ct.c_size_t
RW, WO, RO, USEHOST, ALLOCHOST, COPYHOST = 1, 2, 4, 8, 16, 32
HANDLE = {"clCreateContext", "clCreateCommandQueue", "clCreateCommandQueueWithProperties", "clCreateBuffer", "clCreateSubBuffer", "clCreateImage", "clCreateProgramWithSource", "clCreateKernel", "clEnqueueMapBuffer", "clEnqueueMapImage", "clCreateUserEvent", "clCreateSampler", "clCreateBufferWithProperties", "clCreateImage2D", "clCreateImage3D", "clSVMAlloc", "clCloneKernel", "clCreateSamplerWithProperties", "clCreateImageWithProperties", "clCreateProgramWithBinary", "clLinkProgram", "clCreateContextFromType"}
def arr(ty, xs):
    return None if xs is None else (ty * max(1, len(xs)))(*xs)
class CL:
    """one context with one queue"""
    def __init__(self, props=0, capture=None):
        self.dir = os.environ["CLAPI_DIR"]; CL.n = getattr(CL, "n", 0) + 1
        self.logf = os.path.join(self.dir, "log%d" % CL.n); os.environ["OCLGRIND_LOG"] = self.logf; self.pos = 0
        self.lib = ct.CDLL(os.environ["CLAPI_LIB"])
        p = VP(); self("clGetPlatformIDs", U32(1), ct.byref(p), None); self.platform = p.value
        d = VP(); self("clGetDeviceIDs", p, U64(0xFFFFFFFF), U32(1), ct.byref(d), None); self.dev = d.value
        self.errs = []; CB = ct.CFUNCTYPE(None, ct.c_char_p, VP, SZ, VP)
        self.cb = CB(lambda s, a, b, c: self.errs.append(s.decode(errors="replace")))
        e = ct.c_int(); self.ctx = self("clCreateContext", None, U32(1), arr(VP, [self.dev]), self.cb, None, ct.byref(e)); assert e.value == 0
        self.q = self("clCreateCommandQueue", VP(self.ctx), VP(self.dev), U64(props), ct.byref(e)); assert e.value == 0
    def __call__(self, fn, *a):
        f = getattr(self.lib, fn); f.restype = VP if fn in HANDLE else ct.c_int
        return f(*a)
    def h(self, fn, *a):
        """a function returning a handle through errcode -> (handle, err)"""
        e = ct.c_int(12345); r = self(fn, *a, ct.byref(e)); return r, e.value
    def buf(self, flags, size, host=None):
        r, e = self.h("clCreateBuffer", VP(self.ctx), U64(flags), SZ(size), host if host is None or not isinstance(host, bytes) else ct.create_string_buffer(host, len(host)))
        assert e == 0, e
        return r
    def sub(self, b, flags, off, n):
        return self.h("clCreateSubBuffer", VP(b), U64(flags), U32(0x1220), arr(SZ, [off, n]))
    def prog(self, src, opts=""):
        s = ct.c_char_p(src.encode()); p, e = self.h("clCreateProgramWithSource", VP(self.ctx), U32(1), ct.byref(s), None)
        e = self("clBuildProgram", VP(p), U32(1), arr(VP, [self.dev]), ct.c_char_p(opts.encode()), None, None); assert e == 0, e
        return p
    def kernel(self, p, name):
        k, e = self.h("clCreateKernel", VP(p), ct.c_char_p(name.encode())); assert e == 0, e
        return k
    def arg(self, k, i, v):
        if isinstance(v, tuple): return self("clSetKernelArg", VP(k), U32(i), SZ(v[1]), None)
        if isinstance(v, bytes): return self("clSetKernelArg", VP(k), U32(i), SZ(len(v)), ct.c_char_p(v) if 0 else ct.create_string_buffer(v, len(v)))
        x = VP(v); return self("clSetKernelArg", VP(k), U32(i), SZ(8), ct.byref(x))
    def run(self, k, args, g=(1,), l=None, off=None, q=None):
        for i, a in enumerate(args):
            e = self.arg(k, i, a); assert e == 0, (i, e)
        e = self("clEnqueueNDRangeKernel", VP(q or self.q), VP(k), U32(len(g)), arr(SZ, off), arr(SZ, g), arr(SZ, l), U32(0), None, None)
        if e == 0: self.finish(q)
        return e
    def finish(self, q=None): return self("clFinish", VP(q or self.q))
    def read(self, b, off, n):
        h = ct.create_string_buffer(max(1, n)); e = self("clEnqueueReadBuffer", VP(self.q), VP(b), U32(1), SZ(off), SZ(n), h, U32(0), None, None); assert e == 0, e
        return h.raw[:n]
    def write(self, b, off, data):
        e = self("clEnqueueWriteBuffer", VP(self.q), VP(b), U32(1), SZ(off), SZ(len(data)), ct.create_string_buffer(data, len(data)), U32(0), None, None); assert e == 0, e
    def logs(self):
        try:
            with open(self.logf, "rb") as f: f.seek(self.pos); s = f.read(); self.pos += len(s)
        except FileNotFoundError: return []
        return [x for x in s.decode(errors="replace").split("\n\n") if x.strip()]
class Out:
    def __init__(self, prop): self.prop = prop; self.n = 0; self.f = 0
    def at(self, **k): signal.alarm(60); self.cur = k; print(json.dumps(dict(at=k), default=str), flush=True)
    def case(self): signal.alarm(0); self.n += 1
    def fail(self, **k):
        self.f += 1
        if self.f <= 20: print(json.dumps(dict(prop=self.prop, **k), default=str), flush=True)
def api(prop, module, fn, quick, thorough, timeout=300, env=None):
    """native(info) running MODULE.FN(Out, rnd, n) in a worker"""
    def native(info):
        import build
        d = build.native(); tmp = tempfile.mkdtemp(prefix="clapi"); n = quick if info["tier"] == "quick" else thorough
        e = dict(os.environ, CLAPI_LIB=os.path.join(d, "liboclgrind-rt.so"), LD_LIBRARY_PATH=d, CLAPI_DIR=tmp, OCLGRIND_MAX_ERRORS="1000000", OCLGRIND_PCH_DIR=os.path.join(d, "include", "oclgrind"), OCLGRIND_NUM_THREADS="1"); e.update(env or {})
        try:
            try:
                r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "clapi.py"), module, fn, str(info["seed"]), str(n), prop], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout if info["tier"] == "quick" else timeout * 10, env=e, cwd=tmp)
                out, rc, er = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as x: out, rc, er = x.stdout or b"", "timeout", b""
        finally: shutil.rmtree(tmp, ignore_errors=True)
        fails = []; cases = 0; at = None; done = False
        for l in out.decode(errors="replace").splitlines():
            if not l.startswith("{"): continue
            try: o = json.loads(l)
            except ValueError: continue
            if "at" in o: at = o["at"]
            elif "cases" in o: cases = o["cases"]; done = True
            else: fails.append(o)
        res = dict(cases=cases, failures=fails, harness="clapi.%s.%s" % (module, fn), rc=rc)
        if not done:
            if isinstance(rc, int) and rc < 0 and at is not None: fails.append(dict(prop=prop, kind="the request did not complete within 60 s" if rc == -14 else "the runtime crashed (signal %d)" % -rc, input=at))
            else: res["error"] = "worker ended early (rc %s): %s" % (rc, er.decode(errors="replace")[-600:])
        return res
    return native
if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import importlib
    m = importlib.import_module(sys.argv[1]); o = Out(sys.argv[5])
    getattr(m, sys.argv[2])(o, random.Random(int(sys.argv[3])), int(sys.argv[4]))
    print(json.dumps(dict(cases=o.n)), flush=True); os._exit(0)
