"""R02: reference counts of the API objects (runtime.cpp, async_queue.cpp): retain, release, and creation."""
import re, z3
from engine import *
from run import Task
from rt import RT
from ndrange import pre
N = lambda c: z3.BitVecVal(c & 0xFFFFFFFF, 32)
NAME = dict(context="Context", queue="CommandQueue", memory="MemObject", sampler="Sampler", program="Program", kernel="Kernel", event="Event")
CLS = dict(context="_cl_context", queue="_cl_command_queue", memory="cl_image", sampler="_cl_sampler", program="_cl_program", kernel="_cl_kernel", event="_cl_event")
ERR = dict(context=-34, queue=-36, memory=-38, sampler=-41, program=-44, kernel=-48, event=-58)
CORE = dict(context="context", queue="queue", program="program", kernel="kernel", event="event")
class Refs:
    def __init__(self, t):
        self.R = R = RT(t); self.E = E = R.E; self.m = R.m; self.st = R.st; R.st.ghost.setdefault("ev", ())
        E.cut_at = 0; E.coarse_sat = True
        for k, nm in NAME.items():
            for w in ("Retain", "Release"): self.call("cl%s%s" % (w, nm), (w.lower(), k))
        self.call("clFinish", ("finish", "queue"))
        pre(E, r"^operator delete(\[\])?\(void\*", self.delete); pre(E, r"^free$", lambda E, st, a, I: 0); E.models["free"] = lambda E, st, a, I: 0
        for k in ("operator delete(void*)", "operator delete(void*, unsigned long)"): E.models[k] = self.delete
        pre(E, r"^_?(cl_\w+)::~?_?\1\(\)", lambda E, st, a, I: 0)
        pre(E, r"^std::(__cxx11::)?(basic_string|vector|map|list|stack|deque)<.*>::~?(basic_string|vector|map|list|stack|deque)\(", lambda E, st, a, I: 0)
        self.owned = {}; self.optional = []
    def call(self, fn, what):
        def f(E, st, a, I): E.used_contracts.add(fn); self.live(st, a[0]); st.log("ev", what + (a[0],)); return 0
        self.E.models[fn] = f
    def live(self, st, p):
        for e in st.ghost.get("ev", ()):
            if e[0] == "delete": self.E.oblige(st, z3.Not(b2z(peq(e[2], p))), "an object is not used after it is destroyed")
    def delete(self, E, st, a, I):
        out = []
        for s, p in E.resolve(st, a[0]):
            if not (isinstance(p, Ptr) and p.r is None and isc(p.off) and p.off == 0):
                self.live(s, p); s.log("ev", ("delete", "object", p))
            out.append((s, 0))
        return out
    def core(self, r, field):
        """the core object behind an API object; its (virtual) destruction is logged"""
        c = Region("core " + field); vt = Region("vtable"); self.R.ref(r, field, c); c.base[("c", 0, 8)] = Ptr(vt)
        for i in range(0, 64, 8):
            d = Region("virtual function %d" % (i // 8)); vt.base[("c", i, 8)] = Ptr(d)
            def h(E, st, a, I, i=i):
                if i != 8: raise Unsupported("virtual call")
                self.live(st, a[0]); st.log("ev", ("delete", "core", a[0])); return 0
            d.fnptr = h
        return c
    def callbacks(self, obj, core=None):
        cb = Region("callback"); f = Region("callback function"); cb.base[("c", 0, 8)] = Ptr(f)
        def h(E, st, a, I):
            E.oblige(st, peq(a[0], Ptr(obj)), "callbacks are about the object"); self.live(st, Ptr(obj))
            if core is not None: self.live(st, Ptr(core))
            return 0
        f.fnptr = h; S = r"^std::stack<std::pair<void \(\*\)\(.*>::"
        pre(self.E, S + r"empty\(\) const", lambda E, st, a, I: (self.live(st, Ptr(obj)), z3.FreshConst(z3.BoolSort(), "no callbacks"))[1]); pre(self.E, S + r"top\(\)", lambda E, st, a, I: Ptr(cb)); pre(self.E, S + r"pop\(\)", lambda E, st, a, I: 0)
    # ---- what must have happened
    def events(self, s): return [e for e in s.ghost.get("ev", ())]
    def expect(self, s, want, what):
        """the events are exactly the given ones, in any order"""
        E = self.E; ev = self.events(s); keys = sorted({w[:2] for w in want} | {e[:2] for e in ev}); ok = True; conds = []
        for k in keys:
            ws = [w for w in want if w[:2] == k]; es = [e for e in ev if e[:2] == k]; ok &= len(ws) == len(es)
            for w in ws: conds.append(z3.Or(*[b2z(peq(e[2], w[2])) for e in es]))
        E.oblige(s, z3.And(*conds) if ok else z3.BoolVal(False), what)
    def before(self, s, a, b, what):
        ev = self.events(s); ia = [i for i, e in enumerate(ev) if e[:2] == a]; ib = [i for i, e in enumerate(ev) if e[:2] == b]
        if ia and ib: self.E.oblige(s, z3.BoolVal(max(ia) < min(ib)), what)
def t_retain(t, kind):
    X = Refs(t); R = X.R; o = R.obj(kind, CLS[kind]); rc = R.get(o, "refCount", w=32); fn = "clRetain" + NAME[kind]; X.E.models.pop(fn, None)
    for oc in R.run(fn, [o.arg]):
        s = oc.st; E = X.E; E.oblige(s, oc.kind == "ret", "no exception"); v = bvv(oc.val, 32); now = bvv(s.load(E, Ptr(o, X.m.field(CLS[kind], "refCount")), 4), 32)
        E.oblige(s, z3.Implies(z3.Not(o.null), z3.And(v == 0, now == rc + 1)), "one reference is added")
        E.oblige(s, z3.Implies(o.null, v == N(ERR[kind])), "an object is needed"); E.oblige(s, z3.BoolVal(not X.events(s)), "nothing else is retained or released")
def t_release(t, kind, variant=None):
    X = Refs(t); R = X.R; E = X.E; m = X.m; st = X.st; cls = CLS[kind]; o = R.obj(kind, cls); rc = R.get(o, "refCount", w=32); st.assume(rc != 0); fn = "clRelease" + NAME[kind]; want = [("delete", "object", Ptr(o))]; order = []
    ctx = Region("context"); core = None
    if kind not in ("context", "kernel"): R.ref(o, "context", ctx)
    if kind in ("context", "queue", "program", "kernel"): core = X.core(o, CORE[kind]); want.append(("delete", "core", Ptr(core)))
    if kind == "context":
        R.ref(o, "properties", pite(z3.Bool("no properties"), NULL, Ptr(Region("properties")))); X.callbacks(o, core)
    elif kind == "queue": want += [("finish", "queue", Ptr(o)), ("release", "context", Ptr(ctx))]; order = [(("finish", "queue"), ("delete", "core"), "waits for its commands before the queue is destroyed"), (("finish", "queue"), ("release", "context"), "the context lives while commands run")]
    elif kind == "program": want += [("release", "context", Ptr(ctx))]; order = [(("delete", "core"), ("release", "context"), "the program is destroyed before its context is released")]
    elif kind == "sampler": want += [("release", "context", Ptr(ctx))]
    elif kind == "event":
        core = Region("core event"); null = z3.Bool("no core event"); R.ref(o, "event", pite(null, NULL, Ptr(core))); st.assume(null == z3.BoolVal(variant == "no core")); want += [("release", "context", Ptr(ctx))]
        if variant != "no core": want.append(("delete", "object", Ptr(core)))
        pre(E, r"^oclgrind::Event::~Event\(\)", lambda E, st, a, I: 0)
    elif kind == "kernel":
        pr = Region("program"); R.ref(o, "program", pr); want += [("release", "program", Ptr(pr))]; order = [(("delete", "core"), ("release", "program"), "the kernel is destroyed before its program is released")]
        n = R.var("images of the kernel"); st.assume(z3.ULT(n, 1 << 30)); L = Region("images"); IM = Region("image", fam=True); L.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(IM, 0, z3.LShR(bvv(off, 64), 3))); fo = m.field(cls, "imageArgs"); o.base[("c", fo, 8)] = Ptr(L); o.base[("c", fo + 8, 8)] = Ptr(L, n * 8)
        V = r"^std::vector<oclgrind::Image\*, .*>::"; mine = lambda st, p: E.oblige(st, peq(p, Ptr(o, fo)), "the kernel's images")
        import containers as C
        pre(E, V + r"c?begin\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(L, 0))[1]); pre(E, V + r"c?end\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(L, n * 8))[1])
        old = X.delete
        def dele(E, st, a, I):
            out = []
            for s, p in E.resolve(st, a[0]):
                if isinstance(p, Ptr) and p.r is IM: E.oblige(s, z3.ULT(bvv(p.inst, 64), n), "only the images of the kernel are destroyed"); out.append((s, 0))
                else: out += old(E, s, [p], I)
            return out
        for k in ("operator delete(void*)", "operator delete(void*, unsigned long)"): E.models[k] = dele
        pre(E, r"^operator delete(\[\])?\(void\*", dele)
    elif kind == "memory":
        im = R.get(o, "isImage", w=8); ty = R.get(o, "desc", "image_type", w=32); b1 = z3.And(im != 0, ty == 0x10F6); st.assume(z3.ULE(im, 1)); st.assume(b1 == z3.BoolVal(variant == "image of a buffer")); par = Region("parent"); R.ref(o, "parent", Ptr(par) if variant == "sub-buffer" else NULL)
        if variant == "sub-buffer": st.assume(im == 0)
        buf = Region("buffer of the image"); o.base[("c", m.field("cl_image", "desc") + m.field("_cl_image_desc", "num_samples") + 4, 8)] = Ptr(buf); ad = R.get(o, "address"); X.callbacks(o); cc = X_core_context(X, ctx)
        if variant == "image of a buffer": want += [("release", "memory", Ptr(buf))]
        elif variant == "sub-buffer": want += [("release", "memory", Ptr(par))]
        else:
            want += [("release", "context", Ptr(ctx)), ("free", "memory", Ptr(None, ad))]; order = [(("free", "memory"), ("release", "context"), "the memory is freed before the context is released")]
    E.models.pop(fn, None)
    if kind == "memory": X.call(fn, ("release", "memory"))
    for oc in R.run(fn, [o.arg]):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); v = bvv(oc.val, 32); now = bvv(s.load(E, Ptr(o, m.field(cls, "refCount")), 4), 32); last = z3.And(z3.Not(o.null), rc == 1)
        E.oblige(s, z3.And(z3.Implies(z3.Not(o.null), v == 0), z3.Implies(o.null, v == N(ERR[kind]))), "succeeds for every object")
        s1 = s.fork(); s1.assume(last)
        s2 = s.fork(); s2.assume(z3.Not(last))
        if E.sat(s2.pc):
            E.oblige(s2, z3.BoolVal(not X.events(s)), "an object with references left is not destroyed and keeps what it depends on"); E.oblige(s2, z3.Implies(z3.Not(o.null), now == rc - 1), "one reference is removed")
        if E.sat(s1.pc):
            X.expect(s1, want, "with its last reference the object is destroyed and releases what it depends on, once")
            for a, b, w in order: X.before(s1, a, b, w)
def X_core_context(X, ctx):
    """the context's global memory"""
    E = X.E; m = X.m; cc = Region("core context"); ctx.base[("c", m.field("_cl_context", "context"), 8)] = Ptr(cc); gm = Region("global memory")
    def get(E, st, a, I): E.used_contracts.add("Context::getGlobalMemory"); E.oblige(st, peq(a[0], Ptr(cc)), "the memory of the object's context"); return Ptr(gm)
    E.models["oclgrind::Context::getGlobalMemory"] = get
    def free(E, st, a, I): E.used_contracts.add("Memory::deallocateBuffer"); E.oblige(st, peq(a[0], Ptr(gm)), "the memory of the object's context"); st.log("ev", ("free", "memory", Ptr(None, a[1]))); return 0
    E.models["oclgrind::Memory::deallocateBuffer"] = free
    X.gm = gm; return cc
# ---- creation
def anon(X, nm):
    c = [f.dem for f in X.m.fns.values() if not f.decl and re.match(r"^(\(anonymous namespace\)::)?%s\(" % nm, f.dem)]
    if len(c) != 1: raise Unsupported("function " + nm)
    return c[0]
def created(X, outs, cls, want, context, null=None):
    E, m = X.E, X.m
    for oc in outs:
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception")
        for s, p in E.resolve(s, oc.val):
            ev = X.events(s)
            if p.r is None: E.oblige(s, z3.BoolVal(not [e for e in ev if e[0] in ("retain", "release")]), "without an object nothing is retained"); continue
            E.oblige(s, eq(bvv(s.load(E, pgep(p, m.field(cls, "refCount")), 4), 32), N(1)), "a new object has one reference")
            if context: E.oblige(s, peq(s.load(E, pgep(p, m.field(cls, context[0])), 8, "ptr"), Ptr(context[1])), "the object records what it depends on")
            keep = [e for e in ev if e[0] in ("retain", "release")]; ok = len(keep) == len(want) and all(e[:2] == w[:2] for e, w in zip(keep, want))
            E.oblige(s, z3.And(*[b2z(peq(e[2], w[2])) for e, w in zip(keep, want)]) if ok and want else z3.BoolVal(ok), "a new object holds one reference on what it depends on")
            for e in ev:
                if e[0] == "delete": E.oblige(s, z3.Not(b2z(peq(e[2], p))), "the object returned is not destroyed")
def start(t):
    X = Refs(t); X.ctx = X.R.obj("context", "_cl_context"); X.ec = Region("error code"); X.ec.base[("c", 0, 4)] = z3.BitVec("errcode before", 32); X.ecarg = pite(z3.Bool("errcode_ret is null"), NULL, Ptr(X.ec)); X.dev = Region("device")
    gs = [n for n in X.m.globals if re.search(r"\dm_device(E|$)|^m_device$", n)]
    if len(gs) == 1: X.E.gptr(gs[0]).r.base[("c", 0, 8)] = Ptr(X.dev)
    od = z3.Bool("another device"); X.E.inputs["another device"] = od; X.device = pite(od, Ptr(Region("another device")), Ptr(X.dev))
    X.ret = lambda: [("retain", "context", Ptr(X.ctx))]
    for nm in (r"^oclgrind::(Queue|Event|Context|Program|Kernel)::\1\(", r"^void std::vector<.*>::assign<", r"^std::(map|vector|list|stack)<.*>::operator=\("): pre(X.E, nm, lambda E, st, a, I: 0)
    props = Region("properties"); pv = z3.Function("property", z3.BitVecSort(64), z3.BitVecSort(64)); props.schemafn = lambda off: (lambda E, inst, off, tag: pv(z3.LShR(bvv(off, 64), 3))); X.props = pite(z3.Bool("no properties"), NULL, Ptr(props))
    return X
def t_event(t): X = start(t); created(X, X.R.run("clCreateUserEvent", [X.ctx.arg, X.ecarg]), "_cl_event", X.ret(), ("context", X.ctx))
def t_sampler(t, p):
    X = start(t); v = X.R.var
    created(X, X.R.run("clCreateSampler" + ("WithProperties" if p else ""), [X.ctx.arg] + ([X.props] if p else [v("normalized", 32), v("addressing mode", 32), v("filter mode", 32)]) + [X.ecarg]), "_cl_sampler", X.ret(), ("context", X.ctx))
def t_queue(t, p):
    X = start(t)
    created(X, X.R.run("clCreateCommandQueue" + ("WithProperties" if p else ""), [X.ctx.arg, X.device, X.props if p else X.R.var("properties"), X.ecarg]), "_cl_command_queue", X.ret(), ("context", X.ctx))
def t_clone(t):
    X = start(t); R = X.R; k = R.obj("kernel", "_cl_kernel"); R.ref(k, "kernel", Region("core kernel")); pr = Region("program"); R.ref(k, "program", pr)
    V = r"^std::vector<oclgrind::Image\*, .*>::"; L = Region("images"); n = R.var("images of the kernel"); X.st.assume(z3.ULT(n, 1 << 30)); IM = Region("image", fam=True); L.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(IM, 0, z3.LShR(bvv(off, 64), 3)))
    pre(X.E, V + r"c?begin\(\)", lambda E, st, a, I: Ptr(L, 0)); pre(X.E, V + r"c?end\(\)", lambda E, st, a, I: Ptr(L, n * 8)); pre(X.E, V + r"push_back\(", lambda E, st, a, I: 0)
    created(X, R.run("clCloneKernel", [k.arg, X.ecarg]), "_cl_kernel", [("retain", "program", Ptr(pr))], ("program", pr))
def t_kernel(t):
    X = start(t); R = X.R; E = X.E; pr = R.obj("program", "_cl_program", null=False); R.ref(pr, "context", X.ctx); core = Region("core program"); R.ref(pr, "program", core); d = R.get(pr, "dispatch") if False else None
    gs = [n for n in X.m.globals if n == "m_dispatchTable"]
    pr.base[("c", 0, 8)] = pite(z3.Bool("another dispatch table"), Ptr(Region("other dispatch table")), E.gptr(gs[0])) if gs else NULL
    ck = lambda E, st, a, I: pite(z3.Bool("no such kernel"), NULL, Ptr(Region("core kernel")))
    pre(E, r"^oclgrind::Program::createKernel\(", ck); E.models["oclgrind::Program::createKernel"] = ck
    pre(E, r"^std::(__cxx11::)?basic_string<char.*>::basic_string<.*\(char const\*", lambda E, st, a, I: 0); pre(E, r"^std::allocator<char>::~?allocator\(\)|^std::__new_allocator<char>::", lambda E, st, a, I: 0)
    created(X, R.run("clCreateKernel", [pr.arg, R.data("kernel name").arg, X.ecarg]), "_cl_kernel", [("retain", "program", Ptr(pr))], ("program", pr))
def t_buffer(t):
    X = start(t); R = X.R; E = X.E; cc = X_core_context(X, X.ctx); ad = R.var("address of the buffer")
    def alloc(E, st, a, I): E.oblige(st, peq(a[0], Ptr(X.gm)), "the memory of the context"); return ad
    for f in ("createHostBuffer", "allocateBuffer"): E.models["oclgrind::Memory::" + f] = alloc
    E.models["oclgrind::Memory::store"] = lambda E, st, a, I: z3.FreshConst(z3.BoolSort(), "stored"); E.models["oclgrind::Context::getGlobalMemory"] = lambda E, st, a, I: Ptr(X.gm)
    X.dev.base[("c", X.m.field("_cl_device_id", "globalMemSize"), 8)] = R.var("device memory")
    created(X, R.run(anon(X, "createBuffer"), [X.ctx.arg, R.var("flags"), R.var("size"), R.data("host pointer").arg, X.ecarg]), "_cl_mem", X.ret(), ("context", X.ctx))
def t_image(t, kind):
    """an image, with its memory from createBuffer or an existing buffer"""
    X = start(t); R = X.R; E = X.E; m = X.m; d = Region("image description"); g = Region("image format"); b = Region("buffer given"); v = R.var; null = z3.Bool("no buffer given"); new = Region("memory created"); fail = z3.Bool("no memory created")
    for f, w in (("image_type", 32), ("image_width", 64), ("image_height", 64), ("image_depth", 64), ("image_array_size", 64), ("image_row_pitch", 64), ("image_slice_pitch", 64)): d.base[("c", m.field("_cl_image_desc", f), w // 8)] = v(f, w)
    ty = d.base[("c", m.field("_cl_image_desc", "image_type"), 4)]; X.st.assume((ty == 0x10F6) == z3.BoolVal(kind == "of a buffer")); d.base[("c", m.field("_cl_image_desc", "num_samples") + 4, 8)] = pite(null, NULL, Ptr(b))
    for x in ("image_channel_order", "image_channel_data_type"): g.base[("c", m.field("_cl_image_format", x), 4)] = v(x, 32)
    for x in (new, b): x.base[("c", m.field("_cl_mem", "context"), 8)] = Ptr(X.ctx)
    def cb(E, st, a, I): E.used_contracts.add("createBuffer"); E.oblige(st, peq(a[0], Ptr(X.ctx)), "memory of the context given"); return pite(fail, NULL, Ptr(new))
    E.models["createBuffer"] = cb; pre(E, r"^\(anonymous namespace\)::createBuffer\(", cb)
    pre(E, r"^(oclgrind::|\(anonymous namespace\)::)?(getPixelSize|getNumDimensions|isImageArray)\(", lambda E, st, a, I: z3.FreshConst(z3.BoolSort(), "array") if "isImageArray" in I["fn"] else z3.FreshConst(z3.BitVecSort(64), "image"))
    def copy(E, st, a, I):
        out = []
        for s, q in E.resolve(st, a[1]):
            if q.r is None: E.oblige(s, False, "the memory exists"); continue
            E.memcpy(s, a[0], q, m.field("_cl_mem", "hostPtr") + 8); out.append((s, a[0]))
        return out
    pre(E, r"^(_cl_mem|cl_image)::operator=\(", copy)
    outs = R.run(anon(X, "createImage"), [X.ctx.arg, v("flags"), pite(z3.Bool("no format"), NULL, Ptr(g)), pite(z3.Bool("no description"), NULL, Ptr(d)), R.data("host pointer").arg, X.ecarg])
    created(X, outs, "cl_image", [("retain", "memory", Ptr(b))] if kind == "of a buffer" else [], ("context", X.ctx))
    for oc in outs:
        for s, p in E.resolve(oc.st.fork(), oc.val):
            if p.r is not None: E.oblige(s, z3.BoolVal(len([e for e in X.events(s) if e[0] == "delete"]) == (kind != "of a buffer")), "only the wrapper of its own memory is destroyed")
def tasks_R02(mod):
    out = [Task("retain (%s)" % k, "clRetain" + NAME[k], lambda t, k=k: t_retain(t, k)) for k in NAME]
    for k in NAME:
        for v in {"memory": ("buffer or image", "sub-buffer", "image of a buffer"), "event": ("core", "no core")}.get(k, (None,)): out.append(Task("release (%s%s)" % (k, ", " + v if v else ""), "clRelease" + NAME[k], lambda t, k=k, v=v: t_release(t, k, v)))
    out += [Task("user event", "clCreateUserEvent", t_event), Task("clone", "clCloneKernel", t_clone), Task("kernel", "clCreateKernel", t_kernel), Task("buffer", "createBuffer", t_buffer)] + [Task("image " + k, "createImage", lambda t, k=k: t_image(t, k)) for k in ("with its own memory", "of a buffer")]
    for p in (False, True): w = "WithProperties" if p else ""; out += [Task("sampler " + w, "clCreateSampler" + w, lambda t, p=p: t_sampler(t, p)), Task("queue " + w, "clCreateCommandQueue" + w, lambda t, p=p: t_queue(t, p))]
    return out + async_tasks()
# ---- references held for queued commands (async_queue.cpp)
LST = r"^std::(__cxx11::)?list<%s, .*>::"
MP = r"^std::map<oclgrind::Command\*, %s.*>::"
class Cnt:
    """a ghost position in memory: elements 0 .. position-1 of a sequence have been handled, in order"""
    def __init__(self, X, nm, elem, n):
        self.X, self.nm, self.elem, self.n = X, nm, elem, n; self.r = Region("ghost position: " + nm); self.r.base[("c", 0, 8)] = 0; Cnt.all.append(self)
    def step(self, st, p, what):
        E = self.X.E; k = bvv(st.load(E, Ptr(self.r), 8), 64); E.oblige(st, z3.And(z3.ULT(k, self.n), b2z(peq(p, self.elem(k)))), what); st.store(E, Ptr(self.r), 8, k + 1)
    def total(self, s): return bvv(s.load(self.X.E, Ptr(self.r), 8), 64)
Cnt.all = []
def cntstart(t):
    X = Refs(t); E = X.E; Cnt.all = []; X.cmd = Region("command")
    def h(E, d):
        """positions of sequences and the loop's own position agree"""
        out = []; vs = [(k, w) for k, (x, w) in d["vars"].items() if w in (32, 64)]; lim = Cnt.all
        mk = lambda x, w: z3.ZeroExt(64 - w, bvv(x, w)) if w < 64 else bvv(x, 64)
        for c in lim:
            pos = lambda s, c=c: bvv(s.load(E, Ptr(c.r), 8), 64); out.append(("position within the sequence", lambda s, v, c=c, pos=pos: z3.ULE(pos(s), c.n)))
            for k, w in vs:
                for sh in (0, 3, 4): out.append(("positions agree", lambda s, v, k=k, w=w, sh=sh, pos=pos: mk(v[k], w) == pos(s) << sh))
        return out
    E.hints.append(h); return X
def keyed(X, st, p):
    X.E.oblige(st, peq(st.load(X.E, p, 8, "ptr"), Ptr(X.cmd)), "recorded for this command")
def t_aretain(t):
    X = cntstart(t); E = X.E; o = Region("memory object"); L = Region("list of the command")
    pre(E, MP % r"std::(__cxx11::)?list<_cl_mem" + r"operator\[\]\(", lambda E, st, a, I: (keyed(X, st, a[1]), Ptr(L))[1])
    def push(E, st, a, I): E.oblige(st, peq(a[0], Ptr(L)), "the command's list"); st.log("ev", ("record", "memory", st.load(E, a[1], 8, "ptr"))); return 0
    pre(E, LST % r"_cl_mem\*" + r"push_(back|front)\(", push); pre(E, LST % r"_cl_mem\*" + r"emplace_(back|front)<", push)
    fn = [f.dem for f in X.m.fns.values() if f.dem.startswith("asyncQueueRetain(") and "_cl_mem" in f.dem and not f.decl]
    for oc in X.R.run(fn[0], [Ptr(X.cmd), Ptr(o)]): E.oblige(oc.st, oc.kind == "ret", "no exception"); X.expect(oc.st, [("retain", "memory", Ptr(o)), ("record", "memory", Ptr(o))], "the object is retained and recorded for the command, once")
def t_akernel(t):
    X = cntstart(t); E = X.E; R = X.R; m = X.m; k = Region("kernel"); n = R.var("memory arguments"); X.st.assume(z3.ULT(n, 1 << 30)); slot = Region("kernel recorded"); slot.base[("c", 0, 8)] = NULL
    import containers as C
    A = Region("memory argument", fam=True); S = C.Seq(E, "memory arguments", 16, lambda off: (lambda E, inst, o, tag: (Ptr(A, 0, z3.LShR(bvv(o, 64) - 8, 4)))))
    pre(E, MP % "_cl_kernel" + r"operator\[\]\(", lambda E, st, a, I: (keyed(X, st, a[1]), Ptr(slot))[1]); pre(E, MP % "_cl_kernel" + r"(find|end)\(", lambda E, st, a, I: NULL)
    members = Ptr(k, m.field("_cl_kernel", "memArgs")); MM = r"^std::map<unsigned int, _cl_mem\*, .*>::"; mine = lambda st, p: E.oblige(st, peq(p, members), "the kernel's arguments")
    pre(E, MM + r"c?begin\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(S.r, 0))[1]); pre(E, MM + r"c?end\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(S.r, n * 16))[1])
    IT = r"^std::_Rb_tree_(const_)?iterator<std::pair<unsigned int const, _cl_mem\*>.*>"; C.seq_iter(E, IT, 16); C.iter_cmp(E, r"std::_Rb_tree_(const_)?iterator<std::pair<unsigned int const")
    pre(E, IT + r"::_Rb_tree_const_iterator\(std::", lambda E, st, a, I: (st.store(E, a[0], 8, a[1] if not (isinstance(a[1], Ptr) and a[1].r is not S.r) else C.it(E, st, a[1])), 0)[1])
    c = Cnt(X, "memory arguments retained", lambda i: Ptr(A, 0, i), n)
    def keep(E, st, a, I): E.used_contracts.add("asyncQueueRetain(Command*, cl_mem)"); E.oblige(st, peq(a[0], Ptr(X.cmd)), "for this command"); c.step(st, a[1], "each memory argument of the kernel is retained once"); return 0
    fns = {f.dem: f for f in X.m.fns.values() if f.dem.startswith("asyncQueueRetain(") and not f.decl}; mem = [d for d in fns if "_cl_mem" in d][0]; fn = [d for d in fns if "_cl_kernel" in d][0]
    E.models[mem] = keep; pre(E, "^" + re.escape(mem), keep)
    for oc in R.run(fn, [Ptr(X.cmd), Ptr(k)]):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); X.expect(s, [("retain", "kernel", Ptr(k))], "the kernel is retained once"); E.oblige(s, c.total(s) == n, "every memory argument of the kernel is retained"); E.oblige(s, peq(s.load(E, Ptr(slot), 8, "ptr"), Ptr(k)), "the kernel is recorded for the command")
def t_aenqueue(t):
    X = cntstart(t); E = X.E; R = X.R; m = X.m; q = R.obj("queue", "_cl_command_queue", null=False); ctx = Region("context"); R.ref(q, "context", ctx); core = Region("core queue"); R.ref(q, "queue", core); n = R.var("events in wait list", 32); n64 = z3.ZeroExt(32, n); EV = Region("event", fam=True); CE = Region("core event", fam=True); wl = Region("wait list"); wl.schemafn = lambda off: (lambda E, inst, o, tag: Ptr(EV, 0, z3.LShR(bvv(o, 64), 3))); eo = m.field("_cl_event", "event")
    EV.schemafn = lambda off: (lambda E, inst, o, tag: Ptr(CE, 0, inst)) if isc(off) and off == eo else None
    kept, waits, rec = Cnt(X, "events retained", lambda i: Ptr(EV, 0, i), n64), Cnt(X, "events waited for", lambda i: Ptr(CE, 0, i), n64), Cnt(X, "events recorded", lambda i: Ptr(EV, 0, i), n64); L = Region("events of the command"); slot = Region("event recorded"); slot.base[("c", 0, 8)] = NULL; new = Region("new core event")
    out = Region("event out"); en = z3.Bool("no event wanted"); E.inputs["no event wanted"] = en; out.base[("c", 0, 8)] = NULL
    pre(E, LST % r"oclgrind::Event\*" + r"push_back\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(X.cmd, m.field("oclgrind::Command", "waitList"))), "the command's wait list"), waits.step(st, st.load(E, a[1], 8, "ptr"), "the command waits for each event of the list"), 0)[2])
    pre(E, MP % r"std::(__cxx11::)?list<_cl_event" + r"operator\[\]\(", lambda E, st, a, I: (keyed(X, st, a[1]), Ptr(L))[1]); pre(E, MP % "_cl_event" + r"operator\[\]\(", lambda E, st, a, I: (keyed(X, st, a[1]), Ptr(slot))[1])
    pre(E, LST % r"_cl_event\*" + r"push_back\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(L)), "the command's list"), rec.step(st, st.load(E, a[1], 8, "ptr"), "each event of the list is recorded for the command"), 0)[2])
    def retain(E, st, a, I):
        E.used_contracts.add("clRetainEvent"); o = []
        for s, p in E.resolve(st, a[0]):
            if p.r is EV: kept.step(s, p, "each event of the list is retained once")
            else: s.log("ev", ("retain", "event", p))
            o.append((s, 0))
        return o
    E.models["clRetainEvent"] = retain
    def enq(E, st, a, I): E.used_contracts.add("Queue::enqueue"); E.oblige(st, And(peq(a[0], Ptr(core)), peq(a[1], Ptr(X.cmd))), "the command is enqueued on the queue"); E.oblige(st, waits.total(st) == n64, "its wait list is complete"); st.log("ev", ("enqueue", "command", a[1])); return Ptr(new)
    E.models["oclgrind::Queue::enqueue"] = enq; ty = R.var("type", 32)
    for oc in R.run("asyncEnqueue", [Ptr(q), ty, Ptr(X.cmd), n, Ptr(wl), pite(en, NULL, Ptr(out))]):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); E.oblige(s, z3.And(kept.total(s) == n64, waits.total(s) == n64, rec.total(s) == n64), "every event of the list is retained, recorded and waited for")
        for s, p in E.resolve(s, s.load(E, Ptr(slot), 8, "ptr")):
            if p.r is None or p.r is EV: E.oblige(s, False, "the new event is recorded for the command"); continue
            at = lambda f, w, ty=None: s.load(E, pgep(p, m.field("_cl_event", f)), w, ty)
            E.oblige(s, And(peq(at("context", 8, "ptr"), Ptr(ctx)), peq(at("queue", 8, "ptr"), Ptr(q)), peq(at("event", 8, "ptr"), Ptr(new)), eq(bvv(at("type", 4), 32), ty), eq(bvv(at("refCount", 4), 32), N(1))), "the new event belongs to the command, its queue and its context, and has the command's reference")
            for s2, wanted in ((s.fork(), True), (s.fork(), False)):
                s2.assume(z3.Not(en) if wanted else en)
                if not E.sat(s2.pc): continue
                X.expect(s2, [("retain", "context", Ptr(ctx)), ("enqueue", "command", Ptr(X.cmd))] + ([("retain", "event", p)] if wanted else []), "the event references the context, and has a second reference if it is given out")
                E.oblige(s2, peq(s2.load(E, Ptr(out), 8, "ptr"), p if wanted else NULL), "the event is given out")
def t_arelease(t, kernel):
    X = cntstart(t); E = X.E; R = X.R; m = X.m; import containers as C
    K = m.enum("oclgrind::Command::CommandType", "KERNEL"); X.cmd.cls = "oclgrind::KernelCommand"; ty = R.var("type", 32); X.st.assume((ty == K) == z3.BoolVal(kernel)); X.cmd.base[("c", m.field("oclgrind::Command", "type"), 4)] = ty
    MM, EV = Region("memory object", fam=True), Region("event waited for", fam=True); nm, nw = R.var("memory objects"), R.var("events waited for"); X.st.assume(z3.And(z3.ULT(nm, 1 << 30), z3.ULT(nw, 1 << 30))); has = z3.Bool("has memory objects"); E.inputs["has memory objects"] = has
    ML, WL = Region("memory objects of the command"), Region("events of the command"); el = lambda F: (lambda off: (lambda E, inst, o, tag: Ptr(F, 0, z3.LShR(bvv(o, 64), 3)))); SM, SW = C.Seq(E, "memory objects", 8, el(MM)), C.Seq(E, "events", 8, el(EV))
    cm, cw = Cnt(X, "memory objects released", lambda i: Ptr(MM, 0, i), nm), Cnt(X, "events released", lambda i: Ptr(EV, 0, i), nw)
    ev = Region("event of the command"); ev.cls = "_cl_event"; R.ref(ev, "event", Region("core event")); es = Region("event slot"); es.base[("c", 0, 8)] = Ptr(ev); ks = Region("kernel slot"); kn = Region("kernel"); ks.base[("c", 0, 8)] = Ptr(kn)
    want = [("release", "event", Ptr(ev)), ("forget", "event", Ptr(X.cmd))]
    if kernel: core = X.core(X.cmd, "kernel"); want += [("release", "kernel", Ptr(kn)), ("forget", "kernel", Ptr(X.cmd)), ("delete", "core", Ptr(core))]
    def maps(ty, kind, target):
        P = MP % ty
        def find(E, st, a, I): keyed(X, st, a[1]); return Ptr(Region("entry"))
        pre(E, P + r"(find|end)\(", lambda E, st, a, I: (keyed(X, st, a[1]) if len(a) > 1 else None, NULL)[1])
        pre(E, P + r"operator\[\]\(", lambda E, st, a, I: (keyed(X, st, a[1]), Ptr(target))[1])
        def erase(E, st, a, I): keyed(X, st, a[1]); st.log("ev", ("forget", kind, Ptr(X.cmd))); return 1
        pre(E, P + r"erase\(", erase)
    LM, LE = r"std::(__cxx11::)?list<_cl_mem", r"std::(__cxx11::)?list<_cl_event"; maps(LM, "memory", ML); maps(LE, "events", WL); maps("_cl_event", "event", es); maps("_cl_kernel", "kernel", ks)
    pre(E, r"^(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator<std::pair<oclgrind::Command\* const, " + LM, lambda E, st, a, I: has)
    pre(E, r"^(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator<std::pair<oclgrind::Command\* const, " + LM, lambda E, st, a, I: z3.Not(has))
    ML.base[("c", 0, 8)] = 0; L1 = LST % r"_cl_mem\*"; at = lambda st, p: bvv(st.load(E, p, 8), 64)
    def copy(E, st, a, I): E.oblige(st, peq(a[1], Ptr(ML)), "the command's memory objects"); st.store(E, a[0], 8, at(st, a[1])); return 0
    pre(E, L1 + r"list\(std::(__cxx11::)?list<.*const&\)", copy); pre(E, L1 + r"empty\(\) const", lambda E, st, a, I: at(st, a[0]) == nm)
    pre(E, L1 + r"front\(\)", lambda E, st, a, I: (E.oblige(st, z3.ULT(at(st, a[0]), nm), "an element is left"), Ptr(SM.r, at(st, a[0]) * 8))[1]); pre(E, L1 + r"pop_front\(\)", lambda E, st, a, I: (st.store(E, a[0], 8, at(st, a[0]) + 1), 0)[1]); pre(E, r"^std::__cxx11::_List_base<.*>::~_List_base\(\)", lambda E, st, a, I: 0)
    L2 = LST % r"_cl_event\*"; mine = lambda st, p: E.oblige(st, peq(p, Ptr(WL)), "the command's events"); pre(E, L2 + r"c?begin\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(SW.r, 0))[1]); pre(E, L2 + r"c?end\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(SW.r, nw * 8))[1])
    C.seq_iter(E, r"^std::_List_(const_)?iterator<_cl_event\*>", 8); C.iter_cmp(E, r"std::_List_(const_)?iterator<")
    f = Region("callback function"); ncb = R.var("callbacks"); X.st.assume(z3.ULT(ncb, 1 << 30)); SC = C.Seq(E, "callbacks", 16, lambda off: (lambda E, inst, o, tag: Ptr(f) if (E.fieldof(SC.r, o) == 0) else NULL))
    def called(E, st, a, I): E.oblige(st, peq(a[0], Ptr(ev)), "callbacks are about the event"); E.oblige(st, z3.BoolVal(not any(e[:2] == ("release", "event") for e in X.events(st))), "the event is referenced while its callbacks run"); return 0
    f.fnptr = called; L3 = LST % r"std::pair<void \(\*\)\(_cl_event\*.*"; CP = Ptr(ev, m.field("_cl_event", "callbacks"))
    pre(E, L3 + r"c?begin\(\)", lambda E, st, a, I: (E.oblige(st, peq(a[0], CP), "the event's callbacks"), Ptr(SC.r, 0))[1]); pre(E, L3 + r"c?end\(\)", lambda E, st, a, I: Ptr(SC.r, ncb * 16)); C.seq_iter(E, r"^std::_List_(const_)?iterator<std::pair<void \(\*\)\(_cl_event\*.*>", 16)
    def rel(kind, F, c):
        def g(E, st, a, I):
            E.used_contracts.add("clRelease" + NAME[kind]); o = []
            for s, p in E.resolve(st, a[0]):
                if p.r is F: c.step(s, p, "each is released once")
                else: s.log("ev", ("release", kind, p))
                o.append((s, 0))
            return o
        E.models["clRelease" + NAME[kind]] = g
    rel("memory", MM, cm); rel("event", EV, cw)
    for oc in R.run("asyncQueueRelease", [Ptr(X.cmd)]):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception")
        E.oblige(s, z3.And(cm.total(s) == z3.If(has, nm, z3.BitVecVal(0, 64)), cw.total(s) == nw), "every memory object and every event of the command is released")
        evs = X.events(s); fg = [e for e in evs if e[:2] == ("forget", "memory")]
        E.oblige(s, z3.Implies(has, z3.BoolVal(len(fg) == 1)), "the memory objects are forgotten"); E.oblige(s, z3.BoolVal(len([e for e in evs if e[:2] == ("forget", "events")]) == 1), "the events are forgotten")
        s.ghost["ev"] = tuple(e for e in evs if e[:2] not in (("forget", "memory"), ("forget", "events"))); X.expect(s, want, "the kernel and the event of the command are released once")
def async_tasks(): return [Task("release what a command holds" + (" (kernel)" if k else ""), "asyncQueueRelease", lambda t, k=k: t_arelease(t, k)) for k in (True, False)] + [Task("retain memory for a command", "asyncQueueRetain", t_aretain), Task("retain a kernel for a command", "asyncQueueRetain", t_akernel), Task("enqueue a command", "asyncEnqueue", t_aenqueue)]
