"""R03: contracts on the info queries of runtime.cpp: for every parameter, the size reported, the bytes written, the errors."""
import re, z3
from engine import *
from run import Task
from rt import RT, B
from ndrange import pre
import infotab as I
import build
STRT = r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>>::"
N64 = lambda k: z3.BitVecVal(k, 64)
class Strings:
    """std::string objects of arbitrary contents: cell 0 points to the characters, cell 8 is the length; the character after the last is NUL"""
    def __init__(self, R):
        self.R = R; self.E = E = R.E; self.k = 0; self.locals = []
        pre(E, STRT + r"(c_str|data)\(\)", lambda E, st, a, I: self.chars(st, a[0])); pre(E, STRT + r"(size|length)\(\) const", lambda E, st, a, I: self.len(st, a[0])); pre(E, STRT + r"empty\(\) const", lambda E, st, a, I: self.len(st, a[0]) == 0)
        pre(E, STRT + r"basic_string\(\)", lambda E, st, a, I: (self.new(st, a[0], "local string", N64(0)), 0)[1])
        def assign(E, st, a, I):
            s = self.obj(st, a[1]); q, n = st.load(E, s, 8, "ptr"), self.len(st, s); self.obj(st, a[0], True)
            st.store(E, a[0], 8, q); st.store(E, pgep(a[0], 8), 8, n); self.new(st, s, "moved-from string")
            return a[0]
        pre(E, STRT + r"operator=\(", assign)
        def dtor(E, st, a, I):
            try: q = st.load(E, self.obj(st, a[0]), 8, "ptr")
            except Unsupported: return 0
            if isinstance(q, Ptr) and q.r is not None and hasattr(q.r, "origin"): st.log("destroyed", q.r)
            return 0
        pre(E, STRT + r"~basic_string\(\)", dtor)
        def append(E, st, a, I): n = self.var("length"); st.assume(z3.And(z3.UGE(n, self.len(st, a[0])), z3.ULT(n, N64(1 << 40)))); st.store(E, pgep(self.obj(st, a[0]), 8), 8, n); return a[0]
        pre(E, STRT + r"(operator\+=|append|push_back)\(", append)
        def erase(E, st, a, I): E.oblige(st, z3.And(z3.ULE(bvv(a[1], 64), self.len(st, a[0])), bvv(a[2], 64) == N64(M(64))), "erases the end of the string"); st.store(E, pgep(self.obj(st, a[0]), 8), 8, bvv(a[1], 64)); return a[0]
        pre(E, STRT + r"erase\(unsigned long, unsigned long\)", erase)
        def strlen(E, st, a, I):
            q = self.one(st, a[0])
            if not isc(q.off): raise Unsupported("string")
            if hasattr(q.r, "origin"):
                if q.off: raise Unsupported("middle of a string")
                self.alive(st, q.r); return bvv(st.load(E, pgep(Ptr(q.r.obj), 8), 8), 64) if q.r.obj is not None else q.r.length
            if q.r.const is None: raise Unsupported("C string of unknown contents")
            b = bytes(q.r.const)[q.off:]; return b.index(b"\0")
        E.models["strlen"] = strlen
    def one(self, st, p):
        rs = self.E.resolve(st, p)
        if len(rs) != 1 or rs[0][1].r is None: raise Unsupported("string pointer")
        return rs[0][1]
    def obj(self, st, p, fresh=False): return self.one(st, p)
    def var(self, nm): self.k += 1; v = z3.BitVec("%s'%d" % (nm, self.k), 64); self.E.inputs[v.decl().name()] = v; return v
    def new(self, st, p, origin, n=None):
        d = Region("characters of the %s'%d" % (origin, self.k), mode="byte"); self.k += 1; p = self.one(st, p)
        if n is None: n = self.var("length of the " + origin); st.assume(z3.ULT(n, N64(1 << 40)))
        if origin == "local string": self.locals.append(p.r)
        d.origin = origin; d.obj = p.r if isc(p.off) and p.off == 0 else None; d.length = n; st.store(self.E, p, 8, Ptr(d)); st.store(self.E, pgep(p, 8), 8, n); return d
    def const(self, origin):
        """a string object returned by reference"""
        r = Region(origin); st = self.R.st; n = self.var("length of the " + origin); st.assume(z3.ULT(n, N64(1 << 40))); d = Region("characters of the " + origin, mode="byte"); d.origin = origin; d.obj = r; d.length = n; r.base[("c", 0, 8)] = Ptr(d); r.base[("c", 8, 8)] = n; return Ptr(r), n
    def chars(self, st, p):
        q = st.load(self.E, self.obj(st, p), 8, "ptr")
        if not isinstance(q, Ptr) or not hasattr(q.r, "origin"): raise Unsupported("string of unknown contents")
        self.alive(st, q.r); return q
    def len(self, st, p): return bvv(st.load(self.E, pgep(self.obj(st, p), 8), 8), 64)
    def alive(self, st, d): self.E.oblige(st, not any(x is d for x in st.ghost.get("destroyed", ())), "the string is alive")
class Q:
    """one query of one parameter of an arbitrary object"""
    def __init__(self, t, fn, pname, code, variant=None):
        self.R = R = RT(t); self.E = E = R.E; self.m = R.m; self.fn = fn; self.pn = pname; self.code = code; self.variant = variant; self.S = Strings(R); st = R.st
        self.zin = R.var("size of the buffer"); self.ret = Region("size returned"); self.ret.null = z3.Bool("no size wanted"); E.inputs["no size wanted"] = self.ret.null
        self.ret.base[("c", 0, 8)] = z3.BitVec("old size", 64); self.ret.arg = pite(self.ret.null, NULL, Ptr(self.ret)); self.buf = R.data("buffer")
        self.dev = Region("device"); self.plat = Region("platform"); self.size = self.val = self.origin = None; self.errs = []; self.const = False
        for nm, r in (("m_device", self.dev), ("m_platform", self.plat)):
            gs = [n for n in R.m.globals if re.search(r"\d%s(E|$)|^%s$" % (nm, nm), n)]
            if len(gs) == 1: E.gptr(gs[0]).r.base[("c", 0, 8)] = Ptr(r)
    def obj(self, nm, cls): r = self.R.obj(nm, cls); return r
    def bad(self, code, c): self.errs.append((code, c))
    def get(self, r, *path, w=64): return self.R.get(r, *path, w=w)
    def other(self, nm): return Ptr(Region(nm))
    def vec(self, r, field, nm):
        """a std::vector of 64-bit values: (bytes, characters)"""
        o = self.m.field(r.cls, field); D = Region(nm, mode="byte"); n = self.R.var("number of " + nm)
        if self.variant == "empty": D2 = NULL; e = NULL; nb = 0; self.R.st.assume(n == 0)
        else: self.R.st.assume(z3.And(n != 0, z3.ULT(n, N64(1 << 32)))); D2 = Ptr(D); nb = n * 8; e = Ptr(D, nb)
        D.size = nb
        for i, p in enumerate((D2, e, e)): r.base[("c", o + 8 * i, 8)] = p
        return nb, D
    def contract(self, name, val, core, args=()):
        def f(E, st, a, I):
            E.used_contracts.add(name); E.oblige(st, And(peq(a[0], Ptr(core)), *[eq(bvv(x, y.size()), y) for x, y in zip(a[1:], args)]), "asks the object (and the argument) queried"); return val(E, st, a) if callable(val) else val
        self.E.models[name] = f; pre(self.E, "^" + re.escape(name) + r"(\[abi:cxx11\])?\(", f)
    def sret(self, name, core, origin, args=()):
        def f(E, st, a, I):
            E.used_contracts.add(name); E.oblige(st, And(peq(a[1], Ptr(core)), *[eq(bvv(x, y.size()), y) for x, y in zip(a[2:], args)]), "asks the object queried"); self.S.new(st, a[0], origin); return 0
        pre(self.E, "^" + re.escape(name) + r"(\[abi:cxx11\])?\(", f)
    def string(self, name, core, origin):
        p, n = self.S.const(origin); self.contract(name, p, core); return n
    # ---- running and checking
    def go(self, lead, unknown=None):
        E, R = self.E, self.R; kind = I.T[self.fn].get(self.pn) if self.pn else None
        outs = R.t.reached(E.exec_fn(self.m.fn(self.fn), lead + [self.code, self.zin, self.buf.arg, self.ret.arg], R.st))
        if self.const:
            zs = {0} if kind == I.ARR else set()
            for oc in outs:
                for x in self.nodes(oc.st):
                    if x.k != "Cp" or x.x[0].const is None or not isc(x.x[3]): raise Unsupported("write to the buffer")
                    b = bytes(x.x[0].const)[x.x[3]:]; zs.add(b.index(b"\0") + 1 if kind == I.STR else len(b))
            self.size = N64(max(zs))
        for r in outs: self.check(r, kind)
    def nodes(self, st):
        n = st.mem.get(self.buf); out = []
        while n is not None: out.append(n); n = n.prev
        return out
    def check(self, oc, kind):
        E = self.E; s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); v = bvv(oc.val, 32); ns = self.nodes(s); errs = [(z3.BitVecVal(k & 0xFFFFFFFF, 32), b2z(c)) for k, c in self.errs]; fine = z3.Not(z3.Or(*[c for _, c in errs])) if errs else z3.BoolVal(True)
        size = None if kind is None else self.sizeof(s, kind); now = bvv(s.load(E, Ptr(self.ret), 8), 64)
        toosmall = z3.And(z3.Not(self.buf.null), z3.ULT(self.zin, size)) if size is not None else z3.BoolVal(True)
        E.oblige(s, z3.Implies(fine, (v == 0) == z3.Not(toosmall)), "succeeds exactly if the parameter is known and the buffer, if any, is large enough")
        E.oblige(s, z3.Implies(z3.Not(fine), v != 0), "queries on invalid objects fail")
        E.oblige(s, z3.Or(v == 0, z3.And(v == z3.BitVecVal(-30 & 0xFFFFFFFF, 32), toosmall), *[z3.And(v == k, c) for k, c in errs]), "the error says why")
        E.oblige(s, z3.Implies(v != 0, z3.BoolVal(not ns)), "a query that fails does not write to the buffer")
        if size is None: return
        E.oblige(s, z3.Implies(z3.And(v == 0, z3.Not(self.ret.null)), now == size), "the size reported is the size of the value")
        s0 = s.fork(); s0.assume(v == 0)
        E.oblige(s0, z3.Implies(self.buf.null, z3.BoolVal(not ns)), "no value is written without a buffer")
        s1 = s0.fork(); s1.assume(z3.Not(self.buf.null))
        if not E.sat(s1.pc): return
        for x in ns:
            if x.k == "Fn" or x.n is None: raise Unsupported("write to the buffer")
            E.oblige(s1, z3.And(z3.ULE(bvv(x.off, 64), size), z3.ULE(bvv(x.n, 64), size - bvv(x.off, 64))), "only the bytes of the value are written")
        self.value(s1, kind, size, ns)
    def sizeof(self, s, kind):
        if isinstance(kind, int): return N64(kind)
        if self.size is not None: return bvv(self.size(s) if callable(self.size) else self.size, 64)
        raise Unsupported("size")
    def value(self, s, kind, size, ns):
        E = self.E
        if isinstance(self.val, str): return
        if isinstance(kind, int):
            want = self.val if isinstance(self.val, list) else [self.val]
            if kind == 24 and len(want) == 1: want = want * 3
            w = kind // len(want)
            for i, x in enumerate(want):
                if isinstance(x, (Ptr, PIte)): E.oblige(s, peq(s.load(E, Ptr(self.buf, i * w), 8, "ptr"), x), "the value is the object's"); continue
                got = s.load(E, Ptr(self.buf, i * w), w)
                if isinstance(got, PI) or isinstance(got, (Ptr, PIte)): E.oblige(s, False, "the value is the object's"); continue
                if x is None: E.oblige(s, self.defined(got), "every byte of the value is defined")
                else: E.oblige(s, eq(bvv(got, 8 * w), bvv(x, 8 * w)), "the value is the object's")
            return
        # strings and arrays: one copy of the whole value
        if len(ns) == 0: E.oblige(s, size == 0, "the whole value is written"); return
        c = ns[0]
        if c.k != "Cp" or len(ns) != 1: raise Unsupported("write to the buffer")
        src, snode, sinst, soff = c.x
        E.oblige(s, And(eq(bvv(c.off, 64), 0), bvv(c.n, 64) == size), "the whole value is written")
        if self.origin is not None:
            E.oblige(s, z3.Or(z3.BoolVal(src is self.origin or getattr(src, "origin", None) == self.origin), size == 0), "the value is the object's")
        if hasattr(src, "origin") or src is self.origin: E.oblige(s, eq(bvv(soff, 64), 0), "the value is written from its start")
        elif src.const is not None and isc(soff) and isc(c.n):
            b = bytes(src.const)[soff:soff + c.n]; E.oblige(s, len(b) == c.n, "every byte of the value is defined")
            if kind == I.STR: E.oblige(s, len(b) > 0 and b[-1] == 0 and 0 not in b[:-1], "a string ends with its only NUL")
        else: E.oblige(s, size == 0, "the value is the object's")
    def defined(self, v):
        if isc(v): return True
        todo, seen = [v], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in self.E.inputs: return False
            todo += x.children()
        return True
# ---- the objects
def q_platform(q):
    if I.T[q.fn].get(q.pn) in (I.STR, I.ARR): constsize(q)
    q.go([Ptr(q.plat)])
def constsize(q):
    """strings and arrays of the implementation's own: the size of the constant that is copied"""
    q.const = True
def q_device(q):
    E = q.E; bad = q.R.var("other device", 64); q.isbad = z3.Bool("another device"); E.inputs["another device"] = q.isbad; d = q.dev; d.cls = "_cl_device_id"; d.f = {}; d.name = "device"; q.bad(-33, q.isbad)
    P = "CL_DEVICE_"; g = lambda f: q.R.get(d, f)
    env = z3.BitVec("compute units configured", 32); E.inputs["compute units configured"] = env; E.models["oclgrind::getEnvInt"] = lambda E, st, a, I: env
    q.val = {P + "MAX_WORK_GROUP_SIZE": lambda: g("maxWGSize"), P + "MAX_WORK_ITEM_SIZES": lambda: g("maxWGSize"), P + "GLOBAL_MEM_SIZE": lambda: g("globalMemSize"), P + "MAX_MEM_ALLOC_SIZE": lambda: g("globalMemSize"), P + "LOCAL_MEM_SIZE": lambda: g("localMemSize"), P + "MAX_CONSTANT_BUFFER_SIZE": lambda: g("constantMemSize"), P + "PLATFORM": lambda: Ptr(q.plat), P + "ADDRESS_BITS": lambda: 64, P + "ENDIAN_LITTLE": lambda: 1, P + "MAX_WORK_ITEM_DIMENSIONS": lambda: 3, P + "AVAILABLE": lambda: 1, P + "REFERENCE_COUNT": lambda: 1, P + "PARENT_DEVICE": lambda: NULL}.get(q.pn, lambda: None)()
    for f in ("maxWGSize", "globalMemSize", "localMemSize", "constantMemSize"): g(f)
    if I.T[q.fn].get(q.pn) in (I.STR, I.ARR): constsize(q)
    q.go([pite(q.isbad, q.other("another device"), Ptr(d))])
def q_context(q):
    c = q.obj("context", "_cl_context"); q.bad(-34, c.null); n = q.get(c, "szProperties"); D = Region("properties", mode="byte"); D.size = n; st = q.R.st
    if q.variant == "empty": st.assume(n == 0); q.R.ref(c, "properties", NULL)
    else: st.assume(z3.And(n != 0, z3.ULT(n, N64(1 << 32)))); q.R.ref(c, "properties", D)
    q.val = {"CL_CONTEXT_REFERENCE_COUNT": lambda: q.get(c, "refCount", w=32), "CL_CONTEXT_NUM_DEVICES": lambda: 1, "CL_CONTEXT_DEVICES": lambda: Ptr(q.dev)}.get(q.pn, lambda: None)(); q.size = n; q.origin = D; q.go([c.arg])
def ctx(q, r): c = Region("context"); q.R.ref(r, "context", c); return c
def q_queue(q):
    r = q.obj("queue", "_cl_command_queue"); q.bad(-36, r.null); c = ctx(q, r); P = "CL_QUEUE_"; q.size, q.origin = q.vec(r, "properties_array", "properties")
    if q.pn == "CL_QUEUE_SIZE": q.bad(-36, True)
    q.val = {P + "CONTEXT": lambda: Ptr(c), P + "DEVICE": lambda: Ptr(q.dev), P + "REFERENCE_COUNT": lambda: q.get(r, "refCount", w=32), P + "PROPERTIES": lambda: q.get(r, "properties"), P + "DEVICE_DEFAULT": lambda: NULL}.get(q.pn, lambda: None)(); q.go([r.arg])
def q_mem(q):
    r = q.obj("memory object", "cl_image"); q.bad(-38, r.null); c = ctx(q, r); P = "CL_MEM_"; q.size, q.origin = q.vec(r, "properties", "properties"); im = q.get(r, "isImage", w=8); q.R.st.assume(z3.ULE(im, 1))
    par = Region("parent"); ass = Region("associated"); host = Region("host memory"); q.R.ref(r, "parent", par); q.R.ref(r, "hostPtr", host); r.base[("c", q.m.field("cl_image", "desc") + q.m.field("_cl_image_desc", "num_samples") + 4, 8)] = Ptr(ass)
    q.val = {P + "TYPE": lambda: z3.If(im != 0, q.get(r, "desc", "image_type", w=32), z3.BitVecVal(0x10F0, 32)), P + "FLAGS": lambda: q.get(r, "flags"), P + "SIZE": lambda: q.get(r, "size"), P + "HOST_PTR": lambda: Ptr(host), P + "MAP_COUNT": lambda: None, P + "REFERENCE_COUNT": lambda: q.get(r, "refCount", w=32), P + "CONTEXT": lambda: Ptr(c), P + "ASSOCIATED_MEMOBJECT": lambda: pite(im != 0, Ptr(ass), Ptr(par)), P + "OFFSET": lambda: q.get(r, "offset"), P + "USES_SVM_POINTER": lambda: 0}.get(q.pn, lambda: None)()
    q.get(r, "desc", "image_type", w=32); q.go([r.arg])
def q_image(q):
    r = q.obj("image", "cl_image"); q.bad(-38, r.null); ctx(q, r); P = "CL_IMAGE_"; D = lambda f, w=64: q.get(r, "desc", f, w=w); buf = Region("buffer of the image"); r.base[("c", q.m.field("cl_image", "desc") + q.m.field("_cl_image_desc", "num_samples") + 4, 8)] = Ptr(buf)
    ty = D("image_type", 32); ps = z3.BitVec("pixel size", 64); q.E.inputs["pixel size"] = ps; fm = Ptr(r, q.m.field("cl_image", "format")); fmt = q.get(r, "format")
    def px(E, st, a, I): E.used_contracts.add("getPixelSize"); E.oblige(st, peq(a[0], fm), "the format of the image"); return ps
    pre(q.E, r"^(oclgrind::|\(anonymous namespace\)::)?getPixelSize\(", px)
    two = z3.Or(*[ty == k for k in (0x10F1, 0x10F2, 0x10F3)]); three = ty == 0x10F2; arr = z3.Or(ty == 0x10F3, ty == 0x10F5); z = z3.BitVecVal(0, 64)
    q.R.st.assume(z3.And(z3.UGE(ty, 0x10F1), z3.ULE(ty, 0x10F6)))
    q.val = {P + "FORMAT": lambda: fmt, P + "ELEMENT_SIZE": lambda: ps, P + "ROW_PITCH": lambda: D("image_row_pitch"), P + "SLICE_PITCH": lambda: D("image_slice_pitch"), P + "WIDTH": lambda: D("image_width"), P + "HEIGHT": lambda: z3.If(two, D("image_height"), z), P + "DEPTH": lambda: z3.If(three, D("image_depth"), z), P + "ARRAY_SIZE": lambda: z3.If(arr, D("image_array_size"), z), P + "BUFFER": lambda: Ptr(buf), P + "NUM_MIP_LEVELS": lambda: 0, P + "NUM_SAMPLES": lambda: 0}.get(q.pn, lambda: None)()
    q.go([r.arg])
def q_sampler(q):
    r = q.obj("sampler", "_cl_sampler"); q.bad(-41, r.null); c = ctx(q, r); P = "CL_SAMPLER_"; q.size, q.origin = q.vec(r, "properties", "properties"); g = lambda f: (lambda: q.get(r, f, w=32))
    q.val = {P + "REFERENCE_COUNT": g("refCount"), P + "CONTEXT": lambda: Ptr(c), P + "NORMALIZED_COORDS": g("normCoords"), P + "ADDRESSING_MODE": g("addressMode"), P + "FILTER_MODE": g("filterMode")}.get(q.pn, lambda: None)(); q.go([r.arg])
PG = "oclgrind::Program::"
def q_program(q):
    E = q.E; r = q.obj("program", "_cl_program"); q.bad(-44, r.null); c = ctx(q, r); core = Region("core program"); q.R.ref(r, "program", core); P = "CL_PROGRAM_"; v = lambda nm, w: q.R.var(nm, w)
    bs, nk, bz = v("build status", 32), v("number of kernels", 32), v("size of the binary", 64); q.contract(PG + "getBuildStatus", bs, core); q.contract(PG + "getNumKernels", nk, core); q.contract(PG + "getBinarySize", bz, core); n = q.string(PG + "getSource", core, "source")
    LS = r"^std::(__cxx11::)?list<std::(__cxx11::)?basic_string<char.*>>::"; nm, _ = q.S.const("name of a kernel")
    pre(E, "^" + re.escape(PG) + r"getKernelNames(\[abi:cxx11\])?\(", lambda E, st, a, I: E.oblige(st, peq(a[1], Ptr(core)), "asks the program queried") or 0)
    for f in (r"begin\(\)", r"end\(\)"): pre(E, LS + f, lambda E, st, a, I: 0)
    pre(E, r"^std::__cxx11::_List_base<.*>::~_List_base\(\)", lambda E, st, a, I: 0); pre(E, LS + r"~list\(\)", lambda E, st, a, I: 0)
    IT = r"std::_List_iterator<std::(__cxx11::)?basic_string<char.*>>"; E.rmodels.insert(0, (re.compile(r"^(std::operator!=\(" + IT + "|" + IT + r"::operator!=)"), lambda E, st, a, I: z3.FreshConst(z3.BoolSort(), "more names")))
    pre(E, "^" + IT + r"::operator\+\+\(", lambda E, st, a, I: 0); pre(E, "^" + IT + r"::operator\*\(\)", lambda E, st, a, I: nm); E.cut_at = 0
    if q.pn in (P + "NUM_KERNELS", P + "KERNEL_NAMES"): q.bad(-45, z3.And(z3.Not(r.null), bs != 0))
    q.val = {P + "REFERENCE_COUNT": lambda: q.get(r, "refCount", w=32), P + "CONTEXT": lambda: Ptr(c), P + "NUM_DEVICES": lambda: 1, P + "DEVICES": lambda: Ptr(q.dev), P + "BINARY_SIZES": lambda: bz, P + "NUM_KERNELS": lambda: z3.ZeroExt(32, nk), P + "SCOPE_GLOBAL_CTORS_PRESENT": lambda: 0, P + "SCOPE_GLOBAL_DTORS_PRESENT": lambda: 0}.get(q.pn, lambda: None)()
    if q.pn == P + "SOURCE": q.size = n + 1; q.origin = "source"
    if q.pn == P + "IL": q.size = N64(0)
    if q.pn == P + "KERNEL_NAMES":
        q.origin = "local string"
        def size(s):
            if len(q.S.locals) != 1: raise Unsupported("the string of names")
            return bvv(s.load(E, Ptr(q.S.locals[0], 8), 8), 64) + 1
        q.size = size
    if q.pn == P + "BINARIES":
        b = Region("memory for the binary"); b.null = z3.Bool("no binary wanted"); E.inputs["no binary wanted"] = b.null; q.buf.mode = "cell"; q.buf.base[("c", 0, 8)] = pite(b.null, NULL, Ptr(b)); q.val = "skip"
        def getbin(E, st, a, I): E.oblige(st, And(peq(a[0], Ptr(core)), peq(a[1], Ptr(b))), "the binary of this program is stored where the caller wants it"); E.oblige(st, z3.UGE(q.zin, 8), "the pointer read lies in the buffer"); st.log("stored", 1); return 0
        E.models[PG + "getBinary"] = getbin; old = q.check
        def check(oc, kind):
            old(oc, kind); s = oc.st; k = len(s.ghost.get("stored", ())); want = z3.And(bvv(oc.val, 32) == 0, z3.Not(q.buf.null), z3.Not(b.null)); E.oblige(s, z3.If(want, z3.BoolVal(k == 1), z3.BoolVal(k == 0)), "the binary is stored exactly if it is wanted")
        q.check = check
    q.go([r.arg])
def q_build(q):
    r = q.obj("program", "_cl_program"); q.bad(-44, r.null); ctx(q, r); core = Region("core program"); q.R.ref(r, "program", core); P = "CL_PROGRAM_"; v = lambda nm, w: q.R.var(nm, w)
    bs, bt, tz = v("build status", 32), v("binary type", 32), v("size of the variables", 64); q.contract(PG + "getBuildStatus", bs, core); q.contract(PG + "getBinaryType", bt, core); q.contract(PG + "getTotalProgramScopeVarSize", tz, core); no = q.string(PG + "getBuildOptions", core, "build options"); nl = q.string(PG + "getBuildLog", core, "build log")
    q.val = {P + "BUILD_STATUS": bs, P + "BINARY_TYPE": bt, P + "BUILD_GLOBAL_VARIABLE_TOTAL_SIZE": tz}.get(q.pn)
    if q.pn == P + "BUILD_OPTIONS": q.size, q.origin = no + 1, "build options"
    if q.pn == P + "BUILD_LOG": q.size, q.origin = nl + 1, "build log"
    q.go([r.arg, Ptr(q.dev)])
KN = "oclgrind::Kernel::"
def kern(q):
    r = q.obj("kernel", "_cl_kernel"); q.bad(-48, r.null); q.core = core = Region("core kernel"); q.R.ref(r, "kernel", core); q.prog = Region("program"); q.prog.cls = "_cl_program"; q.R.ref(r, "program", q.prog); q.ctx = Region("context"); q.prog.base[("c", q.m.field("_cl_program", "context"), 8)] = Ptr(q.ctx); q.na = q.R.var("number of arguments", 32); q.contract(KN + "getNumArguments", q.na, core); return r
def q_kernel(q):
    r = kern(q); P = "CL_KERNEL_"; n = q.string(KN + "getName", q.core, "name"); q.sret(KN + "getAttributes", q.core, "attributes")
    q.val = {P + "NUM_ARGS": lambda: q.na, P + "REFERENCE_COUNT": lambda: q.get(r, "refCount", w=32), P + "CONTEXT": lambda: Ptr(q.ctx), P + "PROGRAM": lambda: Ptr(q.prog)}.get(q.pn, lambda: None)()
    if q.pn == P + "FUNCTION_NAME": q.size, q.origin = n + 1, "name"
    if q.pn == P + "ATTRIBUTES": q.size, q.origin = alen(q), "attributes"
    q.go([r.arg])
def alen(q):
    """the length of a string made during the query: every such string with this origin has the same contents"""
    n = q.S.var("length of the text"); q.R.st.assume(z3.ULT(n, N64(1 << 40))); new = q.S.new
    q.S.new = lambda st, p, origin, k=None: new(st, p, origin, n if origin in ("attributes", "text of the argument") else k); return n + 1
def q_arg(q):
    r = kern(q); P = "CL_KERNEL_ARG_"; i = q.R.var("argument index", 32); q.bad(-49, z3.And(z3.Not(r.null), z3.UGE(i, q.na))); E = q.E; text = Region("text")
    q.val = None
    for nm, f, w in (("ADDRESS_QUALIFIER", "getArgumentAddressQualifier", 32), ("ACCESS_QUALIFIER", "getArgumentAccessQualifier", 32), ("TYPE_QUALIFIER", "getArgumentTypeQualifier", 64)):
        x = q.R.var(nm.lower(), 32); q.contract(KN + f, x, q.core, [i])
        if q.pn == P + nm: q.val = x if w == 32 else z3.ZeroExt(32, x)
    want = {"TYPE_NAME": "getArgumentTypeName", "NAME": "getArgumentName"}.get(q.pn[len(P):] if q.pn else "")
    for f in ("getArgumentTypeName", "getArgumentName"):
        def get(E, st, a, I, f=f): E.oblige(st, And(peq(a[0], Ptr(q.core)), eq(bvv(a[1], 32), i)), "asks the argument queried"); E.oblige(st, f == want, "the text asked for"); return (Ptr(text), z3.BitVec("length of the text", 64))
        E.models[KN + f] = get
    pre(E, r"^llvm::StringRef::str(\[abi:cxx11\])?\(\) const", lambda E, st, a, I: (q.S.new(st, a[0], "text of the argument"), 0)[1])
    if want: q.size, q.origin = alen(q), "text of the argument"
    q.go([r.arg, i])
def q_wg(q):
    r = kern(q); E = q.E; P = "CL_KERNEL_"; other = z3.Bool("another device"); E.inputs["another device"] = other; q.bad(-33, z3.And(z3.Not(r.null), other)); d = q.dev; d.cls = "_cl_device_id"; d.f = {}; mx = q.R.get(d, "maxWGSize"); loc = q.R.var("local memory size"); q.contract(KN + "getLocalMemorySize", loc, q.core); rq = [q.R.var("required size[%d]" % i) for i in range(3)]
    def req(E, st, a):
        for i in range(3): st.store(E, pgep(q.S.one(st, a[1]), 8 * i), 8, rq[i])
        return 0
    q.contract(KN + "getRequiredWorkGroupSize", req, q.core)
    q.val = {P + "WORK_GROUP_SIZE": mx, P + "COMPILE_WORK_GROUP_SIZE": rq, P + "LOCAL_MEM_SIZE": loc, P + "PREFERRED_WORK_GROUP_SIZE_MULTIPLE": None, P + "PRIVATE_MEM_SIZE": None}.get(q.pn)
    null = z3.Bool("no device"); E.inputs["no device"] = null; q.go([r.arg, pite(other, pite(null, NULL, q.other("another device")), Ptr(d))])
def q_event(q):
    r = q.obj("event", "_cl_event"); q.bad(-58, r.null); c = ctx(q, r); P = "CL_EVENT_"; qu = Region("queue"); nq = z3.Bool("user event"); q.E.inputs["user event"] = nq; q.R.ref(r, "queue", pite(nq, NULL, Ptr(qu))); core = Region("core event"); core.cls = "oclgrind::Event"; core.f = {}; q.R.ref(r, "event", core)
    q.val = {P + "COMMAND_QUEUE": lambda: pite(nq, NULL, Ptr(qu)), P + "CONTEXT": lambda: Ptr(c), P + "COMMAND_TYPE": lambda: q.get(r, "type", w=32), P + "COMMAND_EXECUTION_STATUS": lambda: q.R.get(core, "state", w=32), P + "REFERENCE_COUNT": lambda: q.get(r, "refCount", w=32)}.get(q.pn, lambda: None)()
    T = {"CL_PROFILING_COMMAND_QUEUED": "queueTime", "CL_PROFILING_COMMAND_START": "startTime", "CL_PROFILING_COMMAND_END": "endTime", "CL_PROFILING_COMMAND_SUBMIT": "startTime"}
    for f in ("queueTime", "startTime", "endTime"):
        if q.fn == "clGetEventProfilingInfo": d = q.R.get(core, f); x = q.E.fptoi(d, 64, 64, False); q.R.st.assume(z3.And(z3.Not(z3.fpIsNegative(z3.fpBVToFP(d, z3.Float64()))), z3.fpLT(z3.fpBVToFP(d, z3.Float64()), z3.FPVal(2.0 ** 63, z3.Float64()))))
        if T.get(q.pn) == f: q.val = x
    if q.fn == "clGetEventProfilingInfo": q.bad(-7, z3.And(z3.Not(r.null), nq))
    q.go([r.arg])
FN = dict(clGetPlatformInfo=q_platform, clGetDeviceInfo=q_device, clGetContextInfo=q_context, clGetCommandQueueInfo=q_queue, clGetMemObjectInfo=q_mem, clGetImageInfo=q_image, clGetSamplerInfo=q_sampler, clGetProgramInfo=q_program, clGetProgramBuildInfo=q_build, clGetKernelInfo=q_kernel, clGetKernelArgInfo=q_arg, clGetKernelWorkGroupInfo=q_wg, clGetEventInfo=q_event, clGetEventProfilingInfo=q_event)
def t_query(t, fn, pn, code, variant=None): FN[fn](Q(t, fn, pn, code, variant))
def t_unknown(t, fn, known):
    """a parameter that is not one of the known ones"""
    c = z3.BitVec("parameter", 32); q = Q(t, fn, None, c); q.E.inputs["parameter"] = c
    for k in known: q.R.st.assume(c != k & 0xFFFFFFFF)
    q.bad(-30, True); FN[fn](q)
def tasks_R03(mod):
    C = I.codes(build.REPO); out = []
    for fn, tab in I.T.items():
        for pn, kind in tab.items():
            for v in (("given", "empty") if kind == I.ARR and fn not in ("clGetPlatformInfo", "clGetDeviceInfo", "clGetProgramInfo") else (None,)):
                out.append(Task("%s of %s%s" % (pn, fn, " (empty)" if v == "empty" else ""), fn, lambda t, fn=fn, pn=pn, v=v: t_query(t, fn, pn, C[pn], v)))
        for (f, pn), e in I.REFUSED.items():
            if f == fn: out.append(Task("%s of %s (refused)" % (pn, fn), fn, lambda t, fn=fn, pn=pn: t_refused(t, fn, pn, C[pn])))
        out.append(Task("unknown parameters of " + fn, fn, lambda t, fn=fn, tab=tab: t_unknown(t, fn, [C[p] for p in tab] + [C[p] for f, p in I.REFUSED if f == fn])))
    return out
def t_refused(t, fn, pn, code):
    q = Q(t, fn, None, code); q.pn = None if fn != "clGetCommandQueueInfo" else pn
    if fn != "clGetCommandQueueInfo": q.bad(-30, True)
    FN[fn](q)
