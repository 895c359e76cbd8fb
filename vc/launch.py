"""R04: contracts on setting kernel arguments and on accepting a launch (runtime.cpp, Kernel.cpp)."""
import re, z3
from engine import *
from run import Task
from rt import RT, OK, QUEUE, VALUE, B
from ndrange import pre
from memcheck import one
import containers as C
KERNEL, ARG_INDEX, ARG_VALUE, ARG_SIZE, WORK_DIM, WG_SIZE, WI_SIZE, KARGS, RESOURCES, SAMPLER = -48, -49, -50, -51, -53, -54, -55, -52, -5, -41
AG, AL, AC, AP = 0x119B, 0x119C, 0x119D, 0x119E
K = "oclgrind::Kernel::"
MEMS = r"^std::map<unsigned int, _cl_mem\*, .*>::"
def neg(c): return z3.BitVecVal(c & 0xFFFFFFFF, 32)
def kernel(R):
    """the kernel object: core kernel, program, context"""
    k = R.obj("kernel", "_cl_kernel"); R.core = Region("core kernel"); pr = Region("program"); R.pctx = Region("context of the program"); R.ref(k, "kernel", R.core); R.ref(k, "program", pr); pr.base[("c", R.m.field("_cl_program", "context"), 8)] = Ptr(R.pctx)
    return k
def cond(x): return x if isinstance(x, bool) or z3.is_bool(x) else bvv(x, 8) != 0
def device(R, **kw):
    """limits of the device, found through a global"""
    d = Region("device"); nm = [n for n in R.m.globals if re.search(r"\bm_device\b|\d+m_device(E|$)", n)]
    if len(nm) != 1: raise Unsupported("the device")
    for f, v in kw.items(): d.base[("c", R.m.field("_cl_device_id", f), 8)] = v
    R.E.gptr(nm[0]).r.base[("c", 0, 8)] = Ptr(d)
class Sum:
    """prefix sums of the sizes of the elements of a map that are counted"""
    def __init__(self, R, nm, counted, size, n):
        self.P = z3.Function("sum of the first " + nm, B(64), B(64)); R.st.assume(self.P(z3.BitVecVal(0, 64)) == 0); self.counted, self.size = counted, size; self.n = n
    def unfold(self, st, k): st.assume(self.P(k + 1) == self.P(k) + z3.If(self.counted(k), self.size(k), z3.BitVecVal(0, 64)))
    def hint(self, stride):
        sh = stride.bit_length() - 1
        def h(E, d):
            pos = [k for k, (x, w) in d["vars"].items() if w == 64 and k[0] in ("po", "mo")]; out = []
            for p in pos:
                out.append(("position", lambda s, v, p=p: z3.And(bvv(v[p], 64) & (stride - 1) == 0, z3.ULE(bvv(v[p], 64), self.n * stride))))
                for k, (x, w) in d["vars"].items():
                    if w == 64 and k[0] in ("p", "m"): out.append(("sum so far", lambda s, v, p=p, k=k: bvv(v[k], 64) == self.P(z3.LShR(bvv(v[p], 64), sh))))
            return out
        return h
def t_launch(t, wd, lg=True, gg=True, rg=None):
    R = RT(t); R.E.opaque_div = True; R.E.coarse_sat = True; E = R.E; m = R.m; st = R.st; q = R.queue(); k = kernel(R); go, gs, ls = R.triple("offset"), R.triple("global size"), R.triple("local size"); ev = R.events()
    WD = z3.BitVecVal(wd, 32) if wd else R.var("work_dim", 32)
    if not wd: st.assume(z3.Or(WD == 0, z3.UGT(WD, 3)))
    if wd: st.assume(ls.null != lg); st.assume(gs.null != gg)
    if not lg: ls.arg = NULL
    if not gg: gs.arg = NULL
    for x in ls.v: st.assume(z3.Implies(z3.BoolVal(True), opdiv("urem", z3.BitVecVal(0, 64), x) == 0))
    uni = z3.Bool("uniform work-groups"); E.inputs["uniform work-groups"] = uni; rq = [R.var("required size[%d]" % i) for i in range(3)]; alls = z3.Bool("all arguments set"); E.inputs["all arguments set"] = alls; loc = R.var("local memory used")
    mx, lm, cm = R.var("device work-group limit"), R.var("device local memory"), R.var("device constant memory"); st.assume(z3.And(mx != 0, z3.ULE(mx, 1 << 21)))
    if rg is not None: [st.assume((x != 0) == z3.BoolVal(rg)) for x in rq]
    device(R, maxWGSize=mx, localMemSize=lm, constantMemSize=cm)
    def contract(nm, val):
        def f(E, st, a, I): E.used_contracts.add(nm); E.oblige(st, peq(a[0], Ptr(R.core)), "the kernel launched"); return val(E, st, a) if callable(val) else val
        E.models[nm] = f
    contract(K + "requiresUniformWorkGroups", uni); contract(K + "allArgumentsSet", alls); contract(K + "getLocalMemorySize", loc)
    def req(E, st, a):
        p = one(E, st, a[1])
        for i in range(3): st.store(E, pgep(p, 8 * i), 8, rq[i])
        return 0
    contract(K + "getRequiredWorkGroupSize", req)
    E.try_unroll = 3
    # the memory arguments
    n = R.var("memory arguments"); st.assume(z3.ULE(n, 1 << 30)); key = z3.Function("index of memory argument", B(64), B(32)); qual = z3.Function("address qualifier", B(32), B(32)); size = z3.Function("size of memory argument", B(64), B(64))
    MS = Region("memory objects", fam=True); so = m.field("_cl_mem", "size"); MS.schemafn = lambda off: (lambda E, inst, off, tag: size(bvv(inst, 64))) if isc(off) and off == so else None
    def elem(off):
        def h(E, inst, o, tag):
            fo = E.fieldof(sq.r, o); kk = z3.LShR(sub(bvv(o, 64), fo, 64), 4)
            return key(kk) if fo == 0 else Ptr(MS, 0, kk)
        return h
    sq = C.Seq(E, "memory arguments", 16, elem); members = Ptr(k, m.field("_cl_kernel", "memArgs")); S = Sum(R, "memory arguments", lambda i: qual(key(i)) == AC, size, n)
    mine = lambda st, p: E.oblige(st, peq(p, members), "the kernel's memory arguments")
    pre(E, MEMS + r"c?begin\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(sq.r, 0))[1]); pre(E, MEMS + r"c?end\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(sq.r, mul(n, 16, 64)))[1])
    IT = r"^std::_Rb_tree_(const_)?iterator<std::pair<unsigned int const, _cl_mem\*>.*>"; C.seq_iter(E, IT, 16); C.iter_cmp(E, r"std::_Rb_tree_(const_)?iterator<std::pair<unsigned int const")
    def deref(E, st, a, I):
        p = C.it(E, st, a[0]); i = z3.LShR(bvv(p.off, 64), 4); E.oblige(st, z3.ULT(i, n), "only existing arguments"); S.unfold(st, i); return p
    pre(E, IT + r"::operator(\*|->)\(\) const", deref); E.hints.append(S.hint(16))
    contract(K + "getArgumentAddressQualifier", lambda E, st, a: qual(bvv(a[1], 32)))
    def copy(E, st, a, I): E.used_contracts.add(K + "Kernel"); E.oblige(st, peq(a[1], Ptr(R.core)), "the kernel is copied with its arguments"); st.log("copied", a[0]); return 0
    E.models[K + "Kernel"] = copy
    X = range(wd); one_ = z3.BitVecVal(1, 64); zero = z3.BitVecVal(0, 64); given = z3.Not(ls.null); L = ls.v; prod = one_
    for i in X: prod = prod * L[i]
    R.err(QUEUE, q.null); R.err(KERNEL, k.null); R.err(WORK_DIM, not wd)
    R.err(WG_SIZE, z3.And(given, z3.Or(*[L[i] == 0 for i in X], *[z3.And(uni, z3.Not(gs.null), L[i] != 0, opdiv("urem", gs.v[i], L[i]) != 0) for i in X], *[z3.And(rq[i] != 0, L[i] != rq[i]) for i in X], z3.UGT(prod, mx), *[z3.UGT(L[i], mx) for i in X])))
    R.err(WI_SIZE, z3.And(given, z3.Or(*[z3.Or(L[i] == 0, z3.UGT(L[i], mx)) for i in X]))); R.err(KARGS, z3.Not(alls)); R.err(RESOURCES, z3.Or(z3.UGT(loc, lm), z3.UGT(S.P(n), cm)))
    pick = lambda v, nul, d: [z3.If(nul, d, v[i]) if i < wd else d for i in range(3)]
    G = [z3.If(gs.null, zero, gs.v[i]) if i < wd else one_ for i in range(3)]; O = pick(go.v, go.null, zero); Lx = pick(L, ls.null, one_)
    def then(s):
        cp = s.ghost.get("copied", ()); F = [("work_dim", 0, WD)] + [("globalSize", i, G[i]) for i in range(3)] + [("globalOffset", i, O[i]) for i in range(3)] + [("localSize", i, Lx[i]) for i in range(3)]
        E.oblige(s, len(cp) == 1, "one copy of the kernel is launched"); R.command(s, "KERNEL", "KernelCommand", 0x11F0, F + ([("kernel", 0, cp[0])] if cp else []), [k], None)
    R.ret_api("clEnqueueNDRangeKernel", [q.arg, k.arg, WD, go.arg, gs.arg, ls.arg] + ev, then)
def t_task(t):
    R = RT(t); E = R.E; q = R.queue(); k = kernel(R); nev, wl, evo = R.var("events in wait list", 32), R.data("wait list"), R.data("event out"); res = R.var("launch result", 32)
    def launch(E, st, a, I):
        E.used_contracts.add("clEnqueueNDRangeKernel"); E.oblige(st, And(peq(a[0], q.arg), peq(a[1], k.arg), eq(bvv(a[2], 32), 1), peq(a[3], NULL), eq(bvv(a[6], 32), nev), peq(a[7], wl.arg), peq(a[8], evo.arg)), "a one-dimensional launch on the same queue, with the same events")
        for x in a[4:6]: E.oblige(st, eq(bvv(st.load(E, one(E, st, x), 8), 64), 1), "of one work-item")
        st.log("launch", 1); return res
    E.models["clEnqueueNDRangeKernel"] = launch
    for oc in R.run("clEnqueueTask", [q.arg, k.arg, nev, wl.arg, evo.arg]): E.oblige(oc.st, And(eq(bvv(oc.val, 32), res), len(oc.st.ghost.get("launch", ())) == 1), "launched once, with its result")
def t_setarg(t, kind):
    R = RT(t); E = R.E; m = R.m; st = R.st; k = kernel(R); i, n = R.var("arg_index", 32), R.var("number of arguments", 32); sz, S, A = R.var("arg_size"), R.var("size of the parameter"), R.var("address qualifier", 32); ism = kind in ("buffer", "image")
    V = R.data("arg_value"); mem = None; isS = kind == "sampler"
    if kind != "other": st.assume({"private": A == AP, "sampler": A == AP, "local": A == AL}.get(kind, z3.Or(A == AG, A == AC)))
    else: st.assume(z3.And(*[A != x for x in (AG, AL, AC, AP)]))
    if ism:
        st.assume(S == 8); V.mode = "cells"; R.ctx = R.pctx; mem = R.mem("memory object", kind == "image"); V.base[("c", 0, 8)] = mem.arg; mem.base[("c", m.field("_cl_mem", "isImage"), 1)] = z3.BitVecVal(int(kind == "image"), 8)
    if isS:
        V.mode = "cells"; sm = R.obj("sampler", "_cl_sampler"); V.base[("c", 0, 8)] = sm.arg; sv = R.get(sm, "sampler", w=32)
    st.assume(z3.ULE(sz, 1 << 40))
    def contract(nm, val):
        def f(E, st, a, I): E.used_contracts.add(nm); E.oblige(st, And(peq(a[0], Ptr(R.core)), eq(bvv(a[1], 32), i)), "the parameter set"); E.oblige(st, z3.ULT(i, n), "only existing parameters"); return val
        E.models[nm] = f
    E.models[K + "getNumArguments"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(R.core)), "the kernel"), n)[1]
    TN = Region("type name"); contract(K + "getArgumentAddressQualifier", A); contract(K + "getArgumentSize", S); contract(K + "getArgumentTypeName", (Ptr(TN), z3.BitVec("type name length", 64)))
    import strs
    def sref(E, st, a, I): st.store(E, a[0], 8, a[1]); st.store(E, pgep(a[0], 8), 8, z3.BitVec("literal length", 64)); return 0
    pre(E, r"^llvm::StringRef::StringRef\(char const\*\)", sref)
    def cmp_(E, st, a, I):
        ps = [x for x in a if isinstance(x, Ptr)]; lit = [p for p in ps if p.r is not TN]
        if len(ps) != 2 or len(lit) != 1: raise Unsupported("comparison of strings")
        if strs.cstr(E, st, lit[0]) not in ("sampler_t", b"sampler_t"): raise Unsupported("comparison with another type name")
        return isS
    pre(E, r"^(bool )?llvm::operator==\(llvm::StringRef, llvm::StringRef\)", cmp_); pre(E, r"^(bool )?llvm::operator!=\(llvm::StringRef, llvm::StringRef\)", lambda E, st, a, I: not cmp_(E, st, a, I))
    cell = Region("kernel's record of memory objects"); ma = Ptr(k, m.field("_cl_kernel", "memArgs"))
    def keyed(E, st, a): E.oblige(st, And(peq(a[0], ma), eq(bvv(st.load(E, one(E, st, a[1]), 4), 32), i)), "the record of this argument")
    cell.base[("c", 0, 8)] = Ptr(Region("previous object"))
    pre(E, MEMS + r"operator\[\]\(", lambda E, st, a, I: (keyed(E, st, a), st.log("record", 1), Ptr(cell))[2]); pre(E, MEMS + r"erase\(", lambda E, st, a, I: (keyed(E, st, a), st.log("unrecord", 1), z3.BitVec("erased", 64))[2])
    pre(E, r"^std::vector<oclgrind::Image\*, .*>::push_back\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(k, m.field("_cl_kernel", "imageArgs"))), "kept for release"), st.log("kept", st.load(E, one(E, st, a[1]), 8, "ptr")), 0)[2])
    def setarg(E, st, a, I):
        E.used_contracts.add(K + "setArgument"); E.oblige(st, And(peq(a[0], Ptr(R.core)), eq(bvv(a[1], 32), i)), "the argument set"); 
        if isinstance(a[2], (Ptr, PIte)): v = a[2]
        else: v = Ptr(Region("value", local=True)); st.store(E, v, 8, a[2]); st.store(E, pgep(v, 8), 8, a[3])      # passed in two registers
        st.log("set", (v, st.fork())); return 0
    E.models[K + "setArgument"] = setarg
    E.models["oclgrind::TypedValue::setPointer"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::TypedValue::setPointer"), st.store(E, st.load(E, pgep(a[0], 8), 8, "ptr"), 8, a[1]), 0)[2]
    R.err(KERNEL, k.null); R.err(ARG_INDEX, z3.UGE(i, n))
    if kind in ("private", "buffer", "image", "other"): R.err(ARG_SIZE, sz != S)
    if kind == "private": R.err(ARG_VALUE, V.null)
    if isS: R.err(ARG_SIZE, sz != 8); R.err(SAMPLER, z3.Or(V.null, sm.null)); R.err(ARG_VALUE, V.null)
    if kind == "other": R.err(ARG_VALUE, True)
    W = lambda f: m.field("TypedValue", f); gb = z3.BitVec("ghost byte", 64)
    for oc in R.run("clSetKernelArg", [k.arg, i, sz, V.arg]):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); r = bvv(oc.val, 32); se = s.ghost.get("set", ()); rec = len(s.ghost.get("record", ())); un = len(s.ghost.get("unrecord", ()))
        if not se: E.oblige(s, And(z3.Or(*[z3.And(b2z(c), r == e) for e, c in R.errs]), rec + un == 0), "an argument that is not set is invalid, the error says why, and nothing changes"); continue
        E.oblige(s, And(R.valid(), r == 0, len(se) == 1), "only valid arguments are set, once"); v, snap = se[0]; E.oblige(s, And(eq(bvv(snap.load(E, pgep(v, W("size")), 4), 32), z3.Extract(31, 0, sz)), eq(bvv(snap.load(E, pgep(v, W("num")), 4), 32), 1)), "with the size given")
        dp = snap.load(E, pgep(v, W("data")), 8, "ptr")
        if kind == "local": E.oblige(s, peq(dp, NULL), "local memory has no value"); continue
        for s2, d in E.resolve(snap, dp):
            if d.r is None: E.oblige(s2, False, "a value is given"); continue
            if kind == "private": s2.assume(z3.ULT(gb, sz)); E.oblige(s2, eq(bvv(s2.load(E, pgep(d, gb), 1), 8), bvv(V.byte0(0, gb), 8)), "every byte of the value")
            elif isS: E.oblige(s2, eq(bvv(s2.load(E, d, 4), 32), sv), "the sampler's value")
            elif kind == "buffer": E.oblige(s2, eq(bvv(s2.load(E, d, 8), 64), z3.If(z3.Or(b2z(V.null), b2z(mem.null)), z3.BitVecVal(0, 64), R.get(mem, "address"))), "the buffer's address, or null")
            else:
                for s3, ip in E.resolve(s2, s2.load(E, d, 8, "ptr")):
                    nul = z3.Or(b2z(V.null), b2z(mem.null))
                    if ip.r is None: E.oblige(s3, nul, "null only if no image is given"); continue
                    E.oblige(s3, And(z3.Not(nul), len(s.ghost.get("kept", ())) == 1 and peq(s.ghost["kept"][0], ip)), "an image, recorded for release"); IF = lambda *f: m.field("Image", *f)
                    E.oblige(s3, eq(bvv(s3.load(E, pgep(ip, IF("address")), 8), 64), R.get(mem, "address")), "its address")
                    for f in ("image_channel_order", "image_channel_data_type"): E.oblige(s3, eq(bvv(s3.load(E, pgep(ip, IF("format", f)), 4), 32), R.get(mem, "format", f, w=32)), "its format")
                    for f, w in (("image_width", 64), ("image_height", 64), ("image_depth", 64), ("image_array_size", 64), ("image_type", 32)): E.oblige(s3, eq(bvv(s3.load(E, pgep(ip, IF("desc", f)), w // 8), w), R.get(mem, "desc", f, w=w)), "its geometry")
        if ism:
            nul = z3.Or(b2z(V.null), b2z(mem.null)); E.oblige(s, (z3.Not(nul) if rec == 1 and un == 0 else nul if rec == 0 and un == 1 else False), "the object is recorded, or forgotten for null")
            if rec: E.oblige(s, peq(s.load(E, Ptr(cell), 8, "ptr"), Ptr(mem)), "the object recorded")
        else: E.oblige(s, rec + un == 0, "no memory object is recorded")
# ---- Kernel.cpp
VALS = r"^std::map<llvm::Value const\*, oclgrind::TypedValue, .*>::"
class Kern:
    def __init__(self, t):
        self.E = E = t.engine(); self.m = m = E.mod; self.st = State(); self.k = Region("kernel"); self.F = Region("function"); self.k.base[("c", m.field("oclgrind::Kernel", "m_function"), 8)] = Ptr(self.F); self.args = Region("parameters"); self.n = z3.BitVec("number of parameters", 64); self.st.assume(z3.ULE(self.n, 1 << 30)); E.inputs["number of parameters"] = self.n
        T = m.types; self.SZ = T["llvm::Argument"]["size"] if "llvm::Argument" in T and isinstance(T["llvm::Argument"], dict) else 40
        fn = lambda st, p: E.oblige(st, peq(p, Ptr(self.F)), "the kernel's function"); M_ = E.models; self.vals = Ptr(self.k, m.field("oclgrind::Kernel", "m_values"))
        M_["llvm::Function::arg_begin"] = lambda E, st, a, I: (fn(st, a[0]), Ptr(self.args, 0))[1]; M_["llvm::Function::arg_end"] = lambda E, st, a, I: (fn(st, a[0]), Ptr(self.args, self.n * self.SZ))[1]; M_["llvm::Function::arg_size"] = lambda E, st, a, I: (fn(st, a[0]), self.n)[1]
    def index(self, off): return z3.UDiv(bvv(off, 64), z3.BitVecVal(self.SZ, 64))
def t_getarg(t):
    Kn = Kern(t); E = Kn.E; i = z3.BitVec("index", 32); E.inputs["index"] = i; Kn.st.assume(z3.ULT(z3.ZeroExt(32, i), Kn.n))
    E.hints.append(lambda E, d: [("walked so far", lambda s, v, p=p, k=k: And(bvv(v[p], 64) == z3.ZeroExt(32, bvv(v[k], 32)) * Kn.SZ, z3.ULE(bvv(v[k], 32), i))) for p, (x, w) in d["vars"].items() if w == 64 for k, (y, w2) in d["vars"].items() if w2 == 32])
    for oc in t.reached(E.exec_fn(Kn.m.fn(K + "getArgument"), [Ptr(Kn.k), i], Kn.st)): E.oblige(oc.st, peq(oc.val, Ptr(Kn.args, z3.ZeroExt(32, i) * Kn.SZ)), "the parameter with this index")
def t_allset(t):
    Kn = Kern(t); E = Kn.E; st = Kn.st; isset = z3.Function("parameter is set", B(64), z3.BoolSort()); gh = Region("ghost"); gh.base[("c", 0, 8)] = 0; g = z3.BitVec("some parameter", 64); E.inputs["some parameter"] = g; E.inputs["it is set"] = isset(g * Kn.SZ)
    cell = lambda s: bvv(s.load(E, Ptr(gh), 8), 64)
    def count(E, st, a, I):
        p = st.load(E, one(E, st, a[1]), 8, "ptr")
        if p.r is not Kn.args: raise Unsupported("not a parameter")
        E.oblige(st, And(peq(a[0], Kn.vals), z3.ULT(bvv(p.off, 64), Kn.n * Kn.SZ)), "an existing parameter of the kernel"); x = isset(bvv(p.off, 64)); st.store(E, Ptr(gh), 8, z3.If(x, cell(st), z3.BitVecVal(1, 64))); return z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    pre(E, VALS + r"count\(", count)
    def hint(E, d):
        c = [("no unset parameter found", lambda s, v: cell(s) == 0)]
        for k, (x, w) in d["vars"].items():
            if w == 64 and k[0] in ("po", "mo"): c += [("position", lambda s, v, k=k: z3.ULE(bvv(v[k], 64), Kn.n * Kn.SZ)), ("multiple", lambda s, v, k=k: z3.URem(bvv(v[k], 64), z3.BitVecVal(Kn.SZ, 64)) == 0), ("set so far", lambda s, v, k=k: z3.Implies(z3.And(z3.ULT(g, Kn.n), z3.ULT(g * Kn.SZ, bvv(v[k], 64))), isset(g * Kn.SZ)))]
        return c
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(Kn.m.fn(K + "allArgumentsSet"), [Ptr(Kn.k)], st)):
        s = oc.st; r = b2z(cond(oc.val)); E.oblige(s, z3.Implies(z3.And(r, z3.ULT(g, Kn.n)), isset(g * Kn.SZ)), "accepted only if every parameter is set"); E.oblige(s, z3.Implies(z3.Not(r), cell(s) == 1), "refused only if some parameter is not set")
def t_argsize(t):
    Kn = Kern(t); E = Kn.E; i = z3.BitVec("index", 32); A = Region("parameter"); T0, T1 = Region("type"), Region("by-value type"); by, pt = z3.Bool("by value"), z3.Bool("pointer type"); E.inputs.update({"by value": by, "pointer type": pt}); M_ = E.models; s0, s1 = z3.BitVec("size of the type", 64), z3.BitVec("size of the by-value type", 64)
    Kn.st.assume(z3.ULT(z3.ZeroExt(32, i), Kn.n)); Kn.st.assume(z3.Implies(by, pt))
    M_[K + "getArgument"] = lambda E, st, a, I: (E.used_contracts.add(K + "getArgument"), E.oblige(st, And(peq(a[0], Ptr(Kn.k)), eq(bvv(a[1], 32), i)), "the parameter asked for"), Ptr(A))[2]
    isA = lambda st, p: E.oblige(st, peq(p, Ptr(A)), "of this parameter")
    M_["llvm::Value::getType"] = lambda E, st, a, I: (isA(st, a[0]), Ptr(T0))[1]; M_["llvm::Type::isPointerTy"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(T0)), "its type"), pt)[1]
    M_["llvm::Argument::hasByValAttr"] = lambda E, st, a, I: (isA(st, a[0]), by)[1]; M_["llvm::Argument::getParamByValType"] = lambda E, st, a, I: (isA(st, a[0]), E.oblige(st, by, "only if passed by value"), Ptr(T1))[2]
    def size(E, st, a, I):
        E.used_contracts.add("oclgrind::getTypeSize"); p = one(E, st, a[0]); r = {id(T0): s0, id(T1): s1}.get(id(p.r))
        if r is None: raise Unsupported("type")
        return z3.Extract(31, 0, r) if I.get("ty") == "i32" else r
    M_["oclgrind::getTypeSize"] = size
    for x in (s0, s1): Kn.st.assume(z3.ULT(x, 1 << 32))
    for oc in t.reached(E.exec_fn(Kn.m.fn(K + "getArgumentSize"), [Ptr(Kn.k), i], Kn.st)): E.oblige(oc.st, eq(bvv(oc.val, 64), z3.If(by, s1, s0)), "the size of the value passed")
def t_localmem(t):
    Kn = Kern(t); E = Kn.E; m = Kn.m; st = Kn.st; STR = 64; n = z3.BitVec("values", 64); st.assume(z3.ULE(n, 1 << 30)); loc = z3.Function("is local memory", B(64), z3.BoolSort()); ptr = z3.Function("is a pointer", B(64), z3.BoolSort()); sp = z3.Function("address space", B(64), B(32)); sz = z3.Function("size of value", B(64), B(32))
    V, T = Region("values", fam=True), Region("types of values", fam=True); so = 8 + m.field("TypedValue", "size")
    def elem(off):
        def h(E, inst, o, tag):
            fo = E.fieldof(sq.r, o); kk = z3.LShR(sub(bvv(o, 64), fo, 64), 6)
            if fo == 0: return Ptr(V, 0, kk)
            if fo == so: return sz(kk)
            raise Unsupported("field of a value")
        return h
    sq = C.Seq(E, "values", STR, elem); R = type("X", (), dict(st=st)); S = Sum(R, "values", lambda k: And(ptr(k), sp(k) == 3), lambda k: z3.ZeroExt(32, sz(k)), n)
    mine = lambda st, p: E.oblige(st, peq(p, Kn.vals), "the kernel's values")
    pre(E, VALS + r"c?begin\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(sq.r, 0))[1]); pre(E, VALS + r"c?end\(\)", lambda E, st, a, I: (mine(st, a[0]), Ptr(sq.r, mul(n, STR, 64)))[1])
    IT = r"^std::_Rb_tree_(const_)?iterator<std::pair<llvm::Value const\* const, .*>"; C.seq_iter(E, IT, STR); C.iter_cmp(E, r"std::_Rb_tree_(const_)?iterator<std::pair<llvm::Value")
    def deref(E, st, a, I): p = C.it(E, st, a[0]); k = z3.LShR(bvv(p.off, 64), 6); E.oblige(st, z3.ULT(k, n), "only existing values"); S.unfold(st, k); return p
    pre(E, IT + r"::operator(\*|->)\(\) const", deref); E.hints.append(S.hint(STR)); M_ = E.models
    M_["llvm::Value::getType"] = lambda E, st, a, I: Ptr(T, 0, one(E, st, a[0]).inst); M_["llvm::Type::isPointerTy"] = lambda E, st, a, I: ptr(bvv(one(E, st, a[0]).inst, 64)); M_["llvm::Type::getPointerAddressSpace"] = lambda E, st, a, I: (E.oblige(st, ptr(bvv(one(E, st, a[0]).inst, 64)), "only of pointers"), sp(bvv(one(E, st, a[0]).inst, 64)))[1]
    for oc in t.reached(E.exec_fn(Kn.m.fn(K + "getLocalMemorySize"), [Ptr(Kn.k)], st)): E.oblige(oc.st, eq(bvv(oc.val, 64), S.P(n)), "the sum of the sizes of all values in local memory")
def t_size3(t):
    E = t.engine(); st = State(); n = z3.BitVec("count", 32); st.assume(z3.ULE(n, 3)); v = Region("values"); s3 = Region("size"); X = [z3.BitVec("value[%d]" % i, 64) for i in range(3)]; O = [z3.BitVec("old[%d]" % i, 64) for i in range(3)]; E.loop_mode = "unroll"
    for i in range(3): v.base[("c", 8 * i, 8)] = X[i]; s3.base[("c", 8 * i, 8)] = O[i]
    for oc in t.reached(E.exec_fn(E.mod.fn("oclgrind::Size3::set"), [Ptr(s3), Ptr(v), n], st)):
        for i in range(3): E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(s3, 8 * i), 8), 64), z3.If(z3.UGT(n, i), X[i], O[i])), "component %d is set if it is given" % i)
def t_store(t, isS):
    """Kernel::setArgument"""
    Kn = Kern(t); E = Kn.E; m = Kn.m; st = Kn.st; i = z3.BitVec("index", 32); E.inputs["index"] = i; st.assume(z3.ULT(z3.ZeroExt(32, i), Kn.n)); A, TN, cell, D0, D1, DN = Region("parameter"), Region("type name"), Region("stored value"), Region("previous value"), Region("value", mode="byte"), Region("copy of the value"); M_ = E.models
    known, had = z3.Bool("set before"), z3.Bool("had a value"); hdr, nh = z3.BitVec("size and number", 64), z3.BitVec("size and number of the copy", 64); E.inputs.update({"set before": known, "had a value": had}); cell.base[("c", 8, 8)] = pite(had, Ptr(D0), NULL); cell.base[("c", 0, 8)] = z3.BitVec("previous size", 64)
    mine = lambda st, a: E.oblige(st, And(peq(a[0], Ptr(Kn.k)), eq(bvv(a[1], 32), i)), "the parameter set")
    def ga(E, st, a, I): E.used_contracts.add(K + "getArgument"); mine(st, a); return Ptr(A)
    M_[K + "getArgument"] = ga; M_[K + "getArgumentTypeName"] = lambda E, st, a, I: (mine(st, a), (Ptr(TN), z3.BitVec("type name length", 64)))[1]
    def key(E, st, a): E.oblige(st, And(peq(a[0], Kn.vals), peq(st.load(E, one(E, st, a[1]), 8, "ptr"), Ptr(A))), "the value of this parameter")
    pre(E, VALS + r"count\(", lambda E, st, a, I: (key(E, st, a), z3.If(known, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))[1]); pre(E, VALS + r"operator\[\]\(", lambda E, st, a, I: (key(E, st, a), Ptr(cell))[1])
    def sref(E, st, a, I): E.oblige(st, peq(st.load(E, one(E, st, a[-1]), 8, "ptr"), Ptr(TN)), "the type name"); return 0
    M_["llvm::StringRef::str[abi:cxx11]() const"] = M_["llvm::StringRef::str"] = M_["llvm::StringRef::str[abi:cxx11]"] = sref
    import strs
    def cmp_(E, st, a, I):
        if not any(_lit(E, st, x) == "sampler_t" for x in a): raise Unsupported("comparison with another type name")
        return isS
    def _lit(E, st, x):
        try: return strs.cstr(E, st, x)
        except Unsupported: return None
    pre(E, r"^bool std::operator==<char", cmp_); M_["std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::~basic_string()"] = lambda E, st, a, I: 0
    pre(E, r"^llvm::StringRef::StringRef\(char const\*\)", lambda E, st, a, I: (st.store(E, a[0], 8, a[1]), st.store(E, pgep(a[0], 8), 8, 9), 0)[2]); pre(E, r"^(bool )?llvm::operator==\(llvm::StringRef, llvm::StringRef\)", cmp_)
    M_["operator delete[](void*)"] = lambda E, st, a, I: (st.log("deleted", a[0]), 0)[1]
    I32, CI = Region("type i32"), Region("sampler constant"); LC = Region("llvm context"); M_["oclgrind::Program::getLLVMContext"] = lambda E, st, a, I: Ptr(LC); M_["llvm::Type::getInt32Ty"] = lambda E, st, a, I: Ptr(I32); sv = z3.BitVec("sampler", 64)
    Kn.k.base[("c", m.field("oclgrind::Kernel", "m_program"), 8)] = Ptr(Region("program"))
    def sint(E, st, a, I):
        E.used_contracts.add("oclgrind::TypedValue::getSInt"); p = one(E, st, a[0]); E.oblige(st, And(peq(st.load(E, pgep(p, 8), 8, "ptr"), Ptr(D1)), eq(bvv(a[1], 32), 0)), "the value given"); return sv
    M_["oclgrind::TypedValue::getSInt"] = M_["oclgrind::TypedValue::getUInt"] = sint
    def cint(E, st, a, I): E.oblige(st, And(peq(a[0], Ptr(I32)), eq(z3.Extract(31, 0, bvv(a[1], 64)), z3.Extract(31, 0, sv))), "the sampler's value as a 32-bit constant"); return Ptr(CI)
    pre(E, r"^llvm::ConstantInt::get\(llvm::Type\*, unsigned long", cint)
    M_["oclgrind::TypedValue::setPointer"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::TypedValue::setPointer"), st.store(E, st.load(E, pgep(a[0], 8), 8, "ptr"), 8, a[1]), 0)[2]
    def clone(E, st, a, I):
        E.used_contracts.add("oclgrind::TypedValue::clone"); v = [st.load(E, pgep(one(E, st, a[-1]), o), 8, ty) for o, ty in ((0, None), (8, "ptr"))]; E.oblige(st, And(eq(bvv(v[0], 64), hdr), peq(v[1], Ptr(D1))), "the value given is copied"); st.log("clone", 1); return (nh, Ptr(DN))
    M_["oclgrind::TypedValue::clone"] = clone
    for oc in t.reached(E.exec_fn(m.fn(K + "setArgument"), [Ptr(Kn.k), i, hdr, Ptr(D1)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); de = s.ghost.get("deleted", ()); E.oblige(s, (And(known, had, peq(de[0], Ptr(D0))) if len(de) == 1 else Not(And(known, had)) if not de else False), "the previous value is freed, once")
        h, d = bvv(s.load(E, Ptr(cell), 8), 64), s.load(E, Ptr(cell, 8), 8, "ptr")
        if not isS: E.oblige(s, And(h == nh, peq(d, Ptr(DN)), len(s.ghost.get("clone", ())) == 1), "the parameter's value is a copy of the value given"); continue
        E.oblige(s, h == z3.BitVecVal(8 | 1 << 32, 64), "one pointer"); p = one(E, s, d); E.oblige(s, p.r is not None and p.r not in (D0, D1) and peq(s.load(E, p, 8, "ptr"), Ptr(CI)), "a pointer to the sampler constant")
def t_required(t):
    Kn = Kern(t); E = Kn.E; m = Kn.m; st = Kn.st; E.try_unroll = 3; out = Region("sizes"); has = [z3.Bool("has component %d" % j) for j in range(3)]; val = [z3.BitVec("component %d" % j, 64) for j in range(3)]; MD = [Region("metadata %d" % j) for j in range(3)]; CI = [Region("constant %d" % j) for j in range(3)]
    import strs; strs.install(E); pre(E, r"^std::(__new_)?allocator<char>::|^std::__new_allocator<char>", lambda E, st, a, I: 0)
    for j in range(3): E.inputs["has component %d" % j] = has[j]; E.inputs["component %d" % j] = val[j]
    def md(E, st, a, I):
        E.used_contracts.add(K + "getArgumentMetadata"); j = a[2]
        if not isc(j): raise Unsupported("component")
        E.oblige(st, peq(a[0], Ptr(Kn.k)), "of this kernel"); E.oblige(st, strs.sget(E, st, a[1]) == "reqd_work_group_size", "the required work-group size"); return pite(has[j], Ptr(MD[j]), NULL) if j < 3 else NULL
    E.models[K + "getArgumentMetadata"] = md
    def ci(E, st, a, I): E.used_contracts.add("oclgrind::getMDAsConstInt"); return Ptr(CI[[x for x in range(3) if one(E, st, a[0]).r is MD[x]][0]])
    E.models["oclgrind::getMDAsConstInt"] = ci; E.models["llvm::ConstantInt::getZExtValue"] = lambda E, st, a, I: val[[x for x in range(3) if one(E, st, a[0]).r is CI[x]][0]]
    for oc in t.reached(E.exec_fn(m.fn(K + "getRequiredWorkGroupSize"), [Ptr(Kn.k), Ptr(out)], st)):
        for j in range(3): E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(out, 8 * j), 8), 64), z3.If(has[j], val[j], z3.BitVecVal(0, 64))), "component %d, or zero" % j)
def tasks_R04(mod):
    out = [Task("launch (%d-dimensional%s%s%s)" % (d, "" if l else ", local size chosen", "" if g else ", no global size", ", required size" if r else ""), "clEnqueueNDRangeKernel", lambda t, d=d, l=l, g=g, r=r: t_launch(t, d, l, g, r)) for d in (3, 2, 1) for l in (True, False) for g in (True, False) for r in (True, False)] + [Task("launch (invalid dimension)", "clEnqueueNDRangeKernel", lambda t: t_launch(t, 0))] + [Task("launch of a task", "clEnqueueTask", t_task)]
    out += [Task("set argument (%s)" % k, "clSetKernelArg", lambda t, k=k: t_setarg(t, k)) for k in ("private", "sampler", "local", "buffer", "image", "other")]
    out += [Task("parameter by index", K + "getArgument", t_getarg), Task("all arguments set", K + "allArgumentsSet", t_allset), Task("size of a parameter", K + "getArgumentSize", t_argsize), Task("local memory size", K + "getLocalMemorySize", t_localmem), Task("sizes", "oclgrind::Size3::set", t_size3), Task("storing an argument", K + "setArgument", lambda t: t_store(t, False)), Task("storing a sampler", K + "setArgument", lambda t: t_store(t, True)), Task("required work-group size", K + "getRequiredWorkGroupSize", t_required)]
    return out
