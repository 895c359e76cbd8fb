"""Memory instructions: load, store, alloca, getelementptr (gep + resolveGEP) for all types, index counts, widths and values."""
import re, z3
from engine import *
from lworld import *
from run import Task
H = "oclgrind::WorkItem::"

def wi_world(E, inst):
    """the WorkItem's memories"""
    m = E.mod
    class W: pass
    w = W()
    w.priv = Region("private memory"); w.glob = Region("global memory"); w.loc = Region("local memory")
    w.ctx = Region("context"); w.wg = Region("workgroup")
    b = inst.this.base
    b[("c", m.field("WorkItem", "m_privateMemory"), 8)] = Ptr(w.priv); b[("c", m.field("WorkItem", "m_context"), 8)] = Ptr(w.ctx); b[("c", m.field("WorkItem", "m_workGroup"), 8)] = Ptr(w.wg)
    w.pos = Region("position"); b[("c", m.field("WorkItem", "m_position"), 8)] = Ptr(w.pos)
    w.ctx.base[("c", m.field("Context", "m_globalMemory"), 8)] = Ptr(w.glob)
    w.wg.base[("c", m.field("WorkGroup", "m_localMemory"), 8)] = Ptr(w.loc)
    E.models["oclgrind::Context::logError"] = lambda E, st, a, I: st.log("error", a[1]) or 0
    return w
def symsize(E, st, inst):
    """a result or operand of arbitrary size"""
    s = z3.BitVec("value.size", 32); n = z3.BitVec("value.num", 32); E.inputs["value.size"] = s; E.inputs["value.num"] = n
    st.assume(z3.ULE(s, 1 << 16)); st.assume(z3.ULE(n, 1 << 15))
    return s, n
def same(a, b): return peq(a, b)
def t_loadstore(t, isload):
    for asp, mem in ((0, "priv"), (1, "glob"), (2, "glob"), (3, "loc")):
        E = t.engine(); st = State()
        s, n = symsize(E, st, None)
        p = LVal(E, "pointer", P(asp)); v = LVal(E, "value", LT("opaque"), num=n, size=1)
        vd = Ptr(v.data)
        v.tv = lambda: (z3.Concat(n, s), vd)
        inst = LInst(E, st, "Load" if isload else "Store", LT("void"), [p] if isload else [v, p])
        m = E.mod; b = inst.res.base
        if isload:
            b[("c", m.field("TypedValue", "size"), 4)] = s; b[("c", m.field("TypedValue", "num"), 4)] = n; b[("c", m.field("TypedValue", "data"), 8)] = Ptr(inst.resd)
        inst.ty = LT("opaque")
        w = wi_world(E, inst)
        sh = z3.BitVec("align.log2", 8); E.inputs["align.log2"] = sh; st.assume(z3.ULE(sh, 31))
        c = "LoadInst" if isload else "StoreInst"
        E.models["llvm::%s::getPointerAddressSpace" % c] = lambda E, st, a, I: asp
        E.models["llvm::%s::getAlign" % c] = lambda E, st, a, I: sh
        E.models["llvm::Align::value"] = lambda E, st, a, I: z3.BitVecVal(1, 64) << zext(sh, 8, 64)
        E.models["oclgrind::getTypeAlignment"] = lambda E, st, a, I: fresh("typealign", 32)
        def contract(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::%s" % ("load" if isload else "store")); st.log("access", (I["fn"], a)); return freshb("accepted")
        E.models["oclgrind::Memory::load"] = E.models["oclgrind::Memory::store"] = contract
        addr = bvv(p.lane(0), 64); E.inputs["address"] = addr
        mis = (addr & ((z3.BitVecVal(1, 64) << zext(sh, 8, 64)) - 1)) != 0
        want = getattr(w, mem)
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            g = oc.st.ghost.get("access", ())
            E.oblige(oc.st, len(g) == 1 and E.mod.fns[g[0][0]].dem.startswith("oclgrind::Memory::" + ("load" if isload else "store")), "exactly one memory access")
            if len(g) != 1: continue
            a = g[0][1]
            dat, ad, sz = a[1], a[2], a[3]
            E.oblige(oc.st, same(a[0], Ptr(want)), "the memory of address space %d" % asp)
            E.oblige(oc.st, eq(bvv(ad, 64), addr), "exactly at the pointer operand's address")
            E.oblige(oc.st, eq(bvv(sz, 64), z3.ZeroExt(32, s) * z3.ZeroExt(32, n)), "exactly the bytes of the accessed type")
            E.oblige(oc.st, same(dat, Ptr(inst.resd) if isload else vd), "value bytes %s" % ("go to the result" if isload else "come from the operand"))
            E.oblige(oc.st, eqb(len(oc.st.ghost.get("error", ())) == 1, mis), "misalignment is reported exactly when the address is misaligned")
def eqb(a, b): return And(Implies(a, b), Implies(b, a))
def t_alloca(t):
  for count in (None, 8, 16, 32, 64):
    for depth in (0, 1):
        E = t.engine(); st = State()
        ops = []
        if count is not None:
            ops = [LVal(E, "count", I(count))]; E.inputs["count"] = bvv(ops[0].lane(0), count)
        inst = LInst(E, st, "Alloca", P(0), ops); w = wi_world(E, inst)
        sz = z3.BitVec("typesize", 32); E.inputs["typesize"] = sz
        ty = LT("opaque")
        E.models["llvm::AllocaInst::getAllocatedType"] = lambda E, st, a, I: Ptr(ty.r)
        E.models["llvm::AllocaInst::isArrayAllocation"] = lambda E, st, a, I: count is not None
        if not ops: E.models["llvm::AllocaInst::getArraySize"] = lambda E, st, a, I: Ptr(LVal(E, "one", I(32)).r)
        E.models["oclgrind::getTypeSize"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::getTypeSize"), sz)[1]
        addr = z3.BitVec("allocated", 64)
        def alloc(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::allocateBuffer"); st.log("alloc", a); return addr
        E.models["oclgrind::Memory::allocateBuffer"] = alloc
        top = Region("top frame's allocations")
        SK = "std::stack<std::__cxx11::list<unsigned long, std::allocator<unsigned long>>, std::deque<std::__cxx11::list<unsigned long, std::allocator<unsigned long>>, std::allocator<std::__cxx11::list<unsigned long, std::allocator<unsigned long>>>>>::"
        E.models[SK + "empty"] = lambda E, st, a, I: not depth
        E.models[SK + "size"] = lambda E, st, a, I: depth
        def topm(E, st, a, I):
            E.oblige(st, bool(depth), "no top of an empty stack"); return Ptr(top)
        E.models[SK + "top"] = topm
        E.rmodels.append((re.compile(r"^std::__cxx11::list<unsigned long,.*>::push_back\("), lambda E, st, a, I: st.log("push", (a[0], st.load(E, a[1], 8))) or 0))
        n = z3.BitVecVal(1, 64) if count is None else zext(bvv(ops[0].lane(0), count), count, 64)
        if count is not None:   # the product fits the address space
            st.assume(z3.ULE(n, 1 << 20)); st.assume(z3.ULE(sz, 1 << 20))
        ok = 0
        for oc in inst.dispatch(st):
            s = oc.st; g = s.ghost.get("alloc", ())
            g = [x for x in g if not isinstance(x, Region)]
            E.oblige(s, len(g) == 1, "one private allocation")
            if len(g) != 1: continue
            E.oblige(s, And(same(g[0][0], Ptr(w.priv)), eq(bvv(g[0][1], 64), n * z3.ZeroExt(32, sz))), "large enough for all elements, in private memory")
            if oc.kind == "throw": E.oblige(s, eq(addr, 0), "fails only when out of private memory"); continue
            ok += 1; t.paths += 1
            E.oblige(s, Not(eq(addr, 0)), "a failed allocation is not used")
            E.oblige(s, eq(bvv(s.load(E, Ptr(inst.resd), 8), 64), addr), "the result is the allocation's address")
            pu = s.ghost.get("push", ())
            E.oblige(s, And(len(pu) == depth, *[And(same(x[0], Ptr(top)), eq(bvv(x[1], 64), addr)) for x in pu]), "recorded in the current call frame")
        if not ok: raise Unsupported("no returning path")
# ---------------------------------------------------------------- getelementptr
class TyChain:
    """the types indexed by an index list of arbitrary length: level i is indexed by index i+1"""
    def __init__(self, E):
        self.r = Region("types along the index list"); self.E = E
        B = z3.BitVecSort
        self.kind = z3.Function("kind", B(64), B(2)); self.sz = z3.Function("sizeof", B(64), B(32)); self.mo = z3.Function("memberoffset", B(64), B(32), B(32))
        self.idx = z3.Function("index", B(64), B(64)); self.base = z3.BitVec("base", 64); self.S = z3.Function("address_after", B(64), B(64))
    def at(self, i): return Ptr(self.r, i)
    def is_(self, p): return isinstance(p, Ptr) and p.r is self.r
    def step(self, i):
        """S(i+1) = S(i) + contribution of index i (i >= 1)"""
        i = bvv(i, 64)
        c = z3.If(self.kind(i - 1) == 2, z3.ZeroExt(32, self.mo(i - 1, z3.Extract(31, 0, self.idx(i)))), self.idx(i) * z3.ZeroExt(32, self.sz(i)))
        return self.S(i + 1) == self.S(i) + c
    def axiom(self, st, p):
        st.assume(z3.ULE(self.kind(bvv(p.off, 64)), 2)); st.assume(self.step(bvv(p.off, 64) + 1))
    def install(self):
        E = self.E; M_ = E.models; T = "llvm::Type::"
        def wrap(name, f):
            old = M_.get(name)
            def h(E, st, a, I):
                if self.is_(a[0]): return f(E, st, a, I)
                if old is None: raise Unsupported(name)
                return old(E, st, a, I)
            M_[name] = h
        def kq(k):
            def f(E, st, a, I):
                self.axiom(st, a[0]); return self.kind(bvv(a[0].off, 64)) == k
            return f
        wrap(T + "isArrayTy", kq(0)); wrap(T + "isVectorTy", kq(1)); wrap(T + "isStructTy", kq(2))
        wrap(T + "isIntegerTy", lambda E, st, a, I: False); wrap(T + "isPointerTy", lambda E, st, a, I: False)
        def tid(E, st, a, I):
            self.axiom(st, a[0]); k = self.kind(bvv(a[0].off, 64)); return z3.If(k == 0, z3.BitVecVal(16, 32), z3.If(k == 1, z3.BitVecVal(17, 32), z3.BitVecVal(15, 32)))
        wrap(T + "getTypeID", tid)
        def elt(k):
            def f(E, st, a, I):
                E.oblige(st, self.kind(bvv(a[0].off, 64)) == k if k is not None else Not(eq(self.kind(bvv(a[0].off, 64)), 2)), "element type of the right kind of type"); return Ptr(self.r, add(a[0].off, 1, 64))
            return f
        wrap(T + "getArrayElementType", elt(0)); wrap("llvm::VectorType::getElementType", elt(1)); wrap("llvm::ArrayType::getElementType", elt(0)); wrap("llvm::FixedVectorType::getElementType", elt(1)); wrap(T + "getContainedType", elt(None))
        def selt(E, st, a, I):
            i = add(bvv(a[0].off, 64), 1, 64); ix = a[1]
            E.oblige(st, And(self.kind(bvv(a[0].off, 64)) == 2, eq(trunc(ix, 64, 32) if not isc(ix) and ix.size() == 64 else bvv(ix, 32), z3.Extract(31, 0, self.idx(i)))), "the member named by the index")
            return Ptr(self.r, i)
        wrap(T + "getStructElementType", selt); wrap("llvm::StructType::getElementType", selt); wrap("llvm::StructType::getTypeAtIndex", selt)
        wrap("oclgrind::getTypeSize", lambda E, st, a, I: (E.used_contracts.add("oclgrind::getTypeSize"), self.sz(bvv(a[0].off, 64)))[1])
        wrap("oclgrind::getStructMemberOffset", lambda E, st, a, I: (E.used_contracts.add("oclgrind::getStructMemberOffset"), self.mo(bvv(a[0].off, 64), bvv(a[1], 32)))[1])
        def cast(E, st, a, I):
            if not self.is_(a[0]): return castty(E, st, a, I)
            dem = E.mod.fns[I["fn"]].dem; k = 1 if "VectorType" in dem.split(",")[0] else 2 if "StructType" in dem.split(",")[0] else 0 if "ArrayType" in dem.split(",")[0] else None
            if k is None: raise Unsupported(dem)
            c = self.kind(bvv(a[0].off, 64)) == k; self.axiom(st, a[0])
            if "dyn_cast" in dem: return pite(c, a[0], NULL)
            E.oblige(st, c, "cast to the right type class"); return a[0]
        E.rmodels.insert(0, (re.compile(r"llvm::(dyn_)?cast(_or_null)?<llvm::(\w+Type),"), cast))
        def isa(E, st, a, I):
            p = a[0]
            if isinstance(p, Ptr) and p.r is not self.r and not hasattr(p.r, "lt"): p = st.load(E, p, 8, "ptr")
            if not self.is_(p): return isaty(E, st, a, I)
            dem = E.mod.fns[I["fn"]].dem; k = 1 if "VectorType" in dem.split(",")[0].split("(")[0] else 2 if "StructType" in dem.split("(")[0] else 0
            self.axiom(st, p); return self.kind(bvv(p.off, 64)) == k
        E.rmodels.insert(0, (re.compile(r"^bool llvm::isa<llvm::(\w+Type),"), isa))
def counters(d, tc):
    """loop variables that may count levels or indices"""
    return [(k, w) for k, (v, w) in d["vars"].items() if w in (32, 64)]
def t_resolve(t):
    for n_ in (t.params or [None]):
        E = t.engine(); st = State(); install(E); tc = TyChain(E); tc.install()
        n = z3.BitVec("indices", 64); E.inputs["indices"] = n; st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 1 << 20)))
        if n_: n = z3.BitVecVal(n_, 64)
        data = Region("offsets.data"); data.schemafn = lambda off: (lambda E, i, o, tg: tc.idx(z3.LShR(bvv(o, 64), 3) if not isc(o) else z3.BitVecVal(o >> 3, 64))); data.size = n * 8
        from world import unscale8
        data.schemafn = lambda off: (lambda E, i, o, tg: tc.idx(bvv(unscale8(o), 64)))
        vec = Region("offsets"); vec.base = {("c", 0, 8): Ptr(data, 0), ("c", 8, 8): Ptr(data, n * 8), ("c", 16, 8): Ptr(data, n * 8)}
        E.inputs["base"] = tc.base
        st.assume(tc.S(z3.BitVecVal(1, 64)) == tc.base + tc.idx(z3.BitVecVal(0, 64)) * z3.ZeroExt(32, tc.sz(z3.BitVecVal(0, 64))))
        def hint(E, d):
            c = []; pos = [k for k in d["vars"] if k[0] == "po" or k[0] == "mo"]; ints = [k for k, (v, w) in d["vars"].items() if w == 64]
            for a in ints:
                for b in ints:
                    if a != b:
                        for dl in (0, 1):
                            c.append(("address after the indices so far", lambda s, v, a=a, b=b, dl=dl: eq(bvv(v[a], 64), tc.S(bvv(add(v[b], dl, 64), 64)))))
                            if a in pos: c.append(("type level follows the index counter", lambda s, v, a=a, b=b, dl=dl: eq(bvv(add(v[a], dl, 64), 64), bvv(v[b], 64))))
            for k, (v, w) in d["vars"].items():
                if w == 64: c += [("counter in range", lambda s, v, k=k: z3.And(z3.UGE(bvv(v[k], 64), 1), z3.ULE(bvv(v[k], 64), n)))]
            return c
        E.hints.append(hint)
        for oc in t.reached(E.call(t.mod.fn("oclgrind::resolveGEP").name, st, [tc.base, tc.at(0), Ptr(vec)])):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            if n_:
                for i in range(1, n_): oc.st.assume(tc.step(z3.BitVecVal(i, 64)))
            E.oblige(oc.st, eq(bvv(oc.val, 64), tc.S(n)), "base + sum of index * stride and member offsets")
def t_gep(t):
    E = t.engine(); st = State()
    tc = TyChain(E)
    p = LVal(E, "pointer", P(1)); inst = LInst(E, st, "GetElementPtr", P(1), [p])
    n = z3.BitVec("indices", 64); E.inputs["indices"] = n; st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 1 << 20)))
    B = z3.BitVecSort
    wd = z3.Function("index_bytes", B(64), B(32))
    vals = Region("index operands", fam=True); dat = Region("index data", mode="byte", fam=True)
    dat.size = lambda i: z3.ZeroExt(32, wd(bvv(i, 64)))
    uses = Region("operand list"); first = 32
    idxv = lambda i: (lambda b: z3.If(wd(i) == 1, z3.SignExt(56, b(1)), z3.If(wd(i) == 2, z3.SignExt(48, b(2)), z3.If(wd(i) == 4, z3.SignExt(32, b(4)), b(8)))))(lambda k: bvv(concat_bytes([dat.byte0(i, j) for j in range(k)]), 8 * k))
    g = z3.BitVec("ghost.index", 64); E.inputs["ghost.index"] = g; E.inputs["bytes of index"] = wd(g); E.inputs["index value"] = idxv(g)
    cls = "llvm::GetElementPtrInst::"
    E.models[cls + "idx_begin"] = lambda E, st, a, I: Ptr(uses, first)
    E.models[cls + "idx_end"] = lambda E, st, a, I: Ptr(uses, first + n * 32)
    E.models[cls + "getNumIndices"] = lambda E, st, a, I: trunc(n, 64, 32)
    E.models["llvm::User::getNumOperands"] = lambda E, st, a, I: trunc(n, 64, 32) + 1
    def val(i): return Ptr(vals, 0, bvv(i, 64))
    def uget(E, st, a, I):
        q = _one_(E, st, a[0]); return val(sub(z3.LShR(bvv(q.off, 64), 5), 1, 64))
    def _one_(E, st, p):
        q = E.resolve(st, p)
        if len(q) != 1 or q[0][1].r is not uses: raise Unsupported("operand use")
        return q[0][1]
    E.models["llvm::Use::get"] = uget
    E.rmodels.insert(0, (re.compile(r"^llvm::Use::operator llvm::Value\*|^llvm::Use::operator->"), uget))
    def opnd(E, st, a, I):
        k = a[1]; k = zext(k, 32, 64) if not isc(k) and k.size() == 32 else k
        if isc(k) and k == 0: return p.p
        return val(sub(k, 1, 64))
    E.rmodels.insert(0, (re.compile(r"^llvm::\w+::getOperand\(unsigned"), opnd))
    def getop(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::getOperand(llvm::Value const*) const")
        out = []
        for s, q in E.resolve(st, a[1]):
            if q.r is vals:
                s.assume(Or(*[wd(q.inst) == k for k in (1, 2, 4, 8)])); out.append((s, (z3.Concat(z3.BitVecVal(1, 32), wd(q.inst)), Ptr(dat, 0, q.inst))))
            else: out.append((s, q.r.lv.tv()))
        return out
    E.models["oclgrind::WorkItem::getOperand"] = getop
    E.models[cls + "getSourceElementType"] = lambda E, st, a, I: tc.at(0)
    VR = Region("offsets vector data", local=True, uninit=True); VR.size = None
    def vctor(E, st, a, I):
        for i in range(3): st.store(E, pgep(a[0], 8 * i), 8, Ptr(VR, 0))
        return 0
    for nm in ("long",): E.models["std::vector<long, std::allocator<long>>::vector"] = vctor
    E.models["std::vector<long, std::allocator<long>>::reserve"] = lambda E, st, a, I: 0
    out = z3.BitVec("resolved", 64)
    def resolve(E, st, a, I):
        E.used_contracts.add("oclgrind::resolveGEP")
        E.oblige(st, eq(bvv(a[0], 64), bvv(p.lane(0), 64)), "base is the pointer operand")
        E.oblige(st, same(a[1], tc.at(0)), "indexes the source element type")
        b, e = st.load(E, a[2], 8, "ptr"), st.load(E, pgep(a[2], 8), 8, "ptr")
        E.oblige(st, eq(bvv(E.pdiff(e, b), 64), n * 8), "all indices are passed")
        s = st.fork(); s.assume(z3.ULT(g, n))
        E.oblige(s, eq(bvv(s.load(E, pgep(b, g * 8), 8), 64), idxv(g)), "each index is the sign-extended operand")
        return out
    E.models["oclgrind::resolveGEP"] = resolve
    def hint(E, d):
        c = []
        for k in d["vars"]:
            if d["vars"][k][1] != 64: continue
            for scale in (8, 32, 1):
                def f(s, v, k=k, scale=scale):
                    done = bvv(v[k], 64) if scale == 8 else (bvv(v[k], 64) - first) >> 2 if scale == 32 else bvv(v[k], 64) * 8
                    return Implies(And(z3.ULT(g, n), z3.ULT(g * 8, done)), eq(bvv(s.load(E, Ptr(VR, g * 8), 8), 64), idxv(g)))
                c.append(("indices so far are sign-extended operands", f))
        return c
    E.hints.append(hint)
    st.assume(Or(*[wd(g) == k for k in (1, 2, 4, 8)]))
    for oc in t.reached(inst.dispatch(st)):
        if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
        E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(inst.resd), 8), 64), out), "the result is the resolved address")
def tasks_I06():
    return [Task("load", H + "load", lambda t: t_loadstore(t, True)), Task("store", H + "store", lambda t: t_loadstore(t, False)), Task("alloca", H + "alloc", t_alloca),
            Task("resolveGEP", "oclgrind::resolveGEP", t_resolve, fallback=[1, 2, 3, 4, 5]), Task("getelementptr", H + "gep", t_gep)]
