"""P01: contracts on the memory checker (MemCheck) and on the notifications that reach it.

The mapped regions are a list of arbitrary length; its k-th element is what the real memoryMap recorded for the k-th
mapping (address_k, offset_k, size_k, flags_k arbitrary), so the proof does not depend on how a mapping is represented."""
import re, z3
from engine import *
from memtasks import tasks_M
from run import Task
import containers as C
H = "oclgrind::MemCheck::"
STR = 64
MAPW = 2 | 4                      # CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION
RLIST = r"^std::(__cxx11::)?list<oclgrind::MemCheck::MapRegion,.*>::"
def one(E, st, p):
    q = E.resolve(st, p)
    if len(q) != 1: raise Unsupported("ambiguous object")
    return q[0][1]
class MC:
    """a MemCheck object, a Memory and the accessed buffer"""
    def __init__(self, E, st):
        m = E.mod; self.E = E; E.cut_at = 0
        self.this = Region("MemCheck"); self.ctx = Region("context"); self.this.base[("c", m.field("MemCheck", "m_context"), 8)] = Ptr(self.ctx)
        self.mem = Region("memory"); self.buf = Region("buffer"); self.flags = z3.BitVec("buffer flags", 64); E.inputs["buffer flags"] = self.flags
        self.buf.base[("c", m.field("Memory::Buffer", "flags"), 8)] = self.flags
        self.a, self.n, self.sp = z3.BitVec("address", 64), z3.BitVec("n", 64), z3.BitVec("address space", 32)
        for k in ("a", "n", "sp"): E.inputs[str(getattr(self, k))] = getattr(self, k)
        self.valid = z3.Bool("inside one live allocation"); E.inputs["valid"] = self.valid
        st.assume(z3.And(z3.UGE(self.n, 1), z3.ULE(self.sp, 3)))
        st.assume(z3.Implies(self.valid, z3.UGE(self.a + self.n, self.a)))
        self.ptrof = z3.Function("pointer_of", z3.BitVecSort(64), z3.BitVecSort(64))
        M_ = E.models
        def valid(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::isAddressValid")
            E.oblige(st, And(peq(a[0], Ptr(self.mem)), eq(bvv(a[1], 64), self.a), eq(bvv(a[2], 64), self.n)), "the accessed range is checked"); return self.valid
        M_["oclgrind::Memory::isAddressValid"] = valid
        M_["oclgrind::Memory::getAddressSpace"] = lambda E, st, a, I: self.sp
        def getbuf(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::getBuffer")
            E.oblige(st, And(self.valid, eq(bvv(a[1], 64), self.a)), "the accessed buffer is looked up only if it exists"); return Ptr(self.buf)
        M_["oclgrind::Memory::getBuffer"] = getbuf
        M_["oclgrind::Memory::getPointer"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::Memory::getPointer"), Ptr(None, self.ptrof(bvv(a[1], 64))))[1]
        self.G = Region("ghost"); self.G.base = {("c", 0, 8): 0}
        self.quiet = False
        def rep(nm):
            def h(E, st, a, I):
                E.used_contracts.add(nm)
                if self.quiet: E.oblige(st, False, "a legal access is not reported")
                st.store(E, Ptr(self.G), 8, 1); return 0
            return h
        M_["oclgrind::Context::logError"] = rep("oclgrind::Context::logError")
        M_[H + "logInvalidAccess"] = rep(H + "logInvalidAccess")
    def reported(self, st): return bvv(st.load(self.E, Ptr(self.G), 8), 64) == 1
def record(t, E, mc):
    """what memoryMap pushes for (address, offset, size, flags): [(field offset, bytes, value)]"""
    m = E.mod; st = State(); A = [z3.BitVec("map." + k, 64) for k in ("address", "offset", "size", "flags")]
    st.assume((A[3] & 7) != 0); out = []
    FL = [(m.field("MemCheck::MapRegion", k), n) for k, n in (("address", 8), ("offset", 8), ("size", 8), ("ptr", 8), ("type", 4)) if has(m, k)]
    def push(E, st, a, I):
        E.oblige(st, peq(a[0], Ptr(mc.this, m.field("MemCheck", "m_mapRegions"))), "recorded in this checker's list")
        st.log("push", {o: st.load(E, pgep(a[1], o), n, "ptr" if o == m.field("MemCheck::MapRegion", "ptr") else None) for o, n in FL}); return 0
    E.rmodels.insert(0, (re.compile(RLIST + r"(push_back|emplace_back)\("), push))
    res = []
    for oc in t.reached(E.exec_fn(m.fn(H + "memoryMap"), [Ptr(mc.this), Ptr(mc.mem)] + A, st)):
        p = oc.st.ghost.get("push", ())
        if oc.kind != "ret" or len(p) != 1: raise Unsupported("memoryMap does not record exactly one region")
        res.append((And(*oc.st.pc), p[0]))
    def val(o):
        v = None
        for c, d in reversed(res):
            x = d[o]; x = x.off if isinstance(x, Ptr) and x.r is None else x
            x = bvv(x, 8 * dict(FL)[o]); v = x if v is None else z3.If(c, x, v)
        return v
    return A, {o: val(o) for o, n in FL}, m.field("MemCheck::MapRegion", "ptr") if has(m, "ptr") else None
def has(m, k):
    try: m.field("MemCheck::MapRegion", k); return True
    except KeyError: return False
class Maps:
    def __init__(self, t, E, st, mc):
        self.E = E; B = z3.BitVecSort(64)
        A, vals, po = record(t, E, mc)
        self.f = [z3.Function("mapped_" + k, B, B) for k in ("address", "offset", "size", "flags")]
        self.N = z3.BitVec("mapped regions", 64); E.inputs["mapped regions"] = self.N; st.assume(z3.ULE(self.N, 1 << 40))
        if t.params is not None: self.N = z3.BitVecVal(t.params, 64)
        self.mc = mc; self.assumed = lambda k: True
        def elem(off):
            def g(E, i, o, tg):
                fo = E.fieldof(self.seq.r, o); k = self.k(sub(bvv(o, 64), fo, 64))
                if fo not in vals: raise Unsupported("field of a mapped region")
                v = z3.simplify(z3.substitute(vals[fo], *[(x, f(k)) for x, f in zip(A, self.f)]))
                return Ptr(None, v) if fo == po else v
            return g
        self.seq = C.Seq(E, "m_mapRegions", STR, elem); r = self.seq.r
        def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
        pre(RLIST + r"c?begin\(\)", lambda E, st, a, I: Ptr(r, 0)); pre(RLIST + r"c?end\(\)", lambda E, st, a, I: Ptr(r, mul(self.N, STR, 64)))
        pre(RLIST + r"empty\(\)", lambda E, st, a, I: self.N == 0); pre(RLIST + r"size\(\)", lambda E, st, a, I: self.N)
        IT = r"^std::_List_(const_)?iterator<oclgrind::MemCheck::MapRegion>"
        C.seq_iter(E, IT, STR); C.iter_cmp(E, r"std::_List_(const_)?iterator<oclgrind::MemCheck::MapRegion")
        def deref(E, st, a, I):
            p = C.it(E, st, a[0]); k = self.k(p.off); E.oblige(st, z3.ULT(k, self.N), "only existing list elements are read")
            st.assume(self.inv(k)); st.assume(self.assumed(k)); return p
        pre(IT + r"::operator(\*|->)\(\) const", deref)
        def conv(E, st, a, I): st.store(E, a[0], 8, C.it(E, st, a[1])); return 0
        pre(IT + r"::_List_(const_)?iterator\(std::_List_(const_)?iterator<", conv)
        def hint(E, d):
            c = []
            for k, (x, w) in d["vars"].items():
                if w == 64 and k[0] in ("po", "mo"): c += [("iterator within the list", lambda s, v, k=k: z3.And(z3.ULE(bvv(v[k], 64), self.N * STR), bvv(v[k], 64) & (STR - 1) == 0))]
            return c
        E.hints.append(hint)
    def k(self, o): return z3.simplify(z3.LShR(bvv(o, 64), 6))
    def start(self, k): return self.f[0](k) + self.f[1](k)
    def size(self, k): return self.f[2](k)
    def inv(self, k):
        """mapped ranges lie inside an allocation (the runtime validates them) and say what they are mapped for"""
        s = self.start(k)
        return z3.And(z3.UGE(self.size(k), 1), z3.UGE(s, self.f[0](k)), z3.UGE(s + self.size(k), s), self.f[3](k) & 7 != 0, z3.ULE(self.f[3](k), 7))
    def conflict(self, k, store):
        a, n = self.mc.a, self.mc.n; s = self.start(k)
        ov = z3.And(z3.ULT(a, s + self.size(k)), z3.ULT(s, a + n))
        return ov if store else z3.And(ov, self.f[3](k) & MAPW != 0)
ENTRY = {"work-item load": (False, "memoryLoad(oclgrind::Memory const*, oclgrind::WorkItem const*, unsigned long, unsigned long)", "an"),
         "work-group load": (False, "memoryLoad(oclgrind::Memory const*, oclgrind::WorkGroup const*, unsigned long, unsigned long)", "an"),
         "work-item store": (True, "memoryStore(oclgrind::Memory const*, oclgrind::WorkItem const*, unsigned long, unsigned long, unsigned char const*)", "and"),
         "work-group store": (True, "memoryStore(oclgrind::Memory const*, oclgrind::WorkGroup const*, unsigned long, unsigned long, unsigned char const*)", "and"),
         "atomic load": (False, "memoryAtomicLoad(oclgrind::Memory const*, oclgrind::WorkItem const*, oclgrind::AtomicOp, unsigned long, unsigned long)", "oan"),
         "atomic store": (True, "memoryAtomicStore(oclgrind::Memory const*, oclgrind::WorkItem const*, oclgrind::AtomicOp, unsigned long, unsigned long)", "oan")}
def t_access(t, nm, exact):
    store, sig, order = ENTRY[nm]
    E = t.engine(); st = State(); m = E.mod; mc = MC(E, st); mp = Maps(t, E, st, mc)
    LOCAL, PRIV = m.enum("AddressSpace", "AddrSpaceLocal"), m.enum("AddressSpace", "AddrSpacePrivate")
    mapped = z3.And(mc.sp != LOCAL, mc.sp != PRIV)
    forb = mc.flags & (4 if store else 2) != 0          # CL_MEM_READ_ONLY / CL_MEM_WRITE_ONLY
    args = [Ptr(mc.this), Ptr(mc.mem), Ptr(Region("entity"))] + [{"a": mc.a, "n": mc.n, "d": Ptr(Region("data", mode="byte")), "o": z3.BitVec("op", 32)}[c] for c in order]
    if exact:
        # nothing wrong with the access: no message at all
        st.assume(mc.valid); st.assume(z3.Not(forb)); mc.quiet = True
        mp.assumed = lambda k: Implies(mapped, z3.Not(mp.conflict(k, store)))
        for oc in t.reached(E.exec_fn(m.fn(H + sig), args, st)):
            E.oblige(oc.st, oc.kind == "ret", "checking an access never fails"); E.oblige(oc.st, Not(mc.reported(oc.st)), "a legal access is not reported")
        return
    g = z3.BitVec("ghost.mapping", 64); E.inputs["ghost.mapping"] = g
    for i, x in enumerate(("address", "offset", "size", "flags")): E.inputs["mapped " + x] = mp.f[i](g)
    st.assume(mp.inv(g))
    bad = z3.Or(z3.Not(mc.valid), forb, z3.And(mapped, z3.ULT(g, mp.N), mp.conflict(g, store)))
    st.assume(bad)
    def hint(E, d):
        return [("a conflict passed is reported", lambda s, v, k=k: Implies(z3.And(mapped, mc.valid, z3.ULT(g, mp.N), mp.conflict(g, store), z3.ULT(g * STR, bvv(v[k], 64))), mc.reported(s))) for k, (x, w) in d["vars"].items() if w == 64 and k[0] in ("po", "mo")] + \
               [("a forbidden access stays reported", lambda s, v: Implies(z3.And(mc.valid, forb), mc.reported(s)))]
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(m.fn(H + sig), args, st)):
        E.oblige(oc.st, oc.kind == "ret", "checking an access never fails"); E.oblige(oc.st, mc.reported(oc.st), "an illegal access is reported")
def t_map(t):
    E = t.engine(); st = State(); mc = MC(E, st); record(t, E, mc)
    E.oblige(State(), True, "every mapping is recorded once")
def t_unmap(t):
    E = t.engine(); st = State(); m = E.mod; mc = MC(E, st); mp = Maps(t, E, st, mc)
    g = z3.BitVec("ghost.mapping", 64); E.inputs["ghost.mapping"] = g; x = z3.BitVec("unmapped pointer", 64); E.inputs["unmapped pointer"] = x
    pt = lambda k: mc.ptrof(mp.start(k))
    def erase(E, st, a, I):
        p = a[1]
        if isinstance(p, PIte) or p.r is not mp.seq.r: p = C.it(E, st, a[1])
        e = mp.k(p.off)
        E.oblige(st, And(z3.ULT(e, mp.N), pt(e) == x), "only a mapping with the given pointer is removed")
        s = st.fork(); s.assume(z3.ULT(g, e)); E.oblige(s, pt(g) != x, "the oldest mapping with that pointer is removed")
        st.log("erase", 1); return p
    E.rmodels.insert(0, (re.compile(RLIST + r"erase\(std::_List_const_iterator<[^,]*>\)"), erase))
    E.hints.append(lambda E, d: [("no mapping passed has the pointer", lambda s, v, k=k: Implies(And(z3.ULT(g, mp.N), z3.ULT(g * STR, bvv(v[k], 64))), pt(g) != x)) for k, (_, w) in d["vars"].items() if w == 64 and k[0] in ("po", "mo")])
    st.assume(mp.inv(g))
    for oc in t.reached(E.exec_fn(m.fn(H + "memoryUnmap"), [Ptr(mc.this), Ptr(mc.mem), z3.BitVec("addr", 64), Ptr(None, x)], st)):
        n = len(oc.st.ghost.get("erase", ()))
        E.oblige(oc.st, oc.kind == "ret" and n <= 1, "at most one mapping is removed")
        if n == 0: s = oc.st.fork(); s.assume(z3.ULT(g, mp.N)); E.oblige(s, pt(g) != x, "a mapping with the given pointer is removed")
# ---------------------------------------------------------------- static array bounds
def t_array(t):
    """each index into an array type along the index list is compared with the array's size; nothing else is reported"""
    from memins import TyChain
    E = t.engine(); st = State(); m = E.mod; mc = MC(E, st); tc = TyChain(E); tc.install(); B = z3.BitVecSort; E.cut_at = 1
    n = z3.BitVec("indices", 64); E.inputs["indices"] = n; st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 1 << 20)))
    if t.params is not None: n = z3.BitVecVal(t.params, 64)
    num = z3.Function("array_elements", B(64), B(64))
    uses = Region("operand list"); first = 32; pty = Region("pointer type")
    gepi = Region("getelementptr")
    cls = "llvm::GetElementPtrInst::"
    E.models[cls + "idx_begin"] = lambda E, st, a, I: Ptr(uses, first); E.models[cls + "idx_end"] = lambda E, st, a, I: Ptr(uses, first + n * 32)
    E.models[cls + "getPointerOperandType"] = lambda E, st, a, I: Ptr(pty); E.models[cls + "getSourceElementType"] = lambda E, st, a, I: tc.at(0)
    E.models[cls + "getNumIndices"] = lambda E, st, a, I: trunc(n, 64, 32)
    def wrap(nm, v):
        old = E.models[nm]
        def h(E, st, a, I):
            q = a[0]
            if isinstance(q, Ptr) and q.r is pty: return v
            return old(E, st, a, I)
        E.models[nm] = h
    T = "llvm::Type::"
    for k, v in (("isArrayTy", False), ("isVectorTy", False), ("isStructTy", False), ("isPointerTy", True)): wrap(T + k, v)
    E.models[T + "getArrayNumElements"] = lambda E, st, a, I: (E.oblige(st, And(tc.is_(a[0]), tc.kind(bvv(a[0].off, 64)) == 0), "size of an array type"), num(bvv(a[0].off, 64)))[1]
    vals = Region("index operands")
    def uget(E, st, a, I):
        q = one(E, st, a[0])
        if q.r is not uses: raise Unsupported("operand use")
        return Ptr(vals, sub(z3.LShR(bvv(q.off, 64), 5), 1, 64))
    E.models["llvm::Use::get"] = uget; E.rmodels.insert(0, (re.compile(r"^llvm::Use::operator llvm::Value\*|^llvm::Use::operator->"), uget))
    wi = Region("work-item"); dat = Region("index data")
    def getop(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::getOperand"); q = one(E, st, a[1])
        E.oblige(st, And(peq(a[0], Ptr(wi)), q.r is vals), "indices of the accessing work-item"); return (z3.BitVec("szn", 64), Ptr(dat, q.off))
    E.models["oclgrind::WorkItem::getOperand"] = getop
    def sint(E, st, a, I):
        E.used_contracts.add("oclgrind::TypedValue::getSInt"); p = one(E, st, st.load(E, pgep(a[0], 8), 8, "ptr"))
        return tc.idx(bvv(p.off, 64))
    E.models["oclgrind::TypedValue::getSInt"] = sint
    g = z3.BitVec("ghost.index", 64); E.inputs["ghost.index"] = g
    # type level i is indexed by index i+1
    over = lambda i: z3.And(tc.kind(i - 1) == 0, z3.UGE(tc.idx(i), num(i - 1)))
    E.inputs["index value"] = tc.idx(g); E.inputs["array size"] = num(g - 1); E.inputs["type kind"] = tc.kind(g - 1)
    exact = t.exact
    if exact: mc.quiet = True
    else: st.assume(z3.And(z3.UGE(g, 1), z3.ULT(g, n), over(g)))
    def hint(E, d):
        c = []; V = [k for k, (x, w) in d["vars"].items() if w == 64]
        # a level position and an index position
        for a in V:
            for b in V:
                if a == b: continue
                c.append(("type level follows the index", lambda s, v, a=a, b=b: eq((bvv(v[a], 64) + 2) * 32, bvv(v[b], 64))))
            c.append(("position within the indices", lambda s, v, a=a: z3.And(z3.UGE(bvv(v[a], 64), 64), z3.ULE(bvv(v[a], 64), first + n * 32), bvv(v[a], 64) & 31 == 0)))
            c.append(("position within the indices", lambda s, v, a=a: z3.And(z3.ULE(bvv(v[a], 64), first + n * 32), bvv(v[a], 64) & 31 == 0)))
            if not exact: c.append(("an index passed is reported", lambda s, v, a=a: Implies(z3.ULT(first + g * 32, bvv(v[a], 64)), mc.reported(s))))
        return c
    E.hints.append(hint)
    if exact:
        def assume(st, i): st.assume(Implies(And(z3.UGE(i, 1), z3.ULT(i, n)), z3.Not(over(i))))
        old = E.models["oclgrind::WorkItem::getOperand"]
        def getop2(E, st, a, I): q = one(E, st, a[1]); assume(st, bvv(q.off, 64)); return old(E, st, a, I)
        E.models["oclgrind::WorkItem::getOperand"] = getop2
    for oc in t.reached(E.exec_fn(m.fn(H + "checkArrayAccess"), [Ptr(mc.this), Ptr(wi), Ptr(gepi)], st)):
        E.oblige(oc.st, oc.kind == "ret", "checking an access never fails")
        E.oblige(oc.st, Not(mc.reported(oc.st)) if exact else mc.reported(oc.st), "in-bounds indices are not reported" if exact else "an index beyond a static array is reported")
def t_array_e(t): t.exact = True; t_array(t)
def t_array_r(t): t.exact = False; t_array(t)
def t_inst(t):
    """every getelementptr in the address computation of a load or store is checked exactly once, nothing else is"""
    E = t.engine(); st = State(); m = E.mod; mc = MC(E, st)
    from lworld import opcodes
    op = z3.BitVec("opcode", 32); E.inputs["opcode"] = op; ins = Region("instruction"); ch = Region("address chain"); wi = Region("work-item")
    ins.base[("c", 0, 8)] = 0
    n = z3.BitVec("chain length", 64); E.inputs["chain length"] = n; st.assume(z3.ULE(n, 1 << 30))
    if t.params is not None: n = z3.BitVecVal(t.params, 64)
    isl, iss = op == opcodes()["Load"], op == opcodes()["Store"]
    def dyn(E, st, a, I):
        dem = E.mod.fns[I["fn"]].dem; p = one(E, st, a[0])
        if p.r is ins: c = isl if "LoadInst" in dem.split(",")[0] else iss if "StoreInst" in dem.split(",")[0] else False
        elif p.r is ch and "GetElementPtrInst" in dem.split(",")[0]:
            E.oblige(st, bvv(p.off, 64) & 63 == 32, "pointer casts are looked through"); c = z3.ULT(z3.LShR(bvv(p.off, 64), 6), n)
        else: raise Unsupported(dem)
        return c if "isa<" in dem else pite(c, p, NULL)
    E.rmodels.insert(0, (re.compile(r"llvm::(dyn_cast|isa)(_or_null)?<llvm::\w+(, .*)?>\("), dyn))
    def ptrop(c):
        def h(E, st, a, I): E.oblige(st, And(c, peq(a[0], Ptr(ins))), "pointer operand of this kind of instruction"); return Ptr(ch, 0)
        return h
    E.models["llvm::LoadInst::getPointerOperand"] = ptrop(isl); E.models["llvm::StoreInst::getPointerOperand"] = ptrop(iss)
    E.models["llvm::Instruction::getOpcode"] = lambda E, st, a, I: op
    def strip(E, st, a, I): p = one(E, st, a[0]); return Ptr(ch, bvv(p.off, 64) | 32)
    E.models["llvm::Value::stripPointerCasts"] = strip
    def gpo(E, st, a, I):
        p = one(E, st, a[0]); return Ptr(ch, (bvv(p.off, 64) & ~z3.BitVecVal(63, 64)) + 64)
    E.models["llvm::GetElementPtrInst::getPointerOperand"] = gpo
    cnt = Region("ghost count"); cnt.base = {("c", 0, 8): 0}; cv = lambda s: bvv(s.load(E, Ptr(cnt), 8), 64)
    def chk(E, st, a, I):
        E.used_contracts.add(H + "checkArrayAccess"); p = one(E, st, a[2])
        E.oblige(st, And(peq(a[1], Ptr(wi)), p.r is ch, eq(bvv(p.off, 64), cv(st) * 64 + 32), z3.ULT(cv(st), n)), "each getelementptr is checked once, in order")
        st.store(E, Ptr(cnt), 8, cv(st) + 1); return 0
    E.models[H + "checkArrayAccess"] = chk
    def hint(E, d):
        c = []
        for k, (x, w) in d["vars"].items():
            if w == 64:
                c.append(("getelementptrs checked so far", lambda s, v, k=k: And(bvv(v[k], 64) == cv(s) * 64, z3.ULE(cv(s), n))))
                c.append(("getelementptrs checked so far", lambda s, v, k=k: And(bvv(v[k], 64) == cv(s) * 64 + 32, z3.ULE(cv(s), n))))
        return c
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(m.fn(H + "instructionExecuted"), [Ptr(mc.this), Ptr(wi), Ptr(ins), Ptr(Region("result"))], st)):
        E.oblige(oc.st, oc.kind == "ret", "no exception")
        E.oblige(oc.st, eq(cv(oc.st), z3.If(z3.Or(isl, iss), n, z3.BitVecVal(0, 64))), "the whole address computation of loads and stores is checked")
# ---------------------------------------------------------------- messages
def t_msg(t, fn):
    E = t.engine(); st = State(); m = E.mod; mc = MC(E, st); ctx = mc.ctx
    E.models.pop(H + "logInvalidAccess", None); E.models.pop("oclgrind::Context::logError", None)
    M_ = "oclgrind::Context::Message::"; ERR = m.enum("MessageType", "ERROR")
    def ctor(E, st, a, I): st.log("ctor", (one(E, st, a[0]).r, a[1], a[2])); return 0
    E.models[M_ + "Message"] = ctor
    def send(E, st, a, I): st.log("send", one(E, st, a[0]).r); return 0
    E.models[M_ + "send"] = send; E.models[M_ + "~Message"] = lambda E, st, a, I: 0
    E.models["oclgrind::getAddressSpaceName"] = lambda E, st, a, I: Ptr(Region("name", mode="byte"))
    E.rmodels.insert(0, (re.compile(r"oclgrind::Context::Message::operator<<"), lambda E, st, a, I: a[0]))
    args = [Ptr(ctx), Ptr(Region("text", mode="byte"))] if fn.endswith("logError") else [Ptr(mc.this), z3.Bool("read"), mc.sp, mc.a, mc.n]
    for oc in t.reached(E.exec_fn(m.fn(fn), args, st)):
        c, s = oc.st.ghost.get("ctor", ()), oc.st.ghost.get("send", ())
        E.oblige(oc.st, oc.kind == "ret" and len(c) == 1 and len(s) == 1 and c[0][0] is s[0] and And(eq(bvv(c[0][1], 32), ERR), peq(c[0][2], Ptr(ctx))), "exactly one error message is sent")
# ---------------------------------------------------------------- notifications reach every plugin
def vslot(m, cls, name):
    g = m.globals["_ZTVN8oclgrind%d%sE" % (len(cls), cls)]
    hits = [o for o, v in g["rel"] if v[0] == "g" and v[1] in m.fns and re.match(r"oclgrind::(%s|Plugin)::" % cls + name + "$", m.fns[v[1]].dem)]
    if len(hits) != 1: raise Unsupported("virtual function " + name)
    return hits[0] - 16
PL = r"std::pair<oclgrind::Plugin\*, bool>"
def t_notify(t, fn, case, cb, order):
    """case: None | 'item' | 'group' | 'host' | 'none' (who is executing)"""
    E = t.engine(); st = State(); m = E.mod; ctx = Region("context")
    N = z3.BitVec("plugins", 64); E.inputs["plugins"] = N; st.assume(z3.ULE(N, 1 << 30))
    if t.params is not None: N = z3.BitVecVal(t.params, 64)
    ki = Region("kernel invocation"); wi, wg = Region("work-item"), Region("work-group")
    ctx.base[("c", m.field("Context", "m_kernelInvocation"), 8)] = NULL if case == "host" else Ptr(ki)
    K = "oclgrind::KernelInvocation::"
    E.models[K + "getCurrentWorkItem"] = lambda E, st, a, I: Ptr(wi) if case == "item" else NULL
    E.models[K + "getCurrentWorkGroup"] = lambda E, st, a, I: Ptr(wg) if case in ("item", "group") else NULL
    obj = Region("plugin", fam=True); vt = Region("vtable", fam=True); obj.schemafn = lambda off: ((lambda E, i, o, tg: Ptr(vt, 0, i)) if isc(off) and off == 0 else None)
    fns = {}
    cnt = Region("ghost count"); cnt.base = {("c", 0, 8): 0}; cv = lambda s: bvv(s.load(E, Ptr(cnt), 8), 64)
    A = {"mem": Ptr(Region("memory")), "a": z3.BitVec("address", 64), "n": z3.BitVec("n", 64), "d": Ptr(Region("data", mode="byte")), "op": z3.BitVec("op", 32), "off": z3.BitVec("offset", 64), "fl": z3.BitVec("flags", 64), "ent": Ptr(wi) if case == "item" else Ptr(wg), "p": Ptr(None, z3.BitVec("ptr", 64))}
    want = vslot(m, "MemCheck", cb) if cb else None
    cbo = [x for x in order[1]]
    def mkfn(off):
        def h(E, st, a, I):
            E.oblige(st, off == want, "the notification names the right event")
            p = one(E, st, a[0]); c = cv(st)
            E.oblige(st, And(p.r is obj, eq(bvv(p.inst, 64), c), z3.ULT(c, N)), "each plugin is notified once, in order")
            for x, y in zip(a[1:], cbo): E.oblige(st, peq(x, A[y]) if isinstance(A[y], Ptr) else eq(bvv(x, A[y].size()), A[y]), "plugins receive the event's own arguments")
            st.store(E, Ptr(cnt), 8, c + 1); return 0
        return h
    def vfn(off):
        if off not in fns: r = Region("virtual function %s" % off); r.fnptr = mkfn(off); fns[off] = r
        return Ptr(fns[off])
    vt.schemafn = lambda off: (lambda E, i, o, tg: vfn(o))
    def elem(off):
        def g(E, i, o, tg):
            if E.fieldof(sq.r, o) != 0: raise Unsupported("field of a plugin entry")
            return Ptr(obj, 0, z3.simplify(z3.LShR(bvv(o, 64), 6)))
        return g
    sq = C.Seq(E, "m_plugins", STR, elem)
    def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
    L = r"^std::(__cxx11::)?list<%s,.*>::" % PL
    pre(L + r"c?begin\(\)", lambda E, st, a, I: Ptr(sq.r, 0)); pre(L + r"c?end\(\)", lambda E, st, a, I: Ptr(sq.r, mul(N, STR, 64)))
    IT = r"^std::_List_(const_)?iterator<%s\s?>" % PL
    C.seq_iter(E, IT, STR); C.iter_cmp(E, r"std::_List_(const_)?iterator<" + PL)
    pre(IT + r"::_List_(const_)?iterator\(std::_List_(const_)?iterator<", lambda E, st, a, I: st.store(E, a[0], 8, C.it(E, st, a[1])) or 0)
    pre(IT + r"::_List_(const_)?iterator\(\)$", lambda E, st, a, I: 0)
    E.hints.append(lambda E, d: [("plugins notified so far", lambda s, v, k=k: And(eq(bvv(v[k], 64), cv(s) * STR), z3.ULE(cv(s), N))) for k, (x, w) in d["vars"].items() if w == 64])
    E.hints.append(lambda E, d: [("position within the plugin list", lambda s, v, k=k: z3.And(z3.ULE(bvv(v[k], 64), N * STR))) for k, (x, w) in d["vars"].items() if w == 64])
    for oc in t.reached(E.exec_fn(m.fn("oclgrind::Context::" + fn), [Ptr(ctx)] + [A[x] for x in order[0]], st)):
        E.oblige(oc.st, oc.kind == "ret", "no exception")
        E.oblige(oc.st, eq(cv(oc.st), N if cb else z3.BitVecVal(0, 64)), "every plugin is notified exactly once")
NOTIFY = []
for fn, cb, host, o in (("notifyMemoryLoad", "memoryLoad", "hostMemoryLoad", ["mem", "a", "n"]), ("notifyMemoryStore", "memoryStore", "hostMemoryStore", ["mem", "a", "n", "d"])):
    sfx = r"\(oclgrind::Memory const\*, oclgrind::%s const\*, .*"
    NOTIFY += [(fn, "item", cb + sfx % "WorkItem", (o, ["mem", "ent"] + o[1:])), (fn, "group", cb + sfx % "WorkGroup", (o, ["mem", "ent"] + o[1:])), (fn, "host", host + r"\(.*", (o, o)), (fn, "none", None, (o, o))]
for fn, cb in (("notifyMemoryAtomicLoad", "memoryAtomicLoad"), ("notifyMemoryAtomicStore", "memoryAtomicStore")):
    o = ["mem", "op", "a", "n"]; NOTIFY += [(fn, "item", cb + r"\(.*", (o, ["mem", "ent", "op", "a", "n"])), (fn, "none", None, (o, o))]
NOTIFY += [("notifyMemoryMap", None, r"memoryMap\(.*", (["mem", "a", "off", "n", "fl"],) * 2), ("notifyMemoryUnmap", None, r"memoryUnmap\(.*", (["mem", "a", "p"],) * 2)]
def each(f):
    """bounded re-runs: one per concrete length"""
    def run(t):
        ps = t.params
        for p in ps if ps is not None else [None]: t.params = p; f(t)
    return run
def tasks_P01():
    out = [Task("map", H + "memoryMap", t_map), Task("unmap", H + "memoryUnmap", each(t_unmap), fallback=[0, 1, 2, 3])]
    for nm in ENTRY:
        out.append(Task(nm + ": illegal reported", H + ENTRY[nm][1].split("(")[0], each(lambda t, nm=nm: t_access(t, nm, False)), fallback=[0, 1, 2, 3]))
        out.append(Task(nm + ": legal not reported", H + ENTRY[nm][1].split("(")[0], each(lambda t, nm=nm: t_access(t, nm, True)), fallback=[0, 1, 2, 3]))
    out += [Task("static array bounds: illegal reported", H + "checkArrayAccess", each(t_array_r), fallback=[2, 3, 4]), Task("static array bounds: legal not reported", H + "checkArrayAccess", each(t_array_e), fallback=[2, 3, 4]), Task("address computation", H + "instructionExecuted", each(t_inst), fallback=[0, 1, 2, 3])]
    out += [Task("invalid access message", H + "logInvalidAccess", lambda t: t_msg(t, H + "logInvalidAccess")), Task("error message", "oclgrind::Context::logError", lambda t: t_msg(t, "oclgrind::Context::logError"))]
    for x in NOTIFY: out.append(Task("%s (%s)" % (x[0], x[1]), "oclgrind::Context::" + x[0], each(lambda t, x=x: t_notify(t, *x)), fallback=[0, 1, 2, 3]))
    return out + tasks_M("P01")
