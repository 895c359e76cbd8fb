"""P03: contracts on the instruction counter.

A counter list is a sequence whose elements beyond its length count as zero; the list of called functions is seen through
one arbitrary function F (its position, or absent), so what is proved holds for every function.  The codes of loads, stores
and calls are read off the real instructionExecuted/workGroupBegin and only required to be distinct."""
import re, z3
from engine import *
from run import Task
from ndrange import pre
H = "oclgrind::InstructionCounter::"
NONE = (1 << 64) - 1
B = lambda x, w=64: b2z(x) if isinstance(x, bool) else bvv(x, w)
LOAD, STORE, CALL, OPS = 32, 33, 56, 68          # llvm::Instruction, LLVM 20
class Vec:
    def __init__(self, name, n=None): self.name = name; self.el = Region(name + " elements"); self.n = n
class IC:
    def __init__(self, t, null=False):
        self.t = t; self.E = E = t.engine(); self.m = m = E.mod; self.st = st = State(); E.cut_at = 0; E.cut_first = True; E.only_hints = True
        self.this = Region("InstructionCounter"); self.vecs = {}; self.gh = Region("ghost"); self.gh.base = {("c", 0, 8): 0}; self.ng = 8
        F = self.F = z3.BitVec("function F", 64); E.inputs["function F"] = F; st.assume(F != 0)
        self.fam = Region("function", fam=True)
        mk = lambda nm, p: self.vec(st, p, nm)
        fo = lambda k: m.field("InstructionCounter", k)
        self.Tc = mk("total counts", Ptr(self.this, fo("m_instructionCounts"))); self.Tm = mk("total bytes", Ptr(self.this, fo("m_memopBytes"))); self.Tf = mk("all functions", Ptr(self.this, fo("m_functions")))
        self.mtx = Ptr(self.this, fo("m_mtx"))
        g = next((n for n in m.globals if "InstructionCounter" in n and "m_state" in n), None)
        if g is None: raise Unsupported("the worker state")
        self.G = E.gptr(g); self.G.r.const = None; self.G.r.base = {}; so = lambda k: m.field("InstructionCounter::WorkerState", k)
        self.W = {}
        for k in ("instCounts", "memopBytes", "functions"):
            if null: self.G.r.base[("c", so(k), 8)] = NULL; continue
            r = Region("worker " + k); self.G.r.base[("c", so(k), 8)] = Ptr(r); self.W[k] = mk("worker " + k, Ptr(r))
        self.so = so; E.models["llvm.threadlocal.address"] = lambda E, st, a, I: a[0]
        pre(E, r"^llvm\.threadlocal\.address", lambda E, st, a, I: a[0])
        self.guard = False; self.models()
    # ---- lists
    def vec(self, st, p, name, new=False):
        v = Vec(name); self.vecs[(p.r, p.off)] = v; v.p = p; v.gp = self.ng; self.ng += 8; isf = "unctions" in name
        n, pos = (0, NONE) if new else (z3.BitVec("length of " + name, 64), z3.BitVec("position of F in " + name, 64))
        if not new:
            self.E.inputs[str(n)] = n; st.assume(z3.ULT(n, 1 << 30))
            if isf: self.E.inputs[str(pos)] = pos; st.assume(z3.Or(pos == NONE, z3.ULT(pos, n)))
            self.lencell(p, n); self.gh.base[("c", v.gp, 8)] = pos
        else: st.store(self.E, p, 8, 0); st.store(self.E, Ptr(self.gh, v.gp), 8, pos)
        v.isf = isf
        def elem(off):
            def f(E, inst, off, tag):
                u = z3.Function("element of %s %s" % (name, tag), z3.BitVecSort(64), z3.BitVecSort(64)); return Ptr(self.fam, 0, u(B(off)))
            return f
        cnt = z3.Function("element of " + name, z3.BitVecSort(64), z3.BitVecSort(64))
        v.el.schemafn = elem if isf else lambda off: lambda E, inst, off, tag: cnt(B(off))
        return v
    def lencell(self, p, n): p.r.base[("c", p.off, 8)] = n
    def of(self, st, p):
        out = []
        for s, q in self.E.resolve(st, p):
            v = self.vecs.get((q.r, q.off))
            if v is None:
                if not isinstance(q.r, Region): raise Unsupported("an unknown list")
                v = self.vec(s, q, "new functions %d" % self.ng if self.newf else "new list %d" % self.ng, new=True)
            if self.guard and v in (self.Tc, self.Tm, self.Tf): self.E.oblige(s, eq(s.load(self.E, Ptr(self.gh), 8), 1), "the totals are only touched under the lock")
            out.append((s, v))
        if len(out) != 1: raise Unsupported("ambiguous list")
        return out[0]
    newf = False
    def len(self, s, v): return B(s.load(self.E, v.p, 8))
    def pos(self, s, v): return B(s.load(self.E, Ptr(self.gh, v.gp), 8))
    def raw(self, s, v, j): return B(s.load(self.E, Ptr(v.el, mul(j, 8, 64)), 8))
    def val(self, s, v, j): return z3.If(z3.ULT(B(j), self.len(s, v)), self.raw(s, v, j), z3.BitVecVal(0, 64))
    def elem(self, s, v, j):
        p = s.load(self.E, Ptr(v.el, mul(j, 8, 64)), 8, "ptr"); return self.idf(p)
    def idf(self, p):
        if isinstance(p, PIte): return z3.If(b2z(p.c), self.idf(p.a), self.idf(p.b))
        if p.r is None: return z3.BitVecVal(0, 64)
        if p.r is not self.fam: raise Unsupported("not a function")
        return B(p.inst)
    def known(self, s, v, j):
        """F occurs exactly at its position (instance j)"""
        s.assume(z3.Implies(z3.ULT(B(j), self.len(s, v)), z3.And((self.elem(s, v, j) == self.F) == (self.pos(s, v) == B(j)), self.elem(s, v, j) != 0)))
    def models(self):
        E = self.E; V = r"^std::vector<.*>::"
        def vm(rx, f): pre(E, r"^(void |unsigned long )?std::vector<(unsigned long|llvm::Function const\*), std::allocator<\1?.*>\s*>::" .replace(r"\1?", "") + rx, f)
        def isfun(I): return "llvm::Function" in str(I.get("callee", "")) if I else False
        def size(E, st, a, I): s, v = self.of(st, a[0]); return self.len(s, v)
        def at(E, st, a, I):
            s, v = self.of(st, a[0]); j = B(a[1]); E.oblige(s, z3.ULT(j, self.len(s, v)), "an element of the %s is only accessed within its length" % v.name)
            if v.isf: self.known(s, v, j)
            return Ptr(v.el, mul(a[1], 8, 64))
        def resize(E, st, a, I):
            s, v = self.of(st, a[0]); old = self.len(s, v); n = B(a[1])
            if v.isf: raise Unsupported("resize of a list of functions")
            E.zero_from(s, v.el, Ptr(v.el, 0), mul(old, 8, 64), mul(n, 8, 64)); s.store(E, v.p, 8, n); return 0
        def clear(E, st, a, I): s, v = self.of(st, a[0]); s.store(E, v.p, 8, 0); s.store(E, Ptr(self.gh, v.gp), 8, NONE); return 0
        def assign(E, st, a, I):
            s, v = self.of(st, a[0]); n = B(a[1]); x = s.load(E, a[2], 8)
            if v.isf or not isc(x) or x: raise Unsupported("a list is filled with something else than zeros")
            s.store(E, v.p, 8, 0); E.zero_from(s, v.el, Ptr(v.el, 0), 0, mul(n, 8, 64)); s.store(E, v.p, 8, n); return 0
        def push(E, st, a, I):
            s, v = self.of(st, a[0]); n = self.len(s, v)
            if v.isf:
                f = s.load(E, a[1], 8, "ptr"); p = self.pos(s, v); F = self.idf(f) == self.F
                E.oblige(s, z3.Not(z3.And(F, p != NONE)), "a function is listed once"); s.store(E, Ptr(v.el, mul(n, 8, 64)), 8, f); s.store(E, Ptr(self.gh, v.gp), 8, z3.If(F, n, p))
            else: s.store(E, Ptr(v.el, mul(n, 8, 64)), 8, s.load(E, a[1], 8))
            s.store(E, v.p, 8, n + 1); return Ptr(v.el, mul(n, 8, 64))
        def begin(E, st, a, I): s, v = self.of(st, a[0]); return Ptr(v.el, 0)
        def end(E, st, a, I): s, v = self.of(st, a[0]); return Ptr(v.el, mul(self.len(s, v), 8, 64))
        vm(r"size\(\) const$", size); vm(r"(at|operator\[\])\(unsigned long\)( const)?$", at); vm(r"resize\(unsigned long\)$", resize); vm(r"assign\(unsigned long, unsigned long const&\)$", assign); vm(r"clear\(\)$", clear); vm(r"(push_back|emplace_back.*)\(", push)
        vm(r"(c?begin)\(\)( const)?$", begin); vm(r"(c?end)\(\)( const)?$", end); vm(r"empty\(\) const$", lambda E, st, a, I: (lambda sv: self.len(*sv) == 0)(self.of(st, a[0])))
        def ctor(f):
            def h(E, st, a, I):
                q = E.resolve(st, a[0])
                if len(q) != 1: raise Unsupported("ambiguous list")
                p = q[0][1]; self.vec(st, p, ("new functions %d" if f else "new list %d") % self.ng, new=True); return 0
            return h
        pre(E, r"^std::vector<unsigned long, std::allocator<unsigned long>\s*>::vector\(\)$", ctor(False)); pre(E, r"^std::vector<llvm::Function const\*, std::allocator<llvm::Function const\*>\s*>::vector\(\)$", ctor(True))
        def find(E, st, a, I):
            b, e = a[0], a[1]; f = self.idf(st.load(E, a[2], 8, "ptr"))
            v = next((v for v in self.vecs.values() if isinstance(b, Ptr) and v.el is b.r), None)
            if v is None or not v.isf: raise Unsupported("find in an unknown list")
            if self.guard and v is self.Tf: E.oblige(st, eq(st.load(E, Ptr(self.gh), 8), 1), "the totals are only touched under the lock")
            n = self.len(st, v); E.oblige(st, And(peq(b, Ptr(v.el, 0)), peq(e, Ptr(v.el, mul(n, 8, 64)))), "the whole list is searched")
            r = fresh("found at", 64); p = self.pos(st, v); st.assume(z3.And(z3.ULE(r, n), z3.If(f == self.F, r == z3.If(p == NONE, n, p), z3.Or(p == NONE, r != p))))
            st.assume(z3.Implies(z3.ULT(r, n), self.elem(st, v, r) == f)); self.known(st, v, r)
            return Ptr(v.el, mul(r, 8, 64))
        pre(E, r"std::find<.*llvm::Function const\*", find)
        it = lambda st, x: st.load(E, x, 8, "ptr")
        pre(E, r"^bool __gnu_cxx::operator==<(llvm::Function const\*|unsigned long)( const)?\*", lambda E, st, a, I: peq(it(st, a[0]), it(st, a[1]))); pre(E, r"^bool __gnu_cxx::operator!=<(llvm::Function const\*|unsigned long)( const)?\*", lambda E, st, a, I: Not(peq(it(st, a[0]), it(st, a[1]))))
        def dist(E, st, a, I):
            p, q = it(st, a[0]), it(st, a[1])
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is q.r): raise Unsupported("iterators of different lists")
            d = z3.simplify(B(sub(p.off, q.off, 64)))
            return self.div8(st, d)
        pre(E, r"__gnu_cxx::operator-<llvm::Function const\*\*", dist)
        def lk(v):
            def h(E, st, a, I):
                E.oblige(st, And(peq(a[0], self.mtx), eq(st.load(E, Ptr(self.gh), 8), 1 - v)), "the counter's own lock is taken and released in turn"); st.store(E, Ptr(self.gh), 8, v); return 0
            return h
        pre(E, r"^std::mutex::lock\(\)$", lk(1)); pre(E, r"^std::mutex::unlock\(\)$", lk(0))
    def div8(self, st, d):
        x = fresh("distance", 64); st.assume(z3.And(x * 8 == d, z3.ULT(x, 1 << 60))); return x
    def inst(self, op, null=False):
        """an instruction with an opcode; loads and stores have an address space and a value type, calls a called function"""
        E = self.E; st = self.st; self.I = Region("instruction"); self.asp = z3.BitVec("address space", 32); E.inputs["address space"] = self.asp; st.assume(z3.ULE(self.asp, 4))
        self.bytes = z3.BitVec("bytes", 32); E.inputs["bytes"] = self.bytes; T, TS, V = Region("type of the loaded value"), Region("type of the stored value"), Region("stored value")
        isI = lambda a: E.oblige
        def on(nm, f):
            def h(E, st, a, I):
                E.oblige(st, peq(a[0], Ptr(self.I)), "the executed instruction is looked at"); return f
            pre(E, nm, h)
        on(r"^llvm::Instruction::getOpcode\(\) const$", op); on(r"^llvm::(LoadInst|StoreInst)::getPointerAddressSpace\(\) const$", self.asp); on(r"^llvm::StoreInst::getValueOperand\(\)( const)?$", Ptr(V))
        self.f = z3.BitVec("called function", 64); E.inputs["called function"] = self.f; st.assume(self.f != 0 if not null else self.f == 0)
        on(r"^llvm::CallBase::getCalledFunction\(\) const$", NULL if null else Ptr(self.fam, 0, self.f))
        def ty(E, st, a, I):
            p = a[0]
            if isinstance(p, Ptr) and p.r is self.I: return Ptr(T)
            if isinstance(p, Ptr) and p.r is V: return Ptr(TS)
            raise Unsupported("type of another value")
        pre(E, r"^llvm::Value::getType\(\) const$", ty)
        want = T if isc(op) and op == LOAD else TS
        def sz(E, st, a, I): E.oblige(st, peq(a[0], Ptr(want)), "the size is that of the value moved"); return self.bytes
        E.models["oclgrind::getTypeSize"] = sz; pre(E, r"^oclgrind::getTypeSize\(", sz)
        return [Ptr(self.this), Ptr(Region("work-item")), Ptr(self.I), Ptr(Region("result"))]
_codes = {}
def codes(t):
    """(code of load from space 0, store, direct calls; list lengths set up by workGroupBegin)"""
    if "c" in _codes: return _codes["c"]
    ic = IC(t); E = ic.E; o = [o for o in E.exec_fn(ic.m.fn(H + "workGroupBegin"), [Ptr(ic.this), Ptr(Region("group"))], ic.st) if o.kind == "ret"]
    if len(o) != 1: raise Unsupported("workGroupBegin")
    s = o[0].st; n, nm = z3.simplify(ic.len(s, ic.W["instCounts"])), z3.simplify(ic.len(s, ic.W["memopBytes"]))
    if not (z3.is_bv_value(n) and z3.is_bv_value(nm)): raise Unsupported("lengths set up by workGroupBegin")
    r = []
    for op in (LOAD, STORE):
        ic = IC(t); E = ic.E; a = ic.inst(op); w = ic.W["instCounts"]; wm = ic.W["memopBytes"]; st = ic.st; st.assume(ic.asp == 0); ic.lencell(w.p, n.as_long()); ic.lencell(wm.p, nm.as_long())
        for o in E.exec_fn(ic.m.fn(H + "instructionExecuted"), a, st):
            if o.kind != "ret": raise Unsupported("instructionExecuted throws")
            for v in (w, wm):
                nd = o.st.mem.get(v.el); x = z3.BitVec("x", 64)
                if nd is None or nd.k != "St": raise Unsupported("instructionExecuted writes no count")
                sol = z3.Solver(); sol.add(*o.st.pc); sol.add(x * 8 == B(nd.off), z3.ULT(x, 1 << 20))
                if sol.check() != z3.sat: raise Unsupported("code")
                r.append(sol.model()[x].as_long())
    t.engines[:] = [e for e in t.engines if e not in (ic.E,)]
    _codes["c"] = (r[0], r[2], n.as_long(), nm.as_long(), r[1], r[3]); return _codes["c"]
def distinct(E, st, c):
    L, S, C, NM, ml, ms = c
    E.oblige(st, L >= OPS and S >= OPS and C >= max(L, S) + 5 and (L + 5 <= S or S + 5 <= L) and NM >= max(ml, ms) + 5 and (ml + 5 <= ms or ms + 5 <= ml), "loads and stores of every address space, calls and other instructions are counted apart")
def start(ic, c, j=None):
    """the worker's lists as between two instructions: lengths in step"""
    C, NM = c[2], c[3]; st = ic.st; w, wm, wf = ic.W["instCounts"], ic.W["memopBytes"], ic.W["functions"]
    ic.lencell(wm.p, NM); n = ic.len(st, wf); st.assume(z3.ULT(n, 1 << 28)); ic.lencell(w.p, n + C); return w, wm, wf, n
def t_executed(t, kind):
    c = codes(t); L, S, C, NM, ml, ms = c
    op = {"load": LOAD, "store": STORE, "call": CALL, "indirect": CALL, "other": None}[kind]
    ic = IC(t); E = ic.E; st = ic.st
    if op is None:
        op = z3.BitVec("opcode", 32); E.inputs["opcode"] = op; st.assume(z3.And(z3.ULT(op, OPS), *[op != x for x in (LOAD, STORE, CALL)]))
    a = ic.inst(op, kind == "indirect"); w, wm, wf, n = start(ic, c); j = z3.BitVec("counter", 64); k = z3.BitVec("bytes counter", 64); e = z3.BitVec("list index", 64); E.inputs.update(counter=j); st.assume(z3.And(z3.ULT(j, 1 << 31), z3.ULT(k, NM), z3.ULT(e, 1 << 30)))
    ic.known(st, wf, e); p0 = ic.pos(st, wf); v0 = ic.val(st, w, j); m0 = ic.val(st, wm, k); vF0 = z3.If(p0 == NONE, z3.BitVecVal(0, 64), ic.val(st, w, p0 + C)); el0 = ic.elem(st, wf, e)
    tot0 = [(v, ic.len(st, v)) for v in (ic.Tc, ic.Tm, ic.Tf)]
    distinct(E, st, c)
    for oc in t.reached(E.exec_fn(ic.m.fn(H + "instructionExecuted"), a, st)):
        s = oc.st; O = lambda g, nm: E.oblige(s, g, nm)
        O(oc.kind == "ret", "no exception"); ic.known  # noqa
        p1 = ic.pos(s, wf); n1 = ic.len(s, wf); z64 = lambda x: z3.ZeroExt(32, x)
        O(z3.And(ic.len(s, w) == n1 + C, ic.len(s, wm) == NM), "the lists stay in step")
        one = lambda cnd: z3.If(cnd, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        if kind == "call":
            O(z3.Implies(z3.ULT(j, C), ic.val(s, w, j) == v0), "a direct call is not counted as anything else")
            isF = ic.f == ic.F
            O(z3.If(isF, z3.And(z3.ULT(p1, n1), p1 == z3.If(p0 == NONE, n, p0)), p1 == p0), "the called function is listed, and only it is added")
            O(n1 == n + z3.If(z3.And(isF, p0 == NONE), z3.BitVecVal(1, 64), n1 - n), "the list of functions grows by the new function only")
            O(z3.Implies(isF, ic.val(s, w, p1 + C) == vF0 + 1), "the call is counted once, under its function")
            O(z3.Implies(z3.And(isF, j != p1 + C), ic.val(s, w, j) == v0), "nothing else is counted")
            O(z3.Implies(z3.And(z3.Not(isF), p1 != NONE), ic.val(s, w, p1 + C) == vF0), "calls of other functions are not counted")
            O(z3.Implies(z3.ULT(e, n1), (ic.elem(s, wf, e) == ic.F) == (p1 == e)), "a function is listed at one place")
        else:
            code = z64(ic.asp) + L if kind == "load" else z64(ic.asp) + S if kind == "store" else z64(bvv(op, 32))
            O(ic.val(s, w, j) == v0 + one(j == code), "the instruction is counted exactly once, under its own kind")
            O(z3.And(n1 == n, p1 == p0), "the list of functions is unchanged")
        if kind in ("load", "store"): O(ic.val(s, wm, k) == m0 + z3.If(k == z64(ic.asp) + (ml if kind == "load" else ms), z64(ic.bytes), z3.BitVecVal(0, 64)), "the bytes moved are added once, to the instruction's address space")
        else: O(ic.val(s, wm, k) == m0, "no bytes are counted")
        O(And(*[eq(ic.len(s, v), l) for v, l in tot0]), "the totals are not touched")
def t_begin(t, null):
    c = codes(t); L, S, C, NM, ml, ms = c
    ic = IC(t, null); E = ic.E; st = ic.st; j = z3.BitVec("counter", 64); st.assume(z3.ULT(j, 1 << 31))
    for oc in t.reached(E.exec_fn(ic.m.fn(H + "workGroupBegin"), [Ptr(ic.this), Ptr(Region("group"))], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); g = []
        W = {}
        for k in ("instCounts", "memopBytes", "functions"):
            p = s.load(E, Ptr(ic.G.r, ic.so(k)), 8, "ptr"); ic.newf = k == "functions"; W[k] = ic.of(s, p)[1]
        E.oblige(s, len({id(v) for v in W.values()}) == 3, "three separate lists")
        E.oblige(s, And(ic.len(s, W["instCounts"]) == C, ic.len(s, W["memopBytes"]) == NM, ic.len(s, W["functions"]) == 0, ic.val(s, W["instCounts"], j) == 0, ic.val(s, W["memopBytes"], j) == 0), "a work-group starts with all counts zero")
        E.oblige(s, ic.pos(s, W["functions"]) == NONE, "a work-group starts with no functions"); distinct(E, s, c)
def t_kbegin(t):
    c = codes(t); ic = IC(t); E = ic.E; st = ic.st; j = z3.BitVec("counter", 64); st.assume(z3.ULT(j, 1 << 31))
    for oc in t.reached(E.exec_fn(ic.m.fn(H + "kernelBegin"), [Ptr(ic.this), Ptr(Region("invocation"))], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception")
        E.oblige(s, And(ic.val(s, ic.Tc, j) == 0, ic.val(s, ic.Tm, j) == 0, ic.len(s, ic.Tm) == c[3], ic.len(s, ic.Tf) == 0, ic.pos(s, ic.Tf) == NONE), "a kernel starts with all totals zero and no functions")
        E.oblige(s, z3.Or(ic.len(s, ic.Tc) == 0, z3.UGE(ic.len(s, ic.Tc), c[2])), "a kernel starts with all totals zero and no functions")
def t_merge(t):
    c = codes(t); L, S, C, NM, ml, ms = c
    ic = IC(t); E = ic.E; st = ic.st; w, wm, wf, n = start(ic, c); Tc, Tm, Tf = ic.Tc, ic.Tm, ic.Tf; ic.guard = True
    ic.lencell(Tm.p, NM)
    N0, l0 = ic.len(st, Tc), ic.len(st, Tf); st.assume(z3.And(z3.ULT(l0, 1 << 28), z3.Or(z3.And(N0 == 0, l0 == 0), z3.UGE(N0, l0 + C))))
    j = z3.BitVec("counter", 64); k = z3.BitVec("bytes counter", 64); st.assume(z3.And(z3.ULT(j, C), z3.ULT(k, NM))); E.inputs["counter"] = j
    q = z3.BitVec("slot", 64); st.assume(z3.And(z3.UGE(q, C), z3.ULT(q, 1 << 31), z3.Implies(z3.UGE(q, l0 + C), ic.val(st, Tc, q) == 0)))     # F's final slot (any): unassigned slots hold zero
    z = z3.BitVecVal(0, 64); pw, pt = ic.pos(st, wf), ic.pos(st, Tf)
    tF = lambda s: z3.If(ic.pos(s, Tf) == NONE, z, ic.val(s, Tc, ic.pos(s, Tf) + C))
    wj, v0, bk, m0, t0 = ic.val(st, w, j), ic.val(st, Tc, j), ic.val(st, wm, k), ic.val(st, Tm, k), tF(st)
    wF = z3.If(pw == NONE, z, ic.val(st, w, pw + C))
    def facts(i):
        inW = pw != NONE; done = z3.And(inW, z3.ULT(pw + C, i)) if i is not None else None
        return [("counters below are merged", lambda s: ic.val(s, Tc, j) == v0 + z3.If(z3.ULT(j, i), wj, z)),
                ("bytes below are merged", lambda s: ic.val(s, Tm, k) == m0 + z3.If(z3.ULT(k, i), bk, z)),
                ("calls of F are merged once passed", lambda s: z3.Or(z3.And(ic.pos(s, Tf) != NONE, ic.pos(s, Tf) + C != q), tF(s) == t0 + z3.If(done, wF, z))),
                ("F is listed only when met", lambda s: z3.If(pt != NONE, ic.pos(s, Tf) == pt, z3.Or(ic.pos(s, Tf) == NONE, z3.And(done, z3.ULT(ic.pos(s, Tf), ic.len(s, Tf)))))),
                ("functions grow with the counter", lambda s: z3.ULE(ic.len(s, Tf), l0 + i)), ("counter in range", lambda s: z3.ULE(i, n + C))]
    unas = lambda s: z3.Implies(z3.UGE(q, ic.len(s, Tf) + C), ic.val(s, Tc, q) == 0)
    def hint(E, d):
        out = [("unassigned slots hold zero", lambda s, v: unas(s)), ("the totals have room for every function", lambda s, v: z3.UGE(ic.len(s, Tc), ic.len(s, Tf) + C)), ("the totals only grow", lambda s, v: z3.And(z3.UGE(ic.len(s, Tc), N0), z3.UGE(ic.len(s, Tc), n + C), z3.ULT(ic.len(s, Tc), 1 << 31))),
               ("functions only grow", lambda s, v: z3.And(z3.UGE(ic.len(s, Tf), l0), z3.ULT(ic.len(s, Tf), 1 << 30))), ("the lock is held", lambda s, v: b2z(eq(s.load(E, Ptr(ic.gh), 8), 1)))]
        out += [("position of F in range", lambda s, v: z3.Or(ic.pos(s, Tf) == NONE, z3.ULT(ic.pos(s, Tf), ic.len(s, Tf))))]
        for key, (x, wd) in d["vars"].items():
            if key[0] not in ("p", "m") or key[0] == "m" and not key[1].local or wd not in (32, 64): continue
            for q in range(len(facts(z))):
                nm = facts(z)[q][0]; out.append((nm, lambda s, v, key=key, wd=wd, q=q: facts(zext(bvv(v[key], wd), wd, 64))[q][1](s)))
        return out
    E.hints.append(hint); distinct(E, st, c)
    for oc in t.reached(E.exec_fn(ic.m.fn(H + "workGroupComplete"), [Ptr(ic.this), Ptr(Region("group"))], st)):
        s = oc.st; O = lambda g, nm: E.oblige(s, g, nm)
        O(oc.kind == "ret", "no exception"); O(ic.val(s, Tc, j) == v0 + wj, "every count of the work-group is added to the total once")
        O(ic.val(s, Tm, k) == m0 + bk, "the bytes moved by the work-group are added to the total once"); O(unas(s), "a slot without a function holds zero"); O(z3.Or(z3.And(ic.pos(s, Tf) != NONE, ic.pos(s, Tf) + C != q), tF(s) == t0 + wF), "the calls of every function are added to the function's total once")
        O(z3.And(z3.UGE(ic.len(s, Tc), ic.len(s, Tf) + C), ic.len(s, Tm) == NM), "the totals have room for every function"); O(eq(s.load(E, Ptr(ic.gh), 8), 0), "the lock is released")
def tasks_P03(mod):
    out = [Task("count " + k, H + "instructionExecuted", lambda t, k=k: t_executed(t, k)) for k in ("load", "store", "call", "indirect", "other")]
    out += [Task("work-group begins" + (" (first of a worker)" if z else ""), H + "workGroupBegin", lambda t, z=z: t_begin(t, z)) for z in (False, True)]
    out += [Task("kernel begins", H + "kernelBegin", t_kbegin), Task("work-group complete", H + "workGroupComplete", t_merge)]
    return out
