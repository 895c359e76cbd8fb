"""Control flow of the interpreter: branches, switches, phis, calls, returns, and the step loop that sequences them."""
import re, z3
from engine import *
from lworld import *
from memins import wi_world, same, eqb
from run import Task
import containers as C
H = "oclgrind::WorkItem::"
VALP = "std::pair<llvm::Value const* const, oclgrind::TypedValue>"

def upto(E, n):
    """candidate invariants: counters stay within the number of elements"""
    def hint(E, d): return [("counter within the number of elements", lambda s, v, k=k: z3.ULE(bvv(v[k], 64), n)) for k, (x, w) in d["vars"].items() if w == 64]
    E.hints.append(hint)
class Block:
    """a basic block with n instructions"""
    def __init__(self, E, name):
        self.n = z3.BitVec(name + ".instructions", 64); self.r = Region("block " + name); self.r.blk = self
        self.ins = Region("instructions of " + name); self.ins.block = Ptr(self.r); self.ins.blk = self
    @property
    def p(self): return Ptr(self.r)
    def at(self, i): return Ptr(self.ins, mul(i, C.ISTRIDE, 64))
def blocks(E):
    def bq(f):
        def h(E, st, a, I): return [(s, f(q.r.blk)) for s, q in E.resolve(st, a[0])]
        return h
    E.models["llvm::BasicBlock::begin"] = bq(lambda b: (b.at(0), 1)); E.models["llvm::BasicBlock::end"] = bq(lambda b: (b.at(b.n), 0))
    E.models["llvm::BasicBlock::getTerminator"] = bq(lambda b: b.at(b.n - 1))
    E.models["llvm::BasicBlock::front"] = bq(lambda b: b.at(0)); E.models["llvm::BasicBlock::back"] = bq(lambda b: b.at(b.n - 1))
class Pos:
    def __init__(self, E, st, inst, w):
        m = E.mod; self.E = E; self.r = w.pos
        F_ = lambda *k: m.field("WorkItem::Position", *k)
        self.f = dict((k, F_(k)) for k in ("hasBegun", "prevBlock", "currBlock", "nextBlock", "currInst", "callStack", "allocations"))
        self.A = Block(E, "current"); self.Bp = Block(E, "previous")
        i = z3.BitVec("position", 64); self.i = i
        st.assume(z3.And(z3.UGE(self.A.n, 1), z3.ULE(self.A.n, 1 << 30), z3.ULT(i, self.A.n)))
        b = w.pos.base
        b[("c", self.f["prevBlock"], 8)] = self.Bp.p; b[("c", self.f["currBlock"], 8)] = self.A.p; b[("c", self.f["nextBlock"], 8)] = NULL
        b[("c", self.f["currInst"], 8)] = self.A.at(i)
        inst.this.base[("c", m.field("WorkItem", "m_position"), 8)] = Ptr(w.pos)
    def get(self, st, k): return st.load(self.E, Ptr(self.r, self.f[k]), 8, "ptr")
    def changed(self, st, allowed):
        """every other position field is as before"""
        return And(*[peq(self.get(st, k), self.r.base[("c", self.f[k], 8)]) for k in ("prevBlock", "currBlock", "nextBlock", "currInst") if k not in allowed])
def succ(E, name): return Block(E, name)
def t_br(t):
    for w_ in (None, 1):
        E = t.engine(); st = State()
        T_, F_ = succ(E, "true successor"), succ(E, "false successor")
        class Op: pass
        def bop(b): o = Op(); o.r = b.r; return o
        ops = [bop(T_)]
        if w_:
            c = LVal(E, "condition", I(1)); E.inputs["condition"] = bvv(c.lane(0), 8); st.assume(wf01(c.lane(0)))
            ops = [c, bop(F_), bop(T_)]     # LLVM's operand order: condition, false, true
        inst = LInst(E, st, "Br", LT("void"), ops); w = wi_world(E, inst); ps = Pos(E, st, inst, w)
        B = "llvm::BranchInst::"
        E.models[B + "isConditional"] = lambda E, st, a, I: bool(w_); E.models[B + "isUnconditional"] = lambda E, st, a, I: not w_
        E.models[B + "getNumSuccessors"] = lambda E, st, a, I: 2 if w_ else 1
        def gs(E, st, a, I):
            if not isc(a[1]): return pite(eq(a[1], 0), T_.p, F_.p)
            return [T_.p, F_.p][a[1]]
        E.models[B + "getSuccessor"] = gs
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            nb = ps.get(oc.st, "nextBlock")
            want = T_.p if not w_ else pite(eq(bvv(c.lane(0), 8), 1), T_.p, F_.p)
            E.oblige(oc.st, peq(nb, want), "next block is the selected successor")
            E.oblige(oc.st, ps.changed(oc.st, ("nextBlock",)), "frame: rest of the position")
def wf01(x): return z3.ULE(bvv(x, 8), 1)
def t_switch(t):
    for w_ in (8, 16, 32, 64):
        E = t.engine(); st = State()
        c = LVal(E, "condition", I(w_)); v = zext(bvv(c.lane(0), w_), w_, 64); E.inputs["condition"] = v
        inst = LInst(E, st, "Switch", LT("void"), [c]); w = wi_world(E, inst); ps = Pos(E, st, inst, w)
        n = z3.BitVec("cases", 64); E.inputs["cases"] = n; st.assume(z3.ULE(n, 1 << 20))
        if t.params: n = z3.BitVecVal(t.params, 64)
        cv = z3.Function("case_value", z3.BitVecSort(64), z3.BitVecSort(64))
        succs = Region("case successors", fam=True); D = Block(E, "default"); consts = Region("case constants", fam=True)
        g = z3.BitVec("ghost.case", 64); E.inputs["ghost.case"] = g; E.inputs["its value"] = cv(g)
        wfv = lambda i: st_assume_w(i)
        S_ = "llvm::SwitchInst::"
        E.models[S_ + "getCondition"] = lambda E, st, a, I: c.p
        E.models[S_ + "getDefaultDest"] = lambda E, st, a, I: D.p
        E.models[S_ + "getNumCases"] = lambda E, st, a, I: trunc(n, 64, 32)
        rng = Region("case range", local=True)
        def cases(E, st, a, I):
            s = inst.r
            if I["ty"] == "ptr" or len(a) > 1:
                raise Unsupported("cases() shape")
            return ((Ptr(s), 0), (Ptr(s), n))
        def sret(E, st, a, I):
            if len(a) == 2:
                r = a[0]
                for o, x in ((0, 0), (16, n)): st.store(E, pgep(r, o), 8, Ptr(inst.r)); st.store(E, pgep(r, o + 8), 8, x)
                return 0
            return cases(E, st, a, I)
        E.models[S_ + "cases"] = sret
        def mk(i):
            def f(E, st, a, I): return (Ptr(inst.r), i) if len(a) == 1 else Unsupp()
            return f
        CI = r"^llvm::iterator_range<llvm::SwitchInst::CaseIteratorImpl<.*>::"
        def rget(o):
            def f(E, st, a, I):
                src = a[-1] if len(a) == 1 else a[1]
                p, i = st.load(E, pgep(src, o), 8, "ptr"), st.load(E, pgep(src, o + 8), 8)
                if len(a) == 2: st.store(E, a[0], 8, p); st.store(E, pgep(a[0], 8), 8, i); return 0
                return (p, i)
            return f
        def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
        pre(CI + r"begin\(\) const", rget(0)); pre(CI + r"end\(\) const", rget(16))
        idx = lambda E, st, p: st.load(E, pgep(p, 8), 8)
        pre(r"^llvm::SwitchInst::CaseIteratorImpl<.*>::operator==\(", lambda E, st, a, I: eq(idx(E, st, a[0]), idx(E, st, a[1])))
        pre(r"^llvm::iterator_facade_base<llvm::SwitchInst::CaseIteratorImpl<.*>::operator!=\(", lambda E, st, a, I: Not(eq(idx(E, st, a[0]), idx(E, st, a[1]))))
        def inc(E, st, a, I): st.store(E, pgep(a[0], 8), 8, add(idx(E, st, a[0]), 1, 64)); return a[0]
        pre(r"^llvm::SwitchInst::CaseIteratorImpl<.*>::operator\+\+\(\)|^llvm::iterator_facade_base<llvm::SwitchInst::CaseIteratorImpl<.*>::operator\+\+\(\)", inc)
        pre(r"^llvm::SwitchInst::CaseIteratorImpl<.*>::operator\*\(\) const|^llvm::iterator_facade_base<llvm::SwitchInst::CaseIteratorImpl<.*>::operator->\(\)", lambda E, st, a, I: a[0])
        def cval(E, st, a, I):
            i = bvv(idx(E, st, a[0]), 64); E.oblige(st, z3.ULT(i, n), "case in range")
            if w_ < 64: st.assume(z3.ULT(cv(i), 1 << w_))
            return Ptr(consts, 0, i)
        pre(r"^llvm::SwitchInst::CaseHandleImpl<.*>::getCaseValue\(\)", cval)
        pre(r"^llvm::SwitchInst::CaseHandleImpl<.*>::getCaseSuccessor\(\)", lambda E, st, a, I: Ptr(succs, 0, idx(E, st, a[0])))
        pre(r"^llvm::SwitchInst::CaseHandleImpl<.*>::getCaseIndex\(\)", lambda E, st, a, I: trunc(idx(E, st, a[0]), 64, 32))
        def cst(f):
            def h(E, st, a, I):
                q = E.resolve(st, a[0])
                if len(q) != 1 or q[0][1].r is not consts: raise Unsupported("constant")
                return f(cv(bvv(q[0][1].inst, 64)))
            return h
        E.models["llvm::ConstantInt::getZExtValue"] = cst(lambda x: x); E.models["llvm::ConstantInt::getSExtValue"] = cst(lambda x: sext(trunc(x, 64, w_), w_, 64)); E.models["llvm::ConstantInt::getLimitedValue"] = cst(lambda x: x)
        def hint(E, d):
            c_ = []
            for k, (x, wd) in d["vars"].items():
                if wd == 64: c_.append(("earlier cases did not match", lambda s, vv, k=k: Implies(z3.ULT(g, bvv(vv[k], 64)), cv(g) != v)))
            return c_
        E.hints.append(hint); upto(E, n)
        if w_ < 64: st.assume(z3.ULT(cv(g), 1 << w_))
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            for s, nb in E.resolve(oc.st, ps.get(oc.st, "nextBlock")):
                if nb.r is succs: E.oblige(s, And(z3.ULT(bvv(nb.inst, 64), n), cv(bvv(nb.inst, 64)) == v), "the case taken has the condition's value")
                elif nb.r is D.r: E.oblige(s, Implies(z3.ULT(g, n), cv(g) != v), "default only when no case matches")
                else: E.oblige(s, False, "a successor is chosen")
            E.oblige(oc.st, ps.changed(oc.st, ("nextBlock",)), "frame: rest of the position")
def Unsupp(): raise Unsupported("shape")
def t_phi(t):
    E = t.engine(); st = State()
    s = z3.BitVec("value.size", 32); n = z3.BitVec("value.num", 32); E.inputs["value.size"] = s; E.inputs["value.num"] = n
    st.assume(z3.ULE(s, 1 << 16)); st.assume(z3.ULE(n, 1 << 15))
    inst = LInst(E, st, "PHI", LT("void"), []); w = wi_world(E, inst); ps = Pos(E, st, inst, w)
    b = inst.res.base; m = E.mod
    b[("c", m.field("TypedValue", "size"), 4)] = s; b[("c", m.field("TypedValue", "num"), 4)] = n; b[("c", m.field("TypedValue", "data"), 8)] = Ptr(inst.resd); inst.resd.size = z3.ZeroExt(32, s * n)
    v = LVal(E, "incoming", LT("opaque"), num=n, size=1); v.data.size = z3.ZeroExt(32, s * n); v.tv = lambda: (z3.Concat(n, s), Ptr(v.data))
    def inc(E, st, a, I):
        E.oblige(st, peq(a[1], ps.Bp.p), "incoming value for the edge just traversed"); st.log("inc", 1); return v.p
    E.models["llvm::PHINode::getIncomingValueForBlock"] = inc
    g = z3.BitVec("ghost.byte", 64); st.assume(z3.ULT(g, z3.ZeroExt(32, s * n)))
    for oc in t.reached(inst.dispatch(st)):
        if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
        E.oblige(oc.st, eq(bvv(oc.st.byte(E, inst.resd, 0, g), 8), bvv(v.data.byte0(0, g), 8)), "every byte of the incoming value")
        E.oblige(oc.st, ps.changed(oc.st, ()), "frame: position")
def tvsplit(E, st, a):
    """a TypedValue passed by value: (i64, ptr)"""
    x = a[0]
    return trunc(x, 64, 32), (x >> 32 if isc(x) else z3.Extract(63, 32, x)), a[1]
def t_execute(t):
    E = t.engine(); st = State(); m = E.mod
    inst = LInst(E, st, "PHI", LT("void"), []); w = wi_world(E, inst); ps = Pos(E, st, inst, w)
    inst.r.schemafn = lambda off: (lambda E, i, o, tg: NULL)       # no debug records attached
    op = z3.BitVec("opcode", 32); E.inputs["opcode"] = op; PHI = opcodes()["PHI"]
    E.models["llvm::Instruction::getOpcode"] = lambda E, st, a, I: op
    E.rmodels.insert(0, (re.compile(r"^bool llvm::isa<llvm::PHINode,"), lambda E, st, a, I: op == PHI))
    sz = z3.BitVec("result.size", 32); nm = z3.BitVec("result.num", 32); E.inputs["result.size"] = sz; E.inputs["result.num"] = nm
    st.assume(z3.ULE(sz, 1 << 16)); st.assume(z3.ULE(nm, 1 << 15))
    E.models["oclgrind::getValueSize"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::getValueSize"), z3.Concat(nm, sz))[1]
    data = Region("result storage", mode="byte")
    def alloc(E, st, a, I):
        E.used_contracts.add("oclgrind::MemoryPool::alloc")
        E.oblige(st, eq(bvv(a[1], 64), z3.ZeroExt(32, sz * nm)), "storage for the whole result"); return Ptr(data)
    E.models["oclgrind::MemoryPool::alloc"] = alloc
    # phi temporaries: a map of n entries
    n = z3.BitVec("pending phis", 64); E.inputs["pending phis"] = n; st.assume(z3.ULE(n, 1 << 30))
    if t.params is not None: n = z3.BitVecVal(t.params, 64)
    mo = m.field("WorkItem", "m_phiTemps"); inst.this.base[("c", mo, 8)] = n
    keys = Region("phi instructions"); vals = Region("phi values", fam=True); ssz = z3.Function("phi_size_num", z3.BitVecSort(64), z3.BitVecSort(64)); STR = 64
    def elem(off):
        def f(E, i, o, tg):
            q = z3.LShR(bvv(o, 64), 6); d = diff(o, mul(q, STR, 64))
            fo = E.fieldof(q_.r, o)
            if fo == 0: return Ptr(keys, mul(q, 64, 64))
            if fo == 8: return ssz(q)
            if fo == 16: return Ptr(vals, 0, q)
            raise Unsupported("field of a map entry")
        return f
    upto(E, n)
    q_ = C.Seq(E, "m_phiTemps", STR, elem)
    MP = r"^std::map<llvm::Value const\*, oclgrind::TypedValue,.*>::"
    def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
    cnt = lambda E, st, p: st.load(E, p, 8)
    pre(MP + r"size\(\)", lambda E, st, a, I: cnt(E, st, a[0])); pre(MP + r"empty\(\)", lambda E, st, a, I: eq(cnt(E, st, a[0]), 0))
    pre(MP + r"(c?begin)\(\)", lambda E, st, a, I: Ptr(q_.r, 0)); pre(MP + r"(c?end)\(\)", lambda E, st, a, I: Ptr(q_.r, mul(cnt(E, st, a[0]), STR, 64)))
    def clear(E, st, a, I): st.store(E, a[0], 8, 0); return 0
    pre(MP + r"clear\(\)", clear)
    slot = Region("map slot of the phi")
    def sub_(E, st, a, I):
        E.oblige(st, peq(st.load(E, a[1], 8, "ptr"), Ptr(inst.r)), "phi result stored under its instruction"); st.log("slot", 1); return Ptr(slot)
    pre(MP + r"operator\[\]\(", sub_)
    C.seq_iter(E, r"^std::_Rb_tree_(const_)?iterator<%s\s*>" % re.escape(VALP), STR); C.iter_cmp(E, r"std::_Rb_tree_(const_)?iterator<")
    G = Region("ghost", local=False); G.base = {("c", 0, 8): 0, ("c", 8, 8): 0, ("c", 16, 8): 0, ("c", 24, 8): 0}
    def bump(st, o): st.store(E, Ptr(G, o), 8, add(st.load(E, Ptr(G, o), 8), 1, 64))
    gv = lambda st, o: st.load(E, Ptr(G, o), 8)
    def setv(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::setValue")
        k = a[1]
        out = []
        for s, q in E.resolve(st, k):
            if q.r is keys:
                c = gv(s, 0)
                E.oblige(s, And(eq(bvv(q.off, 64), bvv(mul(c, 64, 64), 64)), eq(bvv(a[2], 64), ssz(bvv(c, 64))), peq(a[3], Ptr(vals, 0, bvv(c, 64)))), "each pending phi gets its own value, once")
                bump(s, 0)
            else:
                E.oblige(s, And(peq(q, Ptr(inst.r)), eq(bvv(a[2], 64), z3.Concat(nm, sz)), peq(a[3], Ptr(data))), "the instruction's own result is stored under it")
                bump(s, 8)
            out.append((s, 0))
        return out
    E.models["oclgrind::WorkItem::setValue"] = setv
    def disp(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::dispatch")
        E.oblige(st, And(eq(bvv(gv(st, 16), 64), 0), eq(bvv(gv(st, 8), 64), 0)), "executed once, before its result is stored")
        E.oblige(st, peq(a[1], Ptr(inst.r)), "the instruction itself is executed")
        E.oblige(st, Implies(op != PHI, And(eq(bvv(gv(st, 0), 64), n), eq(bvv(cnt(E, st, Ptr(inst.this, mo)), 64), 0))), "all pending phi values take effect before the next other instruction")
        E.oblige(st, Implies(op == PHI, And(eq(bvv(gv(st, 0), 64), 0), eq(bvv(cnt(E, st, Ptr(inst.this, mo)), 64), n))), "a phi reads operands before any phi of the block takes effect")
        E.oblige(st, eq(bvv(st.load(E, a[2], 4), 32), sz), "result size"); E.oblige(st, eq(bvv(st.load(E, pgep(a[2], 4), 4), 32), nm), "result lanes")
        bump(st, 16)
        s2 = st.fork()
        return [Outcome("ret", st, 0), Outcome("throw", s2)]
    E.models["oclgrind::WorkItem::dispatch"] = disp
    def note(E, st, a, I):
        E.oblige(st, And(eq(bvv(gv(st, 16), 64), 1), peq(a[2], Ptr(inst.r))), "plugins see the instruction after it executed"); bump(st, 24); return 0
    E.models["oclgrind::Context::notifyInstructionExecuted"] = note
    for oc in t.reached(E.exec_fn(m.fn(H + "execute"), [Ptr(inst.this), Ptr(inst.r)], st)):
        s = oc.st
        if oc.kind != "ret": E.oblige(s, eq(bvv(gv(s, 16), 64), 1), "only the instruction itself raises errors"); continue
        E.oblige(s, And(eq(bvv(gv(s, 16), 64), 1), eq(bvv(gv(s, 24), 64), 1)), "executed and notified exactly once")
        E.oblige(s, eq(bvv(gv(s, 8), 64), z3.If(And(op != PHI, sz != 0), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))), "a non-phi result is stored exactly once")
        ns = len(s.ghost.get("slot", ()))
        E.oblige(s, Implies(And(op == PHI, sz != 0), ns == 1) if True else 0, "a phi result is kept aside")
        E.oblige(s, Implies(op != PHI, ns == 0), "only phi results are kept aside")
        if ns:
            E.oblige(s, And(eq(bvv(s.load(E, Ptr(slot), 4), 32), sz), eq(bvv(s.load(E, Ptr(slot, 4), 4), 32), nm), peq(s.load(E, Ptr(slot, 8), 8, "ptr"), Ptr(data))), "the value kept aside is the phi's result")
def t_step(t):
    E = t.engine(); st = State(); m = E.mod
    inst = LInst(E, st, "PHI", LT("void"), []); w = wi_world(E, inst); ps = Pos(E, st, inst, w); C.ilist_instr(E); blocks(E)
    hb = z3.BitVec("hasBegun", 8); w.pos.base[("c", ps.f["hasBegun"], 1)] = hb; st.assume(z3.ULE(hb, 1)); E.inputs["hasBegun"] = hb
    stf = m.field("WorkItem", "m_state"); ST = lambda k: m.enum("WorkItem::State", k)
    READY, FIN, BAR = ST("READY"), ST("FINISHED"), ST("BARRIER")
    inst.this.base[("c", stf, 4)] = READY
    Bn, Cb = Block(E, "branch target"), Block(E, "caller block"); j = z3.BitVec("call position", 64); E.inputs["position"] = ps.i; E.inputs["block length"] = ps.A.n
    st.assume(z3.And(z3.UGE(Bn.n, 1), z3.UGE(Cb.n, 2), z3.ULE(Cb.n, 1 << 30), z3.ULT(j, Cb.n - 1)))
    def ex(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::execute")
        E.oblige(st, peq(a[1], ps.A.at(ps.i)), "the instruction at the current position is executed")
        E.oblige(st, len(st.ghost.get("begin", ())) >= 0 and And(Implies(eq(hb, 0), len(st.ghost.get("begin", ())) == 1), Implies(eq(hb, 1), len(st.ghost.get("begin", ())) == 0)), "begin is notified exactly before the first instruction")
        last = eq(ps.i, ps.A.n - 1); out = []
        def case(nm, c, f):
            s = st.fork(); s.assume(c)
            if E.sat(s.pc): f(s); s.log("case", nm); out.append((s, 0))
        setp = lambda s, k, v: s.store(E, Ptr(w.pos, ps.f[k]), 8, v)
        case("plain", Not(last), lambda s: 0)
        case("barrier", Not(last), lambda s: s.store(E, Ptr(inst.this, stf), 4, BAR))
        case("branch", last, lambda s: setp(s, "nextBlock", Bn.p))
        case("call", Not(last), lambda s: setp(s, "nextBlock", Bn.p))
        def ret(s): setp(s, "currInst", Cb.at(j)); setp(s, "currBlock", Cb.p)
        case("return", last, ret)
        case("end", last, lambda s: s.store(E, Ptr(inst.this, stf), 4, FIN))
        s = st.fork(); out.append(Outcome("throw", s)); return out
    E.models["oclgrind::WorkItem::execute"] = ex
    E.models["oclgrind::Context::notifyWorkItemBegin"] = lambda E, st, a, I: st.log("begin", 1) or 0
    E.models["oclgrind::Context::notifyWorkItemComplete"] = lambda E, st, a, I: st.log("complete", 1) or 0
    for oc in t.reached(E.exec_fn(m.fn(H + "step"), [Ptr(inst.this)], st)):
        s = oc.st
        if oc.kind != "ret": continue
        c = s.ghost["case"][0]; ob = lambda g, n: E.oblige(s, g, "%s: %s" % (c, n))
        ci, cb, pb, nb = [ps.get(s, k) for k in ("currInst", "currBlock", "prevBlock", "nextBlock")]
        ob(peq(nb, NULL), "no pending branch is left")
        ob(eq(bvv(s.load(E, Ptr(w.pos, ps.f["hasBegun"]), 1), 8), 1), "marked as begun")
        ob(len(s.ghost.get("complete", ())) == (1 if c == "end" else 0), "completion is notified exactly once, at the end")
        ob(eq(bvv(oc.val, 32), {"end": FIN, "barrier": BAR}.get(c, READY)), "returned state")
        if c in ("plain", "barrier"): ob(And(peq(ci, ps.A.at(ps.i + 1)), peq(cb, ps.A.p), peq(pb, ps.Bp.p)), "continues with the following instruction")
        if c in ("branch", "call"): ob(And(peq(ci, Bn.at(0)), peq(cb, Bn.p), peq(pb, ps.A.p)), "continues at the start of the target block")
        if c == "return": ob(And(peq(ci, Cb.at(j + 1)), peq(cb, Cb.p)), "continues with the instruction after the call")
STI = r"^std::stack<llvm::Instruction const\*,.*>::"
STL = r"^std::stack<std::(__cxx11::)?list<unsigned long,.*>::"
LST = r"^std::(__cxx11::)?list<unsigned long, std::allocator<unsigned long>\s?>::"
def stacks(E, ps, w, depth, top):
    """call stack of arbitrary depth; frames' allocation lists"""
    def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
    w.pos.base[("c", ps.f["callStack"], 8)] = depth; w.pos.base[("c", ps.f["allocations"], 8)] = depth
    for k, rx in (("callStack", STI), ("allocations", STL)):
        def empty(E, st, a, I): return eq(st.load(E, a[0], 8), 0)
        pre(rx + r"empty\(\)", empty); pre(rx + r"size\(\)", lambda E, st, a, I: st.load(E, a[0], 8))
        def tp(E, st, a, I, k=k):
            c = st.load(E, a[0], 8); E.oblige(st, Not(eq(c, 0)), "no top of an empty stack"); return top[k](st, c)
        pre(rx + r"top\(\)", tp)
        def pop(E, st, a, I):
            c = st.load(E, a[0], 8); E.oblige(st, Not(eq(c, 0)), "no pop of an empty stack"); st.store(E, a[0], 8, sub(c, 1, 64)); return 0
        pre(rx + r"pop\(\)", pop)
def t_ret(t):
    for valued in (False, True):
        E = t.engine(); st = State(); m = E.mod
        inst = LInst(E, st, "Ret", LT("void"), []); w = wi_world(E, inst); ps = Pos(E, st, inst, w); C.ilist_instr(E); blocks(E)
        d = z3.BitVec("call depth", 64); E.inputs["call depth"] = d; st.assume(z3.ULE(d, 1 << 30))
        stf = m.field("WorkItem", "m_state"); inst.this.base[("c", stf, 4)] = m.enum("WorkItem::State", "READY"); FIN = m.enum("WorkItem::State", "FINISHED")
        Cb = Block(E, "caller block"); j = z3.BitVec("call position", 64)
        slot = Region("top of the call stack"); slot.base[("c", 0, 8)] = Cb.at(j)
        L = Region("allocations of the frame"); n = z3.BitVec("frame allocations", 64); E.inputs["frame allocations"] = n; st.assume(z3.ULE(n, 1 << 30)); L.base[("c", 0, 8)] = n
        if t.params is not None: L.base[("c", 0, 8)] = n = z3.BitVecVal(t.params, 64)
        stacks(E, ps, w, d, dict(callStack=lambda st, c: Ptr(slot), allocations=lambda st, c: Ptr(L)))
        upto(E, n)
        A_ = z3.Function("allocation", z3.BitVecSort(64), z3.BitVecSort(64)); STR = 16
        els = Region("list elements"); els.schemafn = lambda off: (lambda E, i, o, tg: A_(bvv(o, 64)))
        def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
        pre(LST + r"c?begin\(\)", lambda E, st, a, I: Ptr(els, 0)); pre(LST + r"c?end\(\)", lambda E, st, a, I: Ptr(els, mul(st.load(E, a[0], 8), STR, 64)))
        C.seq_iter(E, r"^std::_List_(const_)?iterator<unsigned long>", STR); C.iter_cmp(E, r"std::_List_(const_)?iterator<")
        G = Region("ghost"); G.base = {("c", 0, 8): 0}
        def dealloc(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::deallocateBuffer")
            c = st.load(E, Ptr(G), 8); E.oblige(st, And(peq(a[0], Ptr(w.priv)), eq(bvv(a[1], 64), A_(bvv(mul(c, STR, 64), 64)))), "each allocation of the frame is released, once"); st.store(E, Ptr(G), 8, add(c, 1, 64)); return 0
        E.models["oclgrind::Memory::deallocateBuffer"] = dealloc
        rv = LVal(E, "returned value", LT("opaque"), num=1, size=8)
        E.models["llvm::ReturnInst::getReturnValue"] = lambda E, st, a, I: rv.p if valued else NULL
        E.models["llvm::User::getNumOperands"] = lambda E, st, a, I: int(valued)
        E.rmodels.insert(0, (re.compile(r"^llvm::\w+::getOperand\(unsigned"), lambda E, st, a, I: rv.p))
        cl = Region("clone of the returned value", mode="byte")
        def clone(E, st, a, I):
            E.used_contracts.add("oclgrind::MemoryPool::clone")
            E.oblige(st, peq(st.load(E, pgep(a[1] if len(a) == 2 else a[2], 8), 8, "ptr"), Ptr(rv.data)), "the returned value is copied")
            if len(a) == 3: raise Unsupported("clone shape")
            return (rv.tv()[0], Ptr(cl))
        E.models["oclgrind::MemoryPool::clone"] = clone
        def setv(E, st, a, I): E.used_contracts.add("oclgrind::WorkItem::setValue"); st.log("set", a); return 0
        E.models["oclgrind::WorkItem::setValue"] = setv
        E.models["oclgrind::WorkGroup::notifyFinished"] = lambda E, st, a, I: st.log("finished", a) or 0
        for oc in t.reached(inst.dispatch(st)):
            s = oc.st
            if oc.kind != "ret": E.oblige(s, False, "no exception"); continue
            fin = s.ghost.get("finished", ()); sets = s.ghost.get("set", ()); state = s.load(E, Ptr(inst.this, stf), 4)
            outer = len(fin) == 1
            E.oblige(s, eqb(eq(d, 0), outer), "the work-item finishes exactly when the kernel function returns")
            if outer:
                E.oblige(s, And(eq(bvv(state, 32), FIN), len(sets) == 0, peq(fin[0][1], Ptr(inst.this)), eq(bvv(s.load(E, Ptr(G), 8), 64), 0), peq(ps.get(s, "nextBlock"), NULL)), "finished, nothing else"); continue
            E.oblige(s, eq(bvv(state, 32), m.enum("WorkItem::State", "READY")), "the work-item goes on")
            E.oblige(s, And(peq(ps.get(s, "currInst"), Cb.at(j)), peq(ps.get(s, "currBlock"), Cb.p), peq(ps.get(s, "nextBlock"), NULL)), "resumes at the call in the caller's block")
            for k in ("callStack", "allocations"): E.oblige(s, eq(bvv(s.load(E, Ptr(w.pos, ps.f[k]), 8), 64), d - 1), "one frame is popped off " + k)
            E.oblige(s, len(sets) == int(valued), "a value is returned exactly when the function has one")
            for x in sets: E.oblige(s, And(peq(x[1], Cb.at(j)), peq(x[3], Ptr(cl)), eq(bvv(x[2], 64), bvv(rv.tv()[0], 64))), "the call takes the returned value")
            E.oblige(s, eq(bvv(s.load(E, Ptr(G), 8), 64), n), "all allocations of the frame are released")
ARG = 40
def t_call(t):
  for decl in (False, True):
    E = t.engine(); st = State(); m = E.mod
    inst = LInst(E, st, "Call", LT("void"), []); w = wi_world(E, inst); ps = Pos(E, st, inst, w); C.ilist_instr(E); blocks(E)
    d = z3.BitVec("call depth", 64); st.assume(z3.ULE(d, 1 << 30))
    frame = Region("allocations of the new frame"); G = Region("ghost"); G.base = {("c", o, 8): 0 for o in (0, 8, 16, 24, 32)}
    def bump(st, o): st.store(E, Ptr(G, o), 8, add(st.load(E, Ptr(G, o), 8), 1, 64))
    gv = lambda st, o: bvv(st.load(E, Ptr(G, o), 8), 64)
    def topa(st, c):
        E.oblige(st, eq(bvv(c, 64), d + 1), "copies belong to the new frame"); return Ptr(frame)
    stacks(E, ps, w, d, dict(callStack=None, allocations=topa))
    def pre(s, f): E.rmodels.insert(0, (re.compile(s), f))
    def push1(E, st, a, I):
        E.oblige(st, peq(st.load(E, a[1], 8, "ptr"), ps.A.at(ps.i)), "the call itself is recorded as return point"); st.store(E, a[0], 8, add(st.load(E, a[0], 8), 1, 64)); return 0
    pre(STI + r"push\(", push1)
    def push2(E, st, a, I):
        E.oblige(st, eq(bvv(st.load(E, a[1], 8), 64), 0), "the new frame has no allocations yet"); st.store(E, a[0], 8, add(st.load(E, a[0], 8), 1, 64)); return 0
    pre(STL + r"push\(", push2)
    def lctor(E, st, a, I): st.store(E, a[0], 8, 0); return 0
    pre(LST + r"list\(\)$", lctor); pre(r"^std::(__cxx11::)?(list|_List_base)<unsigned long,.*>::~", lambda E, st, a, I: 0)
    def lpush(E, st, a, I):
        E.oblige(st, And(peq(a[0], Ptr(frame)), eq(bvv(st.load(E, a[1], 8), 64), gv(st, 8))), "the copy is recorded in the new frame"); bump(st, 16); return 0
    pre(LST + r"push_back\(", lpush)
    fn = Region("callee"); entry = Block(E, "entry of the callee"); n = z3.BitVec("arguments", 64); E.inputs["arguments"] = n; st.assume(z3.ULE(n, 1 << 16))
    if t.params is not None: n = z3.BitVecVal(t.params, 64)
    upto(E, n)
    E.hints.append(lambda E, d: [("copies made are copies recorded", lambda s, v: eq(gv(s, 16), gv(s, 24)))])
    ind = z3.Bool("indirect"); E.inputs["indirect"] = ind
    E.models["llvm::CallBase::getCalledFunction"] = lambda E, st, a, I: pite(ind, NULL, Ptr(fn))
    user = Region("called operand"); E.models["llvm::CallBase::getCalledOperand"] = lambda E, st, a, I: Ptr(user)
    def opnd(E, st, a, I):
        q = E.resolve(st, a[0])
        if len(q) != 1 or q[0][1].r is not user: raise Unsupported("operand")
        E.oblige(st, eq(a[1], 0), "the called operand"); return Ptr(fn)
    pre(r"^llvm::\w+::getOperand\(unsigned", opnd)
    E.models["llvm::GlobalValue::isDeclaration"] = lambda E, st, a, I: decl; E.models["llvm::Function::isDeclaration"] = lambda E, st, a, I: decl; E.models["llvm::Function::empty"] = lambda E, st, a, I: decl
    E.models["llvm::Function::begin"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(fn)), "callee"), entry.p)[1]
    E.models["llvm::Function::getEntryBlock"] = E.models["llvm::Function::begin"]
    pre(r"^llvm::ilist_iterator<llvm::ilist_detail::node_options<llvm::BasicBlock.*::operator(\*|->)\(\) const", lambda E, st, a, I: C.it(E, st, a[0]))
    args = Region("formal arguments"); E.models["llvm::Function::arg_begin"] = lambda E, st, a, I: Ptr(args, 0); E.models["llvm::Function::arg_end"] = lambda E, st, a, I: Ptr(args, n * ARG); E.models["llvm::Function::arg_size"] = lambda E, st, a, I: n
    argno = z3.Function("argument_number", z3.BitVecSort(64), z3.BitVecSort(32)); byval = z3.Function("byval", z3.BitVecSort(64), z3.BoolSort()); ptrv = z3.Function("argument_pointer", z3.BitVecSort(64), z3.BitVecSort(64)); tsz = z3.Function("byval_size", z3.BitVecSort(64), z3.BitVecSort(32)); alloc = z3.Function("copy_address", z3.BitVecSort(64), z3.BitVecSort(64))
    def no(E, st, a, I):
        c = gv(st, 0); st.assume(argno(c * ARG) == z3.Extract(31, 0, c)); return argno(bvv(a[0].off, 64))
    E.models["llvm::Argument::getArgNo"] = no
    opr = Region("actual arguments", fam=True); vals = Region("actual values", mode="byte", fam=True); sn = z3.Function("actual_size", z3.BitVecSort(64), z3.BitVecSort(64))
    ao = lambda E, st, a, I: Ptr(opr, 0, zext(a[1], 32, 64))
    E.models["llvm::CallBase::getArgOperand"] = ao
    def getop(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::getOperand"); q = E.resolve(st, a[1])
        if len(q) != 1 or q[0][1].r is not opr: raise Unsupported("operand")
        return (sn(bvv(q[0][1].inst, 64)), Ptr(vals, 0, q[0][1].inst))
    E.models["oclgrind::WorkItem::getOperand"] = getop
    E.models["llvm::Argument::hasByValAttr"] = lambda E, st, a, I: byval(bvv(a[0].off, 64))
    E.models["oclgrind::TypedValue::getPointer"] = lambda E, st, a, I: [(s, ptrv(bvv(s.load(E, pgep(a[0], 8), 8, "ptr").inst, 64))) for s in (st,)]
    host = Region("host memory", mode="byte")
    E.models["oclgrind::Memory::getPointer"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::Memory::getPointer"), E.oblige(st, peq(a[0], Ptr(w.priv)), "byval arguments are read from private memory"), Ptr(host, a[1]))[2]
    tys = Region("byval types", fam=True)
    E.models["llvm::Argument::getParamByValType"] = lambda E, st, a, I: Ptr(tys, 0, a[0].off)
    E.models["oclgrind::getTypeSize"] = lambda E, st, a, I: (E.used_contracts.add("oclgrind::getTypeSize"), tsz(bvv(a[0].inst, 64)))[1]
    def allocb(E, st, a, I):
        E.used_contracts.add("oclgrind::Memory::allocateBuffer"); c = gv(st, 0)
        E.oblige(st, And(peq(a[0], Ptr(w.priv)), eq(bvv(a[1], 64), z3.ZeroExt(32, tsz(c * ARG))), eq(bvv(a[2], 64), 0), peq(a[3], Ptr(host, ptrv(c)))), "a private copy of the whole byval argument")
        st.store(E, Ptr(G, 8), 8, alloc(c)); bump(st, 24); return alloc(c)
    E.models["oclgrind::Memory::allocateBuffer"] = allocb
    pool = Region("pointer value", mode="cell"); cls = Region("clones", mode="byte", fam=True)
    def palloc(E, st, a, I):
        E.used_contracts.add("oclgrind::MemoryPool::alloc"); E.oblige(st, z3.UGE(bvv(a[1], 64), 8), "room for a pointer"); return Ptr(pool)
    E.models["oclgrind::MemoryPool::alloc"] = palloc
    E.models["oclgrind::TypedValue::setPointer"] = lambda E, st, a, I: st.store(E, st.load(E, pgep(a[0], 8), 8, "ptr"), 8, a[1]) or 0
    def clone(E, st, a, I):
        E.used_contracts.add("oclgrind::MemoryPool::clone"); src = st.load(E, pgep(a[1], 8), 8, "ptr"); return (st.load(E, a[1], 8), Ptr(cls, 0, src.inst))
    E.models["oclgrind::MemoryPool::clone"] = clone
    def setv(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::setValue"); c = gv(st, 0)
        E.oblige(st, peq(a[1], Ptr(args, c * ARG)), "each formal argument is set once")
        out = []
        for s, q in E.resolve(st, a[3]):
            if q.r is cls:
                E.oblige(s, And(Not(byval(c * ARG)), eq(bvv(q.inst, 64), c), eq(bvv(a[2], 64), sn(c))), "a formal argument takes the value of its actual argument")
            elif q.r is pool:
                E.oblige(s, And(byval(c * ARG), eq(gv(s, 24), gv(s, 16)), eq(bvv(s.load(E, Ptr(pool), 8), 64), alloc(c)), eq(bvv(a[2], 64), 8 | 1 << 32)), "a byval argument takes the address of its copy")
            else: E.oblige(s, False, "argument storage is not shared with the caller")
            bump(s, 0); out.append((s, 0))
        return out
    E.models["oclgrind::WorkItem::setValue"] = setv
    bi = z3.Bool
    fnp = Region("builtin function")
    def getb(E, st, a, I):
        E.oblige(st, peq(a[-1], Ptr(fn)), "the builtin of the called function"); st.log("builtin", a[0]); return 0
    E.models["oclgrind::InterpreterCache::getBuiltin"] = getb; E.models["oclgrind::InterpreterCache::Builtin::~Builtin"] = lambda E, st, a, I: 0
    st.assume(True)
    try: outs = inst.dispatch(st)
    except Unsupported as e:
        if decl: t.paths += 1; continue      # the call through the builtin table is indirect: P/B properties
        raise
    for oc in t.reached(outs):
        s = oc.st
        if oc.kind != "ret": E.oblige(s, False, "no exception"); continue
        if decl: continue
        E.oblige(s, peq(ps.get(s, "nextBlock"), entry.p), "continues in the callee's entry block")
        E.oblige(s, ps.changed(s, ("nextBlock",)), "frame: rest of the position")
        for k in ("callStack", "allocations"): E.oblige(s, eq(bvv(s.load(E, Ptr(w.pos, ps.f[k]), 8), 64), d + 1), "one frame is pushed on " + k)
        E.oblige(s, eq(gv(s, 0), n), "all formal arguments are set")
        E.oblige(s, eq(gv(s, 24), gv(s, 16)), "every byval copy is recorded in the frame")
def tasks_I07():
    return [Task("br", H + "br", t_br), Task("switch", H + "swtch", t_switch, fallback=3), Task("phi", H + "phi", t_phi), Task("execute", H + "execute", t_execute, fallback=2), Task("step", H + "step", t_step),
            Task("ret", H + "ret", t_ret, fallback=2), Task("call", H + "call", t_call, fallback=2)]
