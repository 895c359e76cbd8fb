"""N01, N02: contracts on the scheduling of an NDRange (KernelInvocation, WorkGroup, WorkItem).
Objects that are only passed around (work-groups, work-items) are known by their address."""
import re, z3
from engine import *
from run import Task
from memcheck import one, each
from queue_ import rows, Want
KI, WG, WI = "oclgrind::KernelInvocation::", "oclgrind::WorkGroup::", "oclgrind::WorkItem::"
def has(m, fn):
    try: m.fn(fn); return True
    except KeyError: return False
def v64(s, E, p, i=0): return bvv(s.load(E, pgep(p, i), 8), 64)
def size3(s, E, p): return [v64(s, E, p, 8 * i) for i in range(3)]
AX = "xyz"
def trip(E, nm):
    r = [z3.BitVec("%s.%s" % (nm, a), 64) for a in AX]
    for x in r: E.inputs[str(x)] = x
    return r
def put3(r, off, v):
    for i, x in enumerate(v): r.base[("c", off + 8 * i, 8)] = x
VEC3 = r"^std::vector<oclgrind::Size3, .*>::"
def pre(E, rx, f): E.rmodels.insert(0, (re.compile(rx), f))
def absptr(v): return Ptr(None, v)
def addr(p):
    if isinstance(p, PIte): return z3.If(b2z(p.c), addr(p.a), addr(p.b))
    if isinstance(p, Ptr) and p.r is None: return bvv(p.off, 64)
    raise Unsupported("object address")
# ---- the list of work-groups
def lemma_groups(E, st):
    """w < ceil(G/l), l > 0: group w starts below G, and its size min(l, G - w*l) is positive; the groups tile [0, G)"""
    G, l, w, q, r, p = z3.Ints("G l w q r p"); s = z3.Solver(); s.set("timeout", 20000)
    base = [l > 0, q >= 0, r >= 0, r < l, w >= 0, G == q * l + r]
    # (w < q) -> w*l + l <= q*l, as a product of non-negative factors
    base += [z3.Implies(w < q, (q - w - 1) * l >= 0), z3.Implies(w > q, (w - q - 1) * l >= 0)]
    n = q + z3.If(r != 0, 1, 0); sz = z3.If(w * l + l > G, r, l)
    s.add(*base, z3.Not(z3.Implies(w < n, z3.And(w * l < G, sz == z3.If(G - w * l < l, G - w * l, l), sz > 0))))
    E.oblige(st, s.check() == z3.unsat, "lemma: the size of every group is what is left, at most the enqueued local size")
    s2 = z3.Solver(); s2.set("timeout", 20000); s2.add(*base, w < n, w == n - 1, z3.Not(w * l + sz == G)); E.oblige(st, s2.check() == z3.unsat, "lemma: the groups end where the range ends")
def t_ki(t, quick, uniform, rems=None):
    E = t.engine(); st = State(); m = E.mod; G, L, O = trip(E, "global size"), trip(E, "local size"), trip(E, "offset"); dim = z3.BitVec("work dimensions", 32)
    for x in L: st.assume(x != 0)
    for x in G: st.assume(x != 0)
    this = Region("invocation"); ctx, K = Region("context"), Region("kernel"); A = []
    for v in (O, G, L):
        r = Region("argument"); put3(r, 0, v); A.append(Ptr(r))
    lp = m.field("KernelInvocation", "m_workGroups")
    E.models["oclgrind::Kernel::requiresUniformWorkGroups"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(K)), "the kernel's own requirement"), z3.BoolVal(uniform))[1]
    E.models["oclgrind::checkEnv"] = lambda E, st, a, I: z3.BoolVal(quick)
    nw = z3.BitVec("OCLGRIND_NUM_THREADS", 32); safe = z3.Bool("plugins are thread safe"); E.models["oclgrind::getEnvInt"] = lambda E, st, a, I: nw
    E.models["oclgrind::Context::isThreadSafe"] = lambda E, st, a, I: safe; pre(E, r"^std::thread::hardware_concurrency", lambda E, st, a, I: z3.BitVec("cores", 32))
    pre(E, r"^std::(__cxx11::)?list<oclgrind::WorkGroup\*, .*>::list\(\)", lambda E, st, a, I: 0); pre(E, VEC3 + r"vector\(\)", lambda E, st, a, I: 0)
    E.opaque_div = E.coarse_sat = t.params is None and not quick
    div, rem = (lambda x, y: opdiv("udiv", x, y), lambda x, y: opdiv("urem", x, y)) if E.opaque_div else (z3.UDiv, z3.URem)
    N = [div(g, l) if uniform else div(g, l) + z3.If(rem(g, l) != 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) for g, l in zip(G, L)]
    if uniform:
        for g, l in zip(G, L): st.assume(rem(g, l) == 0)       # required when the kernel is enqueued (R04)
    if rems:
        for g, l, x in zip(G, L, rems): st.assume(rem(g, l) != 0 if x else rem(g, l) == 0)
    for n in N: st.assume(n != 0)          # non-empty ranges have groups
    if t.params is not None:
        for n, k in zip(N, t.params): st.assume(n == k)
    if quick: E.models["row"] = lambda E, st, a, I: (st.log("group", tuple(a[1:])), 0)[1]
    else:
        E.cut_nested = True
        w = Want(lambda c: [("list", Ptr(this, lp)), ("x", c[2]), ("y", c[1]), ("z", c[0])], lambda i: [])
        done = rows(E, st, [N[2], N[1], N[0]], "row", w)
    def push(E, st, a, I):
        r = E.models["row"](E, st, [a[0]] + size3(st, E, one(E, st, a[1])), I); return 0
    pre(E, VEC3 + r"(push_back|emplace_back)", push)
    lemma_groups(E, st)
    for oc in t.reached(E.exec_fn(m.fn(KI + "KernelInvocation"), [Ptr(this), Ptr(ctx), Ptr(K), dim] + A, st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); f = lambda nm: size3(s, E, Ptr(this, m.field("KernelInvocation", nm)))
        for nm, v in (("m_globalOffset", O), ("m_globalSize", G), ("m_localSize", L), ("m_numGroups", N)): E.oblige(s, And(*[eq(x, y) for x, y in zip(f(nm), v)]), "the launch parameters are recorded: " + nm)
        E.oblige(s, eq(v64(s, E, Ptr(this), m.field("KernelInvocation", "m_workDim")), z3.ZeroExt(32, dim)), "the launch parameters are recorded: dimensions")
        wk = bvv(s.load(E, Ptr(this, m.field("KernelInvocation", "m_numWorkers")), 4), 32)
        E.oblige(s, wk != 0, "there is a worker"); E.oblige(s, z3.Implies(z3.Not(safe), wk == 1), "plugins that are not thread safe get a single worker")
        if quick:
            g = s.ghost.get("group", ()); E.oblige(s, And(*[eq(x, 0) for x in g[0]]) if g else False, "quick mode: the first group runs")
            last = And(*[eq(x, n - 1) for x, n in zip(g[-1], N)]) if g else False
            E.oblige(s, last, "quick mode: the last group runs"); E.oblige(s, len(g) == 1 if len(g) < 2 else And(len(g) == 2, Not(And(*[eq(n, 1) for n in N]))), "quick mode: no group runs twice")
        else: done(s)
# ---- the worker
class Worker:
    """runWorker: ghost state of the group being run"""
    IDX, PEND, QUIET, ALIVE, FULL, UNPOP, READY, DONE, EXC = [8 * i for i in range(9)]
    def __init__(self, t):
        self.E = E = t.engine(); self.m = m = E.mod; self.st = st = State(); E.cut_at = 0; E.coarse_sat = True; E.cut_nested = True
        self.this = Region("invocation"); self.ctx = Region("context"); F = lambda f: m.field("KernelInvocation", f)
        self.G, self.L = trip(E, "global size"), trip(E, "local size"); put3(self.this, F("m_globalSize"), self.G); put3(self.this, F("m_localSize"), self.L); self.this.base[("c", F("m_context"), 8)] = Ptr(self.ctx)
        for x in self.G + self.L: st.assume(x != 0)
        self.lst = Region("group list"); self.lst.stride = 24; U = [z3.Function("group %s" % a, z3.BitVecSort(64), z3.BitVecSort(64)) for a in AX]; self.n = z3.BitVec("number of groups", 64); E.inputs["number of groups"] = self.n; self.U = U
        st.assume(z3.ULT(self.n, 1 << 32))     # the list fits in memory
        LI = Ptr(self.this, F("m_workGroups"))
        el = Region("list element", fam=True); el.schemafn = lambda off: (lambda E, inst, off, tag: U[off // 8](bvv(inst, 64))) if isc(off) and off < 24 else None
        pre(E, VEC3 + r"size\(\) const", lambda E, st, a, I: self.n)
        def at(E, st, a, I): E.oblige(st, z3.ULT(bvv(a[1], 64), self.n), "list index in range"); return Ptr(el, 0, bvv(a[1], 64))
        pre(E, VEC3 + r"(operator\[\]|at)\(", at)
        self.tls = Region("worker state"); self.tls.schemafn = lambda off: (lambda E, inst, off, tag: absptr(z3.BitVec("state%s_%s" % (tag, off), 64))) if isc(off) and off in (8, 16) else None
        pre(E, r"^thread-local wrapper routine for", lambda E, st, a, I: Ptr(self.tls))
        self.g = g = Region("ghost"); g.base = {("c", 8 * i, 8): 0 for i in range(9)}
        M_ = E.models; R = lambda rx, f: pre(E, rx, f)
        cur = lambda st: addr(st.load(E, Ptr(self.tls, 8), 8, "ptr")); item = lambda st: addr(st.load(E, Ptr(self.tls, 16), 8, "ptr")); self.cur, self.item = cur, item
        def obj(nm, st):
            v = z3.BitVec("%s_%d" % (nm, next(fresh_id)), 64); st.assume(v != 0); return v
        def take(E, st, a, I):
            E.oblige(st, And(self.gv(st, self.PEND) == 0, self.gv(st, self.ALIVE) == 0), "one group at a time")
            x = fresh("index", 32); st.assume(z3.BoolVal(True)); i = z3.ZeroExt(32, bvv(x, 32)); self.gs(st, self.IDX, i); self.gs(st, self.PEND, z3.If(z3.ULT(i, self.n), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))); return x
        R(r"^std::(__atomic_base|atomic)<unsigned int>::(operator\+\+\(int\)|fetch_add)", take); R(r"^std::(__atomic_base|atomic)<unsigned int>::operator\+\+\(\)$", lambda E, st, a, I: bvv(take(E, st, a, I), 32) + 1)
        RL = r"^std::(__cxx11::)?list<oclgrind::WorkGroup\*, .*>::"; self.cell = Region("list front", fam=True); self.cell.schemafn = lambda off: (lambda E, inst, off, tag: absptr(inst))
        def empty(E, st, a, I):
            b = freshb("no group was switched away from"); self.gs(st, self.FULL, z3.If(b, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))); return b
        def front(E, st, a, I):
            E.oblige(st, And(self.gv(st, self.FULL) == 1, self.gv(st, self.ALIVE) == 0), "takes a group that was switched away from"); self.gs(st, self.UNPOP, 1); self.gs(st, self.ALIVE, 1); self.gs(st, self.QUIET, 0); self.gs(st, self.DONE, 0); return Ptr(self.cell, 0, obj("running group", st))
        def pop(E, st, a, I): E.oblige(st, self.gv(st, self.UNPOP) == 1, "removes the group taken"); self.gs(st, self.UNPOP, 0); return 0
        R(RL + r"empty\(\) const", empty); R(RL + r"front\(\)", front); R(RL + r"pop_front\(\)", pop)
        self.facts = []
        def ctor(E, st, a, I, two=False):
            ki, gid = a[1], a[2]; i = self.gv(st, self.IDX); E.oblige(st, self.gv(st, self.PEND) == 1, "a group is created only for an index taken from the counter")
            w = [f(i) for f in U]; E.oblige(st, And(peq(ki, Ptr(self.this)), *[eq(x, y) for x, y in zip(size3(st, E, one(E, st, gid)), w)]), "the group created is the one at the index taken")
            sz = self.L if two else size3(st, E, one(E, st, a[3]))
            self.lemma(st, w); E.oblige(st, And(*[eq(x, z3.If(z3.ULT(g - y * l, l), g - y * l, l)) for x, y, g, l in zip(sz, w, self.G, self.L)]), "the group has the enqueued local size, or what is left of the range")
            self.gs(st, self.PEND, 0); self.gs(st, self.ALIVE, 1); self.gs(st, self.QUIET, 0); self.gs(st, self.DONE, 0); return 0
        R(r"^oclgrind::WorkGroup::WorkGroup\(oclgrind::KernelInvocation const\*, oclgrind::Size3, oclgrind::Size3\)", ctor); R(r"^oclgrind::WorkGroup::WorkGroup\(oclgrind::KernelInvocation const\*, oclgrind::Size3\)", lambda E, st, a, I: ctor(E, st, a, I, True))
        M_["operator new(unsigned long)"] = lambda E, st, a, I: absptr(obj("object", st))
        def here(st, p, what): E.oblige(st, And(eq(addr(p), cur(st)), self.gv(st, self.ALIVE) == 1, self.gv(st, self.UNPOP) == 0), what)
        def nxt(E, st, a, I):
            here(st, a[0], "looks for work-items of the current group"); s2 = st.fork(); self.gs(st, self.QUIET, 0); self.gs(s2, self.QUIET, 1); v = obj("item", st); return [(st, absptr(v)), (s2, NULL)]
        M_[WG + "getNextWorkItem"] = nxt
        def hasb(E, st, a, I):
            here(st, a[0], "the barrier of the current group"); q = self.gv(st, self.QUIET); s2 = st.fork(); self.gs(st, self.QUIET, z3.If(q == 1, z3.BitVecVal(2, 64), q)); self.gs(s2, self.QUIET, z3.If(q == 1, z3.BitVecVal(3, 64), q)); return [(st, z3.BoolVal(True)), (s2, z3.BoolVal(False))]
        M_[WG + "hasBarrier"] = hasb
        def clr(E, st, a, I):
            here(st, a[0], "the barrier of the current group"); E.oblige(st, self.gv(st, self.QUIET) == 2, "a barrier is released only when no work-item of the group can run"); self.gs(st, self.QUIET, 0); return 0
        M_[WG + "clearBarrier"] = clr
        def state(E, st, a, I):
            E.oblige(st, And(eq(addr(a[0]), item(st)), addr(a[0]) != 0), "the current work-item"); x = fresh("work-item state", 32); self.gs(st, self.READY, z3.If(bvv(x, 32) == m.enum("oclgrind::WorkItem::State", "READY"), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))); return x
        M_[WI + "getState"] = state
        def step(E, st, a, I):
            E.oblige(st, And(eq(addr(a[0]), item(st)), self.gv(st, self.ALIVE) == 1, self.gv(st, self.UNPOP) == 0), "runs the current work-item"); E.oblige(st, self.gv(st, self.READY) == 1, "only work-items that can run are stepped")
            s2 = st.fork(); s3 = st.fork()
            for s in (st, s2, s3): self.gs(s, self.READY, 0); self.gs(s, self.QUIET, 0)
            # the interactive debugger may have switched to another work-item (contract of switchWorkItem)
            s2.store(E, Ptr(self.tls, 8), 8, absptr(obj("other group", s2))); s2.store(E, Ptr(self.tls, 16), 8, absptr(obj("other item", s2)))
            return [Outcome("ret", st, fresh("state", 32)), Outcome("ret", s2, fresh("state", 32)), Outcome("throw", s3, "FatalError")]
        M_[WI + "step"] = step
        def comp(E, st, a, I):
            here(st, a[1], "completion of the current group"); E.oblige(st, And(peq(a[0], Ptr(self.ctx)), self.gv(st, self.QUIET) == 3), "a group is complete only when no work-item can run or waits at a barrier"); E.oblige(st, self.gv(st, self.DONE) == 0, "completion is reported once"); self.gs(st, self.DONE, 1); return 0
        M_["oclgrind::Context::notifyWorkGroupComplete"] = comp; M_["oclgrind::Context::notifyWorkGroupBegin"] = lambda E, st, a, I: 0
        vt = Region("vtable"); self.objs = Region("objects", fam=True); E.absregion = self.objs
        def dele(E, st, a, I):
            E.oblige(st, And(eq(addr(a[0]), cur(st)), self.gv(st, self.ALIVE) == 1), "deletes the current group"); E.oblige(st, Or(self.gv(st, self.DONE) == 1, self.gv(st, self.EXC) == 1), "a group is deleted only when it is complete, or after a fatal error"); self.gs(st, self.ALIVE, 0); return 0
        fn = Region("virtual destructor"); fn.fnptr = dele; vt.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(fn)); self.objs.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(vt)) if isc(off) and off == 0 else None
        def catch(E, st, a, I): self.gs(st, self.EXC, 1); return Ptr(self.exc)
        self.exc = Region("exception"); wh = Region("what"); wh.fnptr = lambda E, st, a, I: Ptr(Region("text")) if I.get("ty") == "ptr" else fresh("line", 64); ev = Region("exception vtable"); ev.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(wh)); self.exc.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(ev))
        M_["__cxa_begin_catch"] = catch; M_["llvm.eh.typeid.for.p0"] = lambda E, st, a, I: 1; E.lpad = (Ptr(self.exc), 1); E.follow_throw = True      # FatalError is what WorkItem::step throws
        def wgsize(E, st, a, I):
            E.oblige(st, peq(a[1], Ptr(self.this)), "the size of a group of this invocation"); w = size3(st, E, one(E, st, a[2])); self.lemma(st, w); o = one(E, st, a[0])
            for i, (y, g, l) in enumerate(zip(w, self.G, self.L)):
                x = z3.BitVec("group size %s_%d" % (AX[i], next(fresh_id)), 64); st.assume(x == z3.If(z3.ULT(g - y * l, l), g - y * l, l)); st.store(E, pgep(o, 8 * i), 8, x)
            return 0
        if has(m, KI + "getWorkGroupSize"): M_[KI + "getWorkGroupSize"] = wgsize
        def hint(E, d):
            g = lambda o: (lambda s, v: self.gv(s, o)); c = []
            for o, k in ((self.PEND, 0), (self.ALIVE, 0), (self.ALIVE, 1), (self.UNPOP, 0), (self.EXC, 0), (self.DONE, 0), (self.QUIET, 3)): c.append(("ghost %d = %d" % (o, k), lambda s, v, o=o, k=k: self.gv(s, o) == k))
            c.append(("current group", lambda s, v: cur(s) != 0)); c.append(("current item", lambda s, v: item(s) != 0))
            c.append(("no item means the group is quiet", lambda s, v: z3.Implies(item(s) == 0, self.gv(s, self.QUIET) == 3)))
            c.append(("no item means none can run", lambda s, v: z3.Implies(item(s) == 0, self.gv(s, self.QUIET) == 1)))
            c.append(("between groups", lambda s, v: z3.Implies(self.gv(s, self.ALIVE) == 0, self.gv(s, self.PEND) == 0)))
            return c
        E.hints.append(hint)
    def gv(self, s, o): return bvv(s.load(self.E, Ptr(self.g, o), 8), 64)
    def gs(self, s, o, v): s.store(self.E, Ptr(self.g, o), 8, v if not isinstance(v, int) else v)
    def lemma(self, st, w):
        """the facts about group w (lemma_groups): it starts inside the range, and the remainder is what is left when it does not fit"""
        for y, g, l in zip(w, self.G, self.L):
            st.assume(z3.And((y + 1) * l == y * l + l, l * (y + 1) == y * l + l, l * y == y * l, z3.ULT(y * l, g), z3.UGE(y * l + l, l)))
            st.assume(z3.Implies(z3.UGT(y * l + l, g), z3.And(z3.URem(g, l) == g - y * l, z3.ULT(g - y * l, l)))); st.assume(z3.Implies(z3.ULE(y * l + l, g), z3.UGE(g - y * l, l)))
fresh_id = __import__("itertools").count()
def t_worker(t):
    W = Worker(t); E = W.E
    for oc in t.reached(E.exec_fn(W.m.fn(KI + "runWorker"), [Ptr(W.this), z3.BitVec("id", 32)], W.st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception leaves the worker")
        E.oblige(s, Or(W.gv(s, W.EXC) == 1, And(W.gv(s, W.PEND) == 0, W.gv(s, W.ALIVE) == 0)), "the worker stops only when no group is left")
        E.oblige(s, Implies_(W.gv(s, W.EXC) == 1, W.gv(s, W.ALIVE) == 0), "the group is deleted after a fatal error")
def t_wgsize(t):
    W = Worker(t); E = W.E; st = W.st; w = trip(E, "group"); r = Region("group id"); put3(r, 0, w); o = Region("result"); E.models.pop(KI + "getWorkGroupSize", None); W.lemma(st, w)
    for oc in t.reached(E.exec_fn(W.m.fn(KI + "getWorkGroupSize"), [Ptr(o), Ptr(W.this), Ptr(r)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); E.oblige(s, And(*[eq(x, z3.If(z3.ULT(g - y * l, l), g - y * l, l)) for x, y, g, l in zip(size3(s, E, Ptr(o)), w, W.G, W.L)]), "a group has the enqueued local size, or what is left of the range")
def Implies_(a, b): return z3.Implies(b2z(a), b2z(b))
# ---- a work-group creates its work-items
CT = r"^std::(__cxx11::)?(vector|map|set|list)<.*>::(vector|map|set|list)\(\)$"
def put(m, r, cls, f, v): put3(r, m.field(cls, f), v)
def novalues(E):
    """kernel arguments and local memory: not part of this property"""
    pre(E, CT, lambda E, st, a, I: 0); pre(E, r"^std::operator!=\(std::_Rb_tree_const_iterator<std::pair<llvm::Value const\* const, oclgrind::TypedValue", lambda E, st, a, I: z3.BoolVal(False)); pre(E, r"^oclgrind::Kernel::values_(begin|end)\(\)", lambda E, st, a, I: Ptr(Region("iterator"))); pre(E, r"^oclgrind::(Memory::Memory|MemoryPool::MemoryPool)\(", lambda E, st, a, I: 0)
    pre(E, r"^oclgrind::Kernel::get(Program|Function)\(", lambda E, st, a, I: Ptr(Region("program"))); pre(E, r"^oclgrind::Program::getInterpreterCache\(", lambda E, st, a, I: Ptr(Region("cache"))); pre(E, r"^oclgrind::InterpreterCache::getNumValues\(", lambda E, st, a, I: fresh("values", 32)); pre(E, r"::resize\(unsigned long\)", lambda E, st, a, I: 0)
def t_wgctor(t):
    E = t.engine(); st = State(); m = E.mod; g = Region("group"); ki = Region("invocation"); ctx = Region("context"); K = Region("kernel"); K.schemafn = None
    G, L, N, S, D = trip(E, "global size"), trip(E, "local size"), trip(E, "groups"), trip(E, "group size"), trip(E, "group id")
    for f, v in (("m_globalSize", G), ("m_localSize", L), ("m_numGroups", N)): put(m, ki, "KernelInvocation", f, v)
    ki.base[("c", m.field("KernelInvocation", "m_context"), 8)] = Ptr(ctx); ki.base[("c", m.field("KernelInvocation", "m_kernel"), 8)] = Ptr(K); novalues(E); E.coarse_sat = E.cut_nested = t.params is None
    for x in S: st.assume(x != 0)
    if t.params is not None:
        for x, k in zip(S, t.params): st.assume(x == k)
    gid, gsz = Region("argument"), Region("argument"); put3(gid, 0, D); put3(gsz, 0, S)
    gh = Region("ghost"); gh.base = {("c", 0, 8): 0}; gv = lambda s: bvv(s.load(E, Ptr(gh), 8), 64); gs = lambda s, v: s.store(E, Ptr(gh), 8, v)      # items created and not recorded: 1: in the list, 2: in the running set
    it = Region("work-item")
    w = Want(lambda c: [("invocation", Ptr(ki)), ("group", Ptr(g)), ("x", c[2]), ("y", c[1]), ("z", c[0])], lambda i: [])
    done = rows(E, st, [S[2], S[1], S[0]], "item", w)
    def new(E, st, a, I):
        if isc(a[0]) and a[0] == m.types["oclgrind::WorkItem"]["size"] if "oclgrind::WorkItem" in getattr(m, "types", {}) else True: return Ptr(it)
        return Ptr(it)
    E.models["operator new(unsigned long)"] = new
    def ctor(E, st, a, I):
        E.oblige(st, gv(st) == 0, "a new work-item only after the last one was recorded"); gs(st, 3); E.models["item"](E, st, [a[1], a[2]] + size3(st, E, one(E, st, a[3])), I); return 0
    pre(E, r"^oclgrind::WorkItem::WorkItem\(", ctor)
    def rec(bit, nm, fld):
        def f(E, st, a, I):
            E.oblige(st, And(peq(a[0], Ptr(g, m.field("WorkGroup", fld))), peq(st.load(E, one(E, st, a[1]), 8, "ptr"), Ptr(it)), (gv(st) & bit) != 0), "the work-item just created is recorded once: " + nm); gs(st, gv(st) & ~z3.BitVecVal(bit, 64)); return 0
        return f
    pre(E, r"^std::vector<oclgrind::WorkItem\*, .*>::(push_back|emplace_back)", rec(1, "list", "m_workItems")); pre(E, r"^std::set<oclgrind::WorkItem\*, .*>::(insert|emplace)", rec(2, "running set", "m_running"))
    E.hints.append(lambda E, d: [("all recorded", lambda s, v: gv(s) == 0)])
    fn = next((f for n, f in m.fns.items() if f.dem.startswith("oclgrind::WorkGroup::WorkGroup(oclgrind::KernelInvocation const*, oclgrind::Size3, oclgrind::Size3)") and not f.decl), None)
    if fn is None: raise KeyError("WorkGroup::WorkGroup")
    for oc in t.reached(E.exec_fn(fn, [Ptr(g), Ptr(ki), Ptr(gid), Ptr(gsz)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); done(s); E.oblige(s, gv(s) == 0, "every work-item is recorded")
        for f, v in (("m_groupID", D), ("m_groupSize", S)): E.oblige(s, And(*[eq(x, y) for x, y in zip(size3(s, E, Ptr(g, m.field("WorkGroup", f))), v)]), "identity of the group: " + f)
        E.oblige(s, eq(v64(s, E, Ptr(g), m.field("WorkGroup", "m_groupIndex")), D[0] + (D[1] + D[2] * N[1]) * N[0]), "linear index of the group")
        E.oblige(s, peq(s.load(E, Ptr(g, m.field("WorkGroup", "m_barrier")), 8, "ptr"), NULL), "no barrier yet")
def t_wgctor2(t):
    """the constructor without a size: the enqueued local size"""
    E = t.engine(); st = State(); m = E.mod; g = Region("group"); ki = Region("invocation"); L, D = trip(E, "local size"), trip(E, "group id"); put(m, ki, "KernelInvocation", "m_localSize", L); gid = Region("argument"); put3(gid, 0, D); n = []
    def ctor(E, st, a, I): E.oblige(st, And(peq(a[0], Ptr(g)), peq(a[1], Ptr(ki)), *[eq(x, y) for x, y in zip(size3(st, E, one(E, st, a[2])) + size3(st, E, one(E, st, a[3])), D + L)]), "delegates with the enqueued local size"); st.log("ctor", 1); return 0
    pre(E, r"^oclgrind::WorkGroup::WorkGroup\(oclgrind::KernelInvocation const\*, oclgrind::Size3, oclgrind::Size3\)", ctor)
    fn = next(f for n, f in m.fns.items() if f.dem.startswith("oclgrind::WorkGroup::WorkGroup(oclgrind::KernelInvocation const*, oclgrind::Size3)") and not f.decl)
    for oc in t.reached(E.exec_fn(fn, [Ptr(g), Ptr(ki), Ptr(gid)], st)): E.oblige(oc.st, len(oc.st.ghost.get("ctor", ())) == 1, "constructed once")
def llvmv(E, st, a, I):
    """a value of the LLVM library (the program being run): anything"""
    def mk(ty):
        if isinstance(ty, dict): return tuple(mk(x) for _, x in ty["e"])
        if ty is None or ty == "void": return 0
        return Ptr(Region("llvm")) if ty == "ptr" else freshb("llvm") if ty == "i1" else fresh("llvm", int(ty[1:])) if ty[0] == "i" else 0
    return mk(I.get("ty"))
def t_wictor(t):
    E = t.engine(); st = State(); m = E.mod; w = Region("work-item"); g = Region("group"); ki = Region("invocation"); ctx = Region("context")
    G, L, O, D, X, S = trip(E, "global size"), trip(E, "local size"), trip(E, "offset"), trip(E, "group id"), trip(E, "local id"), trip(E, "group size")
    for f, v in (("m_globalSize", G), ("m_localSize", L), ("m_globalOffset", O)): put(m, ki, "KernelInvocation", f, v)
    ki.base[("c", m.field("KernelInvocation", "m_context"), 8)] = Ptr(ctx); ki.base[("c", m.field("KernelInvocation", "m_kernel"), 8)] = Ptr(Region("kernel"))
    put(m, g, "WorkGroup", "m_groupID", D); put(m, g, "WorkGroup", "m_groupSize", S); novalues(E); a = Region("argument"); put3(a, 0, X)
    E.models["operator new(unsigned long)"] = lambda E, st, a, I: Ptr(Region("object", local=True))
    pre(E, r"^llvm::", llvmv)
    fn = next(f for n, f in m.fns.items() if f.dem.startswith("oclgrind::WorkItem::WorkItem(oclgrind::KernelInvocation const*, oclgrind::WorkGroup*, oclgrind::Size3)") and not f.decl)
    for oc in t.reached(E.exec_fn(fn, [Ptr(w), Ptr(ki), Ptr(g), Ptr(a)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); gid = [x + d * l + o for x, d, l, o in zip(X, D, L, O)]
        E.oblige(s, And(*[eq(x, y) for x, y in zip(size3(s, E, Ptr(w, m.field("WorkItem", "m_localID"))), X)]), "local ID"); E.oblige(s, And(*[eq(x, y) for x, y in zip(size3(s, E, Ptr(w, m.field("WorkItem", "m_globalID"))), gid)]), "global ID = offset + group ID * enqueued local size + local ID")
        E.oblige(s, eq(v64(s, E, Ptr(w), m.field("WorkItem", "m_globalIndex")), gid[0] + (gid[1] + gid[2] * G[1]) * G[0]), "linear index of the work-item")
        E.oblige(s, And(peq(s.load(E, Ptr(w, m.field("WorkItem", "m_workGroup")), 8, "ptr"), Ptr(g)), peq(s.load(E, Ptr(w, m.field("WorkItem", "m_kernelInvocation")), 8, "ptr"), Ptr(ki))), "the work-item belongs to its group"); E.oblige(s, eq(bvv(s.load(E, Ptr(w, m.field("WorkItem", "m_state")), 4), 32), m.enum("oclgrind::WorkItem::State", "READY")), "a new work-item is ready")
def t_getitem(t):
    E = t.engine(); st = State(); m = E.mod; g = Region("group"); S, X = trip(E, "group size"), trip(E, "local id"); put(m, g, "WorkGroup", "m_groupSize", S); a = Region("argument"); put3(a, 0, X); cell = Region("element", fam=True); cell.schemafn = lambda off: (lambda E, inst, off, tag: absptr(inst))
    def at(E, st, a, I): E.oblige(st, And(peq(a[0], Ptr(g, m.field("WorkGroup", "m_workItems"))), eq(bvv(a[1], 64), X[0] + (X[1] + X[2] * S[1]) * S[0])), "the position at which the work-item was recorded"); return Ptr(cell, 0, bvv(a[1], 64))
    pre(E, r"^std::vector<oclgrind::WorkItem\*, .*>::(operator\[\]|at)\(", at)
    for oc in t.reached(E.exec_fn(m.fn(WG + "getWorkItem"), [Ptr(g), Ptr(a)], st)): E.oblige(oc.st, eq(addr(oc.val), X[0] + (X[1] + X[2] * S[1]) * S[0]), "returns that work-item")
def lemma_rank(t):
    """positions i + (j + k*Y)*X of the points of X*Y*Z (in the order of creation) are 0, 1, 2, ..."""
    E = t.engine(); st = State(); X, Y, i, j, k = z3.Ints("X Y i j k"); r = lambda i, j, k: i + (j + k * Y) * X; s = lambda *h: (lambda S: (S.add(*h), S.check())[1])(z3.Solver())
    E.oblige(st, s(z3.Not(r(i + 1, j, k) == r(i, j, k) + 1)) == z3.unsat, "next in the row"); E.oblige(st, s(i == X - 1, z3.Not(r(0, j + 1, k) == r(i, j, k) + 1)) == z3.unsat, "next row"); E.oblige(st, s(i == X - 1, j == Y - 1, z3.Not(r(0, 0, k + 1) == r(i, j, k) + 1)) == z3.unsat, "next plane"); E.oblige(st, s(z3.Not(r(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)) == 0)) == z3.unsat, "first"); t.paths += 1
def t_cmp(t):
    E = t.engine(); st = State(); m = E.mod; r = []; V = []
    for nm in ("left", "right"):
        w = Region(nm); v = trip(E, nm); put(m, w, "WorkItem", "m_globalID", v); r.append(w); V.append(v)
    lt = lambda a, b: z3.Or(z3.ULT(a[2], b[2]), z3.And(a[2] == b[2], z3.Or(z3.ULT(a[1], b[1]), z3.And(a[1] == b[1], z3.ULT(a[0], b[0])))))
    for oc in t.reached(E.exec_fn(next(f for x, f in m.fns.items() if f.dem.startswith("oclgrind::WorkGroup::WorkItemCmp::operator()(") and not f.decl), [Ptr(Region("this")), Ptr(r[0]), Ptr(r[1])], st)): E.oblige(oc.st, b2z(oc.val) == lt(*V), "the running set is ordered by global ID: no two work-items of a group are equal")
def t_next(t):
    E = t.engine(); st = State(); m = E.mod; g = Region("group"); cell = Region("element"); x = z3.BitVec("first", 64); cell.base[("c", 0, 8)] = absptr(x); emp = z3.Bool("empty"); S = Ptr(g, m.field("WorkGroup", "m_running"))
    E.models["std::set<oclgrind::WorkItem*>::x"] = None; T = r"^std::set<oclgrind::WorkItem\*, oclgrind::WorkGroup::WorkItemCmp, .*>::"
    pre(E, T + r"empty\(\)", lambda E, st, a, I: (E.oblige(st, peq(a[0], S), "the running set"), emp)[1]); pre(E, T + r"size\(\)", lambda E, st, a, I: z3.If(emp, z3.BitVecVal(0, 64), z3.BitVec("n", 64))); st.assume(z3.BitVec("n", 64) != 0)
    pre(E, T + r"c?begin\(\)", lambda E, st, a, I: (E.oblige(st, And(peq(a[0], S), Not(emp)), "the first of a non-empty running set"), Ptr(cell))[1]); pre(E, r"^std::_Rb_tree_const_iterator<oclgrind::WorkItem\*>::operator\*", lambda E, st, a, I: Ptr(cell))
    for oc in t.reached(E.exec_fn(m.fn(WG + "getNextWorkItem"), [Ptr(g)], st)): E.oblige(oc.st, z3.If(emp, b2z(peq(oc.val, NULL)), b2z(Not(peq(oc.val, NULL)) if oc.val is NULL else eq(addr(oc.val), x) if not (isinstance(oc.val, Ptr) and oc.val.r is None and isc(oc.val.off)) else False)), "a work-item that can run, if there is one")
def t_start(t):
    """run(): one worker per thread, started with the counter at 0, and all of them waited for"""
    E = t.engine(); st = State(); m = E.mod; ki = Region("invocation"); n = z3.BitVec("workers", 32); E.inputs["workers"] = n; ki.base[("c", m.field("KernelInvocation", "m_numWorkers"), 4)] = n; E.cut_at = 0
    if t.params is not None: st.assume(n == t.params)
    g = Region("ghost"); g.base = {("c", 8 * i, 8): 0 for i in range(4)}; gv = lambda s, i: bvv(s.load(E, Ptr(g, 8 * i), 8), 64); gs = lambda s, i, v: s.store(E, Ptr(g, 8 * i), 8, v)     # zeroed, started, recorded, joined
    def zero(E, st, a, I): E.oblige(st, And(gv(st, 1) == 0, eq(bvv(a[1], 32), 0)), "the counter starts at 0, before any worker does"); gs(st, 0, 1); return a[1]
    pre(E, r"^std::(__atomic_base|atomic)<unsigned int>::(operator=|store)\(unsigned int", zero)
    T = r"^std::vector<std::thread, .*>::"; pre(E, T + r"(vector|~vector)\(", lambda E, st, a, I: 0); pre(E, r"^std::thread::~thread", lambda E, st, a, I: 0)
    def ctor(E, st, a, I):
        E.oblige(st, gv(st, 0) == 1, "the counter is reset before workers start"); E.oblige(st, gv(st, 1) == gv(st, 2), "the last worker was recorded"); k = bvv(st.load(E, one(E, st, a[3]), 4), 32)
        E.oblige(st, And(peq(st.load(E, one(E, st, a[2]), 8, "ptr"), Ptr(ki)), eq(z3.ZeroExt(32, k), gv(st, 1))), "every worker runs this invocation with its own number"); gs(st, 1, gv(st, 1) + 1); return 0
    pre(E, r"^std::thread::thread<", ctor)
    def push(E, st, a, I): E.oblige(st, gv(st, 2) + 1 == gv(st, 1), "the worker just started is recorded"); gs(st, 2, gv(st, 2) + 1); return 0
    pre(E, T + r"(push_back|emplace_back)\(std::thread&&", push)
    el = Region("thread", fam=True); pre(E, T + r"size\(\)", lambda E, st, a, I: gv(st, 2))
    def at(E, st, a, I): E.oblige(st, z3.ULT(bvv(a[1], 64), gv(st, 2)), "index of a worker"); return Ptr(el, 0, bvv(a[1], 64))
    pre(E, T + r"(operator\[\]|at)\(", at)
    def join(E, st, a, I): p = one(E, st, a[0]); E.oblige(st, eq(bvv(p.inst, 64), gv(st, 3)), "every worker is waited for once"); gs(st, 3, gv(st, 3) + 1); return 0
    E.models["std::thread::join"] = join
    def hint(E, d):
        c = [("recorded", lambda s, v: gv(s, 1) == gv(s, 2)), ("reset", lambda s, v: gv(s, 0) == 1), ("started all", lambda s, v: gv(s, 1) == z3.ZeroExt(32, n)), ("waited for none", lambda s, v: gv(s, 3) == 0)]
        for k, (x, w) in d["vars"].items():
            if k[0] in ("p", "m") and k[1] is not g and w == 32:
                for i in (1, 3): c.append(("counter %d" % i, lambda s, v, k=k, i=i: z3.And(z3.ZeroExt(32, bvv(v[k], 32)) == gv(s, i), z3.ULE(bvv(v[k], 32), n))))
        return c
    E.hints.append(hint); fn = next(f for x, f in m.fns.items() if f.dem.startswith("oclgrind::KernelInvocation::run()") and not f.decl)
    for oc in t.reached(E.exec_fn(fn, [Ptr(ki)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); E.oblige(s, And(gv(s, 1) == z3.ZeroExt(32, n), gv(s, 3) == z3.ZeroExt(32, n)), "the configured number of workers ran, and all have finished")
def t_launch(t):
    E = t.engine(); st = State(); m = E.mod; G, L, O = trip(E, "global size"), trip(E, "local size"), trip(E, "offset"); dim = z3.BitVec("dimensions", 32); ctx, K, ki = Region("context"), Region("kernel"), Region("invocation"); A = []
    for v in (O, G, L):
        r = Region("argument"); put3(r, 0, v); A.append(Ptr(r))
    step = lambda nm, f=None: (lambda E, st, a, I: ((f(st, a) if f else None), st.log("steps", nm), 0)[2])
    E.models["operator new(unsigned long)"] = lambda E, st, a, I: Ptr(ki); pre(E, r"^oclgrind::KernelInvocation::KernelInvocation\(", step("create", lambda st, a: E.oblige(st, And(peq(a[0], Ptr(ki)), peq(a[1], Ptr(ctx)), peq(a[2], Ptr(K)), eq(bvv(a[3], 32), dim), *[eq(x, y) for q, v in zip(a[4:7], (O, G, L)) for x, y in zip(size3(st, E, one(E, st, q)), v)]), "the launch as requested: offset, global size, local size")))
    pre(E, r"^oclgrind::KernelInvocation::run\(\)", step("run")); pre(E, r"^oclgrind::KernelInvocation::~KernelInvocation", step("delete")); E.models["oclgrind::Context::notifyKernelBegin"] = step("begin"); E.models["oclgrind::Context::notifyKernelEnd"] = step("end"); E.models["operator delete(void*, unsigned long)"] = lambda E, st, a, I: 0
    vt = Region("vtable"); d = Region("destructor"); d.fnptr = step("delete"); vt.schemafn = lambda off: (lambda E, inst, off, tag: Ptr(d)); ki.base[("c", 0, 8)] = Ptr(vt)
    fn = next(f for x, f in m.fns.items() if f.dem.startswith("oclgrind::KernelInvocation::run(oclgrind::Context const*") and not f.decl)
    for oc in t.reached(E.exec_fn(fn, [Ptr(ctx), Ptr(K), dim] + A, st)): E.oblige(oc.st, oc.kind == "ret" and tuple(x[0] if isinstance(x, tuple) else x for x in oc.st.ghost.get("steps", ())) == ("create", "begin", "run", "end", "delete"), "the kernel begins, runs, ends")
def tasks_N01(mod):
    F3 = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2)]
    out = [Task("group list (uniform groups)", KI + "KernelInvocation", each(lambda t: t_ki(t, False, True)), fallback=F3)]
    for k in range(8):
        r = [k >> i & 1 for i in range(3)]; out.append(Task("group list (remainders in %s)" % ("".join(a for a, x in zip(AX, r) if x) or "none"), KI + "KernelInvocation", each(lambda t, r=r: t_ki(t, False, False, r)), fallback=F3))
    out += [Task("group list, quick mode", KI + "KernelInvocation", lambda t: t_ki(t, True, False))]
    out += [Task("work-items of a group", WG + "WorkGroup", each(t_wgctor), fallback=F3), Task("group of the enqueued size", WG + "WorkGroup", t_wgctor2), Task("work-item IDs", WI + "WorkItem", t_wictor), Task("work-item of a local ID", WG + "getWorkItem", t_getitem), Task("lemma: positions", WG + "getWorkItem", lemma_rank), Task("order of work-items", WG + "WorkItemCmp", t_cmp), Task("next work-item", WG + "getNextWorkItem", t_next), Task("start workers", KI + "run", each(t_start), fallback=[1, 2, 3]), Task("launch", KI + "run", t_launch)]
    out += [Task("worker", KI + "runWorker", t_worker)]
    if has(mod, KI + "getWorkGroupSize"): out += [Task("work-group size", KI + "getWorkGroupSize", t_wgsize)]
    return out
