"""N02, B07: contracts on barriers and on the events waited for at barriers (WorkGroup, WorkItem, builtins).
Work-items are known by their address; sets and lists by their element count and an element function."""
import re, z3
from engine import *
from run import Task
from memcheck import one, each
from ndrange import WG, WI, KI, pre, absptr, addr, v64, t_worker, t_next, t_cmp, has
import containers as C
RUN = r"^std::set<oclgrind::WorkItem\*, oclgrind::WorkGroup::WorkItemCmp, .*>::"
EVL = r"^std::(__cxx11::)?list<unsigned long, .*>::"
MSG = "oclgrind::Context::Message::"
def messages(E, ctx):
    """exactly the messages sent; what they say is not specified"""
    M_ = E.models; ERR = E.mod.enum("MessageType", "ERROR")
    def ctor(E, st, a, I): E.oblige(st, And(eq(bvv(a[1], 32), ERR), peq(a[2], Ptr(ctx))), "an error message of this context"); return 0
    M_[MSG + "Message"] = ctor; M_[MSG + "send"] = lambda E, st, a, I: (st.log("sent", 1), 0)[1]; M_[MSG + "~Message"] = lambda E, st, a, I: 0
    E.rmodels.insert(0, (re.compile(r"oclgrind::Context::Message::operator<<"), lambda E, st, a, I: a[0]))
def sent(s): return len(s.ghost.get("sent", ()))
CTOR = r"^std::(__cxx11::)?(vector|map|set|list)<.*>::(vector|map|set|list)\(\)$"
class Group:
    def __init__(self, t, barrier=True):
        self.E = E = t.engine(); self.m = m = E.mod; self.st = st = State(); self.g = g = Region("group"); self.ctx = Region("context"); F = lambda f: m.field("WorkGroup", f)
        g.base[("c", F("m_context"), 8)] = Ptr(self.ctx); self.b = Region("barrier"); self.bf = bf = lambda f: m.field("WorkGroup::Barrier", f)
        g.base[("c", F("m_barrier"), 8)] = Ptr(self.b) if barrier else NULL; self.I0 = Region("barrier instruction"); self.fence0 = z3.BitVec("fence of the barrier", 64)
        self.b.base[("c", bf("instruction"), 8)] = Ptr(self.I0); self.b.base[("c", bf("fence"), 8)] = self.fence0; E.inputs["fence of the barrier"] = self.fence0
        messages(E, self.ctx); pre(E, CTOR, lambda E, st, a, I: 0)
        self.running = Ptr(g, F("m_running")); self.items = Ptr(g, F("m_workItems")); self.N = z3.BitVec("work-items of the group", 64); self.evmap = Ptr(g, F("m_events"))
        st.assume(z3.ULE(self.N, 1 << 30)); st.assume(self.N != 0); E.inputs["work-items of the group"] = self.N
        pre(E, r"^std::vector<oclgrind::WorkItem\*, .*>::size\(\) const", lambda E, st, a, I: (E.oblige(st, peq(a[0], self.items), "the work-items of this group"), self.N)[1])
        E.models["oclgrind::Context::logError"] = lambda E, st, a, I: (st.log("error", 1), 0)[1]
        def new(E, st, a, I): r = Region("new barrier", local=True); st.log("new", r); return Ptr(r)
        E.models["operator new(unsigned long)"] = new; E.models["operator delete(void*, unsigned long)"] = lambda E, st, a, I: (st.log("deleted", one(E, st, a[0]).r), 0)[1]
    def barrier(self, s): return s.load(self.E, Ptr(self.g, self.m.field("WorkGroup", "m_barrier")), 8, "ptr")
def item(E, s, p): return addr(s.load(E, one(E, s, p), 8, "ptr"))
def t_finished(t):
    G = Group(t); E = G.E; b = z3.Bool("a barrier is pending"); G.g.base[("c", G.m.field("WorkGroup", "m_barrier"), 8)] = pite(b, Ptr(G.b), NULL); x = z3.BitVec("work-item", 64); emp = z3.Bool("no other work-item can run"); ev = z3.Bool("no events pending")
    def erase(E, st, a, I): E.oblige(st, And(peq(a[0], G.running), eq(item(E, st, a[1]), x)), "the finished work-item can no longer run"); st.log("erase", 1); return 1
    pre(E, RUN + r"erase\(", erase)
    pre(E, RUN + r"(empty|size)\(\)", lambda E, st, a, I: (E.oblige(st, peq(a[0], G.running), "the running set"), E.oblige(st, len(st.ghost.get("erase", ())) == 1, "after the work-item was removed"), emp if I.get("ty") == "i1" else z3.If(emp, z3.BitVecVal(0, 64), z3.BitVec("others", 64)))[2])
    G.st.assume(z3.BitVec("others", 64) != 0); G.st.assume(z3.BitVec("pending", 64) != 0)
    pre(E, r"^std::map<unsigned long, .*>::(empty|size)\(\)", lambda E, st, a, I: (E.oblige(st, peq(a[0], G.evmap), "the pending events"), ev if I.get("ty") == "i1" else z3.If(ev, z3.BitVecVal(0, 64), z3.BitVec("pending", 64)))[1])
    for oc in t.reached(E.exec_fn(G.m.fn(WG + "notifyFinished"), [Ptr(G.g), absptr(x)], G.st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); E.oblige(s, len(s.ghost.get("erase", ())) == 1, "the work-item is removed once")
        E.oblige(s, peq(G.barrier(s), pite(b, Ptr(G.b), NULL)), "the barrier of the others is not touched"); w = And(emp, Not(b), Not(ev)); n = len(s.ghost.get("error", ()))
        E.oblige(s, n == 1 if False else (w if n == 1 else Not(w) if n == 0 else False), "events nobody waited for are reported when the last work-item finishes")
def t_state(t):
    E = t.engine(); st = State(); m = E.mod; w = Region("work-item"); x = z3.BitVec("state", 32); o = m.field("WorkItem", "m_state"); w.base[("c", o, 4)] = x; B, R = (m.enum("oclgrind::WorkItem::State", k) for k in ("BARRIER", "READY"))
    for oc in t.reached(E.exec_fn(m.fn(WI + "clearBarrier"), [Ptr(w)], st)): E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(w, o), 4), 32), z3.If(x == B, z3.BitVecVal(R, 32), x)), "a waiting work-item can run again, finished ones stay finished")
def t_has(t):
    G = Group(t); E = G.E; b = z3.Bool("barrier"); G.g.base[("c", G.m.field("WorkGroup", "m_barrier"), 8)] = pite(b, Ptr(G.b), NULL)
    for oc in t.reached(E.exec_fn(G.m.fn(WG + "hasBarrier"), [Ptr(G.g)], G.st)): E.oblige(oc.st, b2z(oc.val) == b, "a barrier is pending")
# ---- arriving at a barrier
class Events:
    """two event lists: those given by the arriving work-item, and those of the pending barrier"""
    def __init__(self, G, t):
        E = G.E; st = G.st; B = z3.BitVecSort(64); self.new, self.old = z3.Function("event waited for", B, B), z3.Function("event of the barrier", B, B); self.known = z3.Function("event exists", B, z3.BoolSort())
        self.n, self.o = z3.BitVec("events waited for", 64), z3.BitVec("events of the barrier", 64); self.L = Region("event list"); self.E = E; self.G = G
        for x in (self.n, self.o): st.assume(z3.ULE(x, 1 << 30)); E.inputs[str(x)] = x
        if t.params is not None: self.n, self.o = (z3.BitVecVal(k, 64) for k in t.params)
        el = lambda f: lambda off: (lambda E, inst, o, tag: f(z3.LShR(bvv(o, 64), 3)))
        self.sn, self.so = C.Seq(E, "events waited for", 8, el(self.new)), C.Seq(E, "events of the barrier", 8, el(self.old)); self.copied = set()
        def which(st, p):
            p = one(E, st, p)
            if p.r is self.L: return self.sn.r, self.n
            if p.r is G.b: E.oblige(st, eq(p.off, G.bf("events")), "the events of the barrier"); return self.so.r, self.o
            if p.r in st.ghost.get("new", ()) and p.r in [x for x in st.ghost.get("assign", ())]: return self.sn.r, self.n
            raise Unsupported("event list")
        pre(E, EVL + r"size\(\)", lambda E, st, a, I: which(st, a[0])[1]); pre(E, EVL + r"empty\(\)", lambda E, st, a, I: eq(which(st, a[0])[1], 0))
        pre(E, EVL + r"c?begin\(\)", lambda E, st, a, I: Ptr(which(st, a[0])[0], 0)); pre(E, EVL + r"c?end\(\)", lambda E, st, a, I: (lambda w: Ptr(w[0], mul(w[1], 8, 64)))(which(st, a[0])))
        def assign(E, st, a, I):
            d = one(E, st, a[0]); E.oblige(st, And(d.r in st.ghost.get("new", ()), eq(d.off, G.bf("events")), peq(a[1], Ptr(self.L))), "the new barrier waits for the events given"); st.log("assign", d.r); return a[0]
        pre(E, EVL + r"operator=\(", assign); IT = r"^std::_List_(const_)?iterator<unsigned long>"; C.seq_iter(E, IT, 8); C.iter_cmp(E, r"std::_List_(const_)?iterator<unsigned long")
        self.assumed = lambda k: True
        def deref(E, st, a, I):
            p = C.it(E, st, a[0]); k = z3.LShR(bvv(p.off, 64), 3); E.oblige(st, z3.ULT(k, self.n if p.r is self.sn.r else self.o), "only existing events are read"); st.assume(self.assumed(k)); return p
        pre(IT and E, IT + r"::operator\*\(\) const", deref)
        pre(E, r"^std::map<unsigned long, .*>::count\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], G.evmap), "the group's events"), z3.If(self.known(bvv(st.load(E, one(E, st, a[1]), 8), 64)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))[1])
        self.q = z3.BitVec("some event", 64); E.inputs["some event"] = self.q; self.gh = Region("ghost"); self.gh.base = {("c", 0, 8): 0}; self.err = lambda s: bvv(s.load(E, Ptr(self.gh), 8), 64)
        E.models["oclgrind::Context::logError"] = lambda E, st, a, I: (st.store(E, Ptr(self.gh), 8, 1), 0)[1]
        def hint(E, d):
            c = [("nothing reported", lambda s, v: self.err(s) == 0), ("flag", lambda s, v: z3.ULE(self.err(s), 1))]; vs = [k for k, (x, w) in d["vars"].items() if w == 64 and k[0] in ("po", "mo")]
            for k in vs:
                for lim in (self.n,) if self.first else (self.n, self.o): c.append(("position", lambda s, v, k=k, lim=lim: z3.And(z3.ULE(bvv(v[k], 64), lim * 8), bvv(v[k], 64) & 7 == 0)))
                if not self.first: c.append(("not past the event in question", lambda s, v, k=k: z3.ULE(bvv(v[k], 64), self.q * 8)))
                else: c.append(("reported once passed", lambda s, v, k=k: z3.Or(z3.ULE(bvv(v[k], 64), self.q * 8), self.err(s) != 0)))
                for j in vs:
                    if j != k: c.append(("in step", lambda s, v, k=k, j=j: bvv(v[k], 64) == bvv(v[j], 64)))
                for j, (x, w) in d["vars"].items():
                    if w == 32: c.append(("index in step", lambda s, v, k=k, j=j: z3.SignExt(32, bvv(v[j], 32)) * 8 == bvv(v[k], 64)))
            return c
        E.hints.append(hint)
def t_notify(t, mode):
    """mode: first | first, known | same | other line | other fence | other count | other event"""
    first = mode.startswith("first"); G = Group(t, not first); E = G.E; st = G.st; ev = Events(G, t); ev.first = first; x = z3.BitVec("work-item", 64); ins = Region("arriving instruction"); fence = z3.BitVec("fence", 64); E.inputs["fence"] = fence; E.cut_at = 0
    loc = z3.Bool("same source location"); dl = {G.I0: Region("location of the barrier"), ins: Region("location of the arrival")}
    def getloc(E, st, a, I): return Ptr(dl[one(E, st, a[0]).r])
    pre(E, r"^llvm::Instruction::getDebugLoc\(\)", getloc)
    def cmp(neg):
        def f(E, st, a, I):
            p, q = one(E, st, a[0]), one(E, st, a[1]); r = z3.BoolVal(True) if p.r is q.r else loc; return Not(r) if neg else r
        return f
    pre(E, r"^llvm::DebugLoc::operator!=", cmp(True)); pre(E, r"^llvm::DebugLoc::operator==", cmp(False))
    if mode == "same": st.assume(And(loc, fence == G.fence0, ev.n == ev.o)); ev.assumed = lambda k: ev.new(k) == ev.old(k)
    elif mode == "other line": st.assume(Not(loc))
    elif mode == "other fence": st.assume(fence != G.fence0)
    elif mode == "other count": st.assume(ev.n != ev.o)
    elif mode == "other event": st.assume(And(ev.n == ev.o, z3.ULT(ev.q, ev.n), ev.new(ev.q) != ev.old(ev.q)))
    elif mode == "first": st.assume(And(z3.ULT(ev.q, ev.n), z3.Not(ev.known(ev.new(ev.q)))))
    else: ev.assumed = lambda k: ev.known(ev.new(k))
    def bset(st, p): p = one(E, st, p); return And(p.r is G.b or p.r in st.ghost.get("new", ()), eq(p.off, G.bf("workItems")))
    def erase(E, st, a, I): E.oblige(st, And(peq(a[0], G.running), eq(item(E, st, a[1]), x)), "the arriving work-item no longer runs"); st.log("erase", 1); return 1
    def insert(E, st, a, I): E.oblige(st, And(bset(st, a[0]), eq(item(E, st, a[1]), x)), "the arriving work-item waits at the barrier"); st.log("insert", one(E, st, a[0]).r); return (Ptr(Region("node")), z3.BoolVal(True))
    pre(E, RUN + r"erase\(", erase); pre(E, RUN + r"(insert|emplace)\(", insert)
    for oc in t.reached(E.exec_fn(G.m.fn(WG + "notifyBarrier"), [Ptr(G.g), absptr(x), Ptr(ins), fence, Ptr(ev.L)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); b = G.barrier(s); b = one(E, s, b)
        E.oblige(s, len(s.ghost.get("erase", ())) == 1 and s.ghost.get("insert", ()) == (b.r,), "exactly the arriving work-item moves from running to waiting at this barrier")
        E.oblige(s, not s.ghost.get("deleted", ()), "the barrier stays")
        if first:
            E.oblige(s, (b.r,) == s.ghost.get("new", ()) == s.ghost.get("assign", ()), "the first arrival creates the barrier, with its events"); F = lambda f, k="int": s.load(E, Ptr(b.r, G.bf(f)), 8, k)
            E.oblige(s, And(peq(F("instruction", "ptr"), Ptr(ins)), eq(bvv(F("fence"), 64), fence)), "the barrier remembers where and with which fence it was reached"); E.oblige(s, sent(s) == 0, "no divergence")
            E.oblige(s, ev.err(s) == (1 if mode == "first" else 0), "waiting for an unknown event is reported" if mode == "first" else "waiting for known events is not reported")
        else:
            E.oblige(s, b.r is G.b and not s.ghost.get("assign", ()), "the pending barrier stays"); E.oblige(s, And(eq(bvv(s.load(E, Ptr(G.b, G.bf("fence")), 8), 64), G.fence0), peq(s.load(E, Ptr(G.b, G.bf("instruction")), 8, "ptr"), Ptr(G.I0))), "the pending barrier is unchanged")
            E.oblige(s, sent(s) == (0 if mode == "same" else 1), "no divergence at the same barrier" if mode == "same" else "divergence is reported once: %s" % mode)
# ---- leaving it
def t_clear(t):
    G = Group(t); E = G.E; st = G.st; m = G.m; n = z3.BitVec("work-items at the barrier", 64); E.inputs["work-items at the barrier"] = n; st.assume(z3.ULE(n, G.N))
    if t.params is not None: n = z3.BitVecVal(t.params, 64)
    nth = z3.Function("waiting work-item", z3.BitVecSort(64), z3.BitVecSort(64)); gh = Region("ghost"); gh.base = {("c", 0, 8): 0, ("c", 8, 8): 0, ("c", 16, 8): 0}; gv = lambda s, i: bvv(s.load(E, Ptr(gh, 8 * i), 8), 64); gs = lambda s, i, v: s.store(E, Ptr(gh, 8 * i), 8, v)
    sq = C.Seq(E, "waiting work-items", 8, lambda off: (lambda E, inst, o, tag: absptr(nth(z3.LShR(bvv(o, 64), 3))))); bset = Ptr(G.b, G.bf("workItems"))
    atb = lambda st, p: (E.oblige(st, peq(p, bset), "the work-items at this barrier"), E.oblige(st, gv(st, 2) == 0, "the waiting work-items are not forgotten before they run"))
    pre(E, RUN + r"size\(\)", lambda E, st, a, I: (atb(st, a[0]), n)[1]); pre(E, RUN + r"empty\(\)", lambda E, st, a, I: (atb(st, a[0]), eq(n, 0))[1]); pre(E, RUN + r"c?begin\(\)", lambda E, st, a, I: (atb(st, a[0]), Ptr(sq.r, 0))[1]); pre(E, RUN + r"c?end\(\)", lambda E, st, a, I: (atb(st, a[0]), Ptr(sq.r, mul(n, 8, 64)))[1])
    IT = r"^std::_Rb_tree_(const_)?iterator<oclgrind::WorkItem\*>"; C.seq_iter(E, IT, 8); C.iter_cmp(E, r"std::_Rb_tree_(const_)?iterator<oclgrind::WorkItem")
    def deref(E, st, a, I): p = C.it(E, st, a[0]); E.oblige(st, z3.ULT(z3.LShR(bvv(p.off, 64), 3), n), "only waiting work-items are looked at"); return p
    pre(E, IT + r"::operator\*\(\) const", deref)
    def clr(E, st, a, I): E.used_contracts.add(WI + "clearBarrier"); k = gv(st, 0); E.oblige(st, And(z3.ULT(k, n), eq(addr(one(E, st, a[0])), nth(k))), "every waiting work-item is released, in turn"); gs(st, 0, k + 1); return 0
    E.models[WI + "clearBarrier"] = clr
    def ins(E, st, a, I): k = gv(st, 1); E.oblige(st, And(peq(a[0], G.running), z3.ULT(k, n), eq(item(E, st, a[1]), nth(k))), "every waiting work-item can run again, in turn"); gs(st, 1, k + 1); return (Ptr(Region("node")), z3.BoolVal(True))
    pre(E, RUN + r"(insert|emplace)\(oclgrind::WorkItem\* const&", ins)
    def insr(E, st, a, I):
        p, q = (one(E, st, x) for x in a[1:3]); E.oblige(st, And(peq(a[0], G.running), gv(st, 1) == 0, peq(p, Ptr(sq.r, 0)), peq(q, Ptr(sq.r, mul(n, 8, 64)))), "all waiting work-items can run again"); gs(st, 1, n); return 0
    pre(E, RUN + r"void insert<|^void std::set<oclgrind::WorkItem\*, .*>::insert<", insr)
    pre(E, RUN + r"clear\(\)", lambda E, st, a, I: (atb(st, a[0]), E.oblige(st, And(gv(st, 0) == n, gv(st, 1) == n), "the waiting work-items are not forgotten before they run"), gs(st, 2, 1), 0)[3])
    pre(E, EVL + r"empty\(\)", lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(G.b, G.bf("events"))), "the events of the barrier"), z3.BoolVal(True))[1])
    def note(E, st, a, I): E.oblige(st, And(peq(a[0], Ptr(G.ctx)), peq(a[1], Ptr(G.g)), eq(bvv(a[2], 32), z3.Extract(31, 0, G.fence0))), "plugins are told of this group's barrier and its fence"); st.log("note", 1); return 0
    E.models["oclgrind::Context::notifyWorkGroupBarrier"] = note; pre(E, r"^oclgrind::WorkGroup::Barrier::~Barrier", lambda E, st, a, I: 0)
    def hint(E, d):
        c = []
        for k, (x, w) in d["vars"].items():
            if w == 64 and k[0] in ("po", "mo"):
                for i in (0, 1): c.append(("ghost %d in step" % i, lambda s, v, k=k, i=i: z3.And(bvv(v[k], 64) == gv(s, i) * 8, z3.ULE(gv(s, i), n))))
        for i in (0, 1):
            for z in (0, n): c.append(("ghost %d" % i, lambda s, v, i=i, z=z: gv(s, i) == z))
        return c
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(m.fn(WG + "clearBarrier"), [Ptr(G.g)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); k = sent(s); E.oblige(s, eq(n, G.N) if k == 0 else Not(eq(n, G.N)) if k == 1 else False, "divergence is reported once, exactly if some work-item of the group did not reach the barrier")
        E.oblige(s, And(gv(s, 0) == n, gv(s, 1) == n), "all waiting work-items can run again"); E.oblige(s, len(s.ghost.get("note", ())) == 1, "plugins are told of the barrier once"); E.oblige(s, peq(G.barrier(s), NULL) and s.ghost.get("deleted", ()) == (G.b,), "the barrier is over")
def t_builtin(t, name, ov):
    from lworld import LInst, LVal, I, LT
    from bltin import builtin_world
    from memins import wi_world
    E = t.engine(); st = State(); m = E.mod; v = [LVal(E, "flags", I(32))] + ([LVal(E, "scope", I(32))] if len(ov) > 1 else []); inst = LInst(E, st, "Call", LT("void"), v); w = wi_world(E, inst); f = z3.ZeroExt(32, bvv(v[0].lane(0), 32)); B = m.enum("oclgrind::WorkItem::State", "BARRIER"); so = m.field("WorkItem", "m_state")
    pre(E, EVL + r"(list|~list)\(|_List_base<unsigned long, .*>::~_List_base", lambda E, st, a, I: (st.log("list", one(E, st, a[0]).r), 0)[1])
    def nb(E, st, a, I):
        E.oblige(st, And(peq(a[0], Ptr(w.wg)), peq(a[1], Ptr(inst.this)), peq(a[2], Ptr(inst.r)), eq(bvv(a[3], 64), f)), "the work-item's own group is told of the barrier and its fence"); E.oblige(st, one(E, st, a[4]).r in st.ghost.get("list", ()), "no events"); st.log("arrive", 1); return 0
    E.models[WG + "notifyBarrier"] = nb
    for oc in t.reached(builtin_world(E, inst, name, ov)(st)): E.oblige(oc.st, oc.kind == "ret" and len(oc.st.ghost.get("arrive", ())) == 1, "the group is told once"); E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(inst.this, so), 4), 32), B), "the work-item waits")
def tasks_N02(mod):
    F2 = [(0, 0), (1, 1), (2, 2), (1, 2), (3, 3)]; F1 = [(0, 0), (1, 0), (2, 0), (3, 0)]
    out = [Task("a work-item finishes", WG + "notifyFinished", t_finished), Task("release of a work-item", WI + "clearBarrier", t_state), Task("pending barrier", WG + "hasBarrier", t_has)]
    for md in ("first", "first, known", "same", "other line", "other fence", "other count", "other event"): out.append(Task("arrival: " + md, WG + "notifyBarrier", each(lambda t, md=md: t_notify(t, md)), fallback=F1 if "first" in md else F2))
    out += [Task("release", WG + "clearBarrier", each(t_clear), fallback=[0, 1, 2, 3]), Task("next work-item", WG + "getNextWorkItem", t_next), Task("order of work-items", WG + "WorkItemCmp", t_cmp), Task("worker", KI + "runWorker", t_worker)]
    for nm, ov in (("barrier", "j"), ("work_group_barrier", "j"), ("work_group_barrier", "j12memory_scope")): out.append(Task("builtin %s(%s)" % (nm, ov), "oclgrind::WorkItemBuiltins::work_group_barrier", lambda t, nm=nm, ov=ov: t_builtin(t, nm, ov)))
    return out
# ---------------------------------------------------------------- B07: asynchronous copies
CF = ["instruction", "type", "dest", "src", "size", "num", "srcStride", "destStride", "event"]
CM = r"^std::map<unsigned long, std::(__cxx11::)?list<oclgrind::WorkGroup::AsyncCopy, .*>::"
PRL = r"^std::(__cxx11::)?list<std::pair<oclgrind::WorkGroup::AsyncCopy, .*>::"
CPL = r"^std::(__cxx11::)?(list|_List_base)<oclgrind::WorkGroup::AsyncCopy, .*>::"
WSET = r"^std::set<oclgrind::WorkItem const\*, .*>::"
STR = 128
class Copies:
    """m_asyncCopies: list of (copy, set of work-items that registered it)"""
    def __init__(self, G, t, n=None):
        E = self.E = G.E; m = G.m; B = z3.BitVecSort(64); st = G.st; self.N = z3.BitVec("registered copies", 64); E.inputs["registered copies"] = self.N; st.assume(z3.ULE(self.N, 1 << 30))
        if n is not None: self.N = z3.BitVecVal(n, 64)
        off = {m.field("WorkGroup::AsyncCopy", f): f for f in CF}; self.off = {f: o for o, f in off.items()}; self.f = {f: z3.Function("registered " + f, B, B) for f in CF}; self.size = m.sizeof("oclgrind::WorkGroup::AsyncCopy") if False else max(off) + 8
        def elem(o0):
            def g(E, inst, o, tag):
                fo = E.fieldof(self.s.r, o); k = z3.LShR(sub(bvv(o, 64), fo, 64), 7)
                if fo not in off: raise Unsupported("field of a registered copy")
                f = off[fo]; v = self.f[f](k)
                return Ptr(Region("registered instruction", fam=True), 0, v) if f == "instruction" else z3.Extract(31, 0, v) if f == "type" else v
            return g
        self.s = C.Seq(E, "registered copies", STR, elem); r = self.s.r; self.members = Ptr(G.g, m.field("WorkGroup", "m_asyncCopies"))
        me = lambda st, p: E.oblige(st, peq(p, self.members), "the group's list of copies")
        pre(E, PRL + r"c?begin\(\)", lambda E, st, a, I: (me(st, a[0]), Ptr(r, 0))[1]); pre(E, PRL + r"c?end\(\)", lambda E, st, a, I: (me(st, a[0]), Ptr(r, mul(self.N, STR, 64)))[1])
        IT = r"^std::_List_(const_)?iterator<std::pair<oclgrind::WorkGroup::AsyncCopy.*>"; C.seq_iter(E, IT, STR); C.iter_cmp(E, r"std::_List_(const_)?iterator<std::pair<oclgrind::WorkGroup::AsyncCopy")
        self.assumed = lambda k: True
        def deref(E, st, a, I): p = C.it(E, st, a[0]); k = z3.LShR(bvv(p.off, 64), 7); E.oblige(st, z3.ULT(k, self.N), "only registered copies are looked at"); st.assume(self.assumed(k)); return p
        pre(E, IT + r"::operator(\*|->)\(\) const", deref)
        pre(E, IT + r"::_List_(const_)?iterator\(std::_List_(const_)?iterator<", lambda E, st, a, I: st.store(E, a[0], 8, C.it(E, st, a[1])) or 0)
    def k_of_set(self, p): return z3.LShR(bvv(p.off, 64) - self.size, 7)
    def isset(self, p): return And(p.r is self.s.r, (bvv(p.off, 64) & (STR - 1)) == self.size)
def t_register(t, mode):
    """mode: known, same | known, <field> differs | new"""
    G = Group(t); E = G.E; st = G.st; m = G.m; E.cut_at = 0; cs = Copies(G, t, t.params); x = z3.BitVec("work-item", 64); nx = z3.BitVec("next event", 64); o = m.field("WorkGroup", "m_nextEvent"); G.g.base[("c", o, 8)] = nx
    A = {f: z3.BitVec(f, 32 if f == "type" else 64) for f in CF[1:]}; ins = Region("instruction"); st.assume(nx != 0)
    for f, v in A.items(): E.inputs[f] = v
    has_ = z3.Function("registered by this work-item", z3.BitVecSort(64), z3.BoolSort()); loc = z3.Function("same source location", z3.BitVecSort(64), z3.BoolSort()); q = z3.BitVec("copy", 64); E.inputs["copy"] = q; known = z3.Bool("the event exists")
    fld = lambda f, k: z3.Extract(31, 0, cs.f[f](k)) if f == "type" else cs.f[f](k)
    same = {f: fld(f, q) == A[f] for f in CF[1:-1]}; same["instruction"] = loc(q)
    if mode == "new": cs.assumed = lambda k: has_(k); st.assume(z3.Implies(A["event"] == 0, Not(known)))
    else:
        st.assume(And(z3.ULT(q, cs.N), Not(has_(q)))); cs.assumed = lambda k: z3.Implies(z3.ULT(k, q), has_(k)); d = mode.split()[1]
        for f in same:
            if d == "same": st.assume(same[f])
        if d != "same": st.assume(Not(same[d]))
    def getloc(E, st, a, I):
        p = one(E, st, a[0])
        if p.r is ins: return Ptr(Region("location of the copy"), 0, z3.BitVecVal(-1, 64))
        return Ptr(Region("location of a registered copy", fam=True), 0, bvv(p.inst, 64))
    inst_k = {}
    def loadk(E, st, a, I):
        raise Unsupported("instruction")
    # the location of registered copy k is compared with that of the call: loc(k)
    regi = Region("registered instruction", fam=True); old = cs.s.r.schemafn
    def elem(o0):
        g0 = old(o0)
        def g(E, inst, o, tag):
            fo = E.fieldof(cs.s.r, o)
            if cs.off["instruction"] == fo: return Ptr(regi, 0, z3.LShR(sub(bvv(o, 64), fo, 64), 7))
            return g0(E, inst, o, tag)
        return g
    cs.s.r.schemafn = elem; la, lb = Region("location of the call"), Region("location of a registered copy", fam=True)
    def gl(E, st, a, I):
        p = one(E, st, a[0])
        if p.r is ins: return Ptr(la)
        if p.r is regi: return Ptr(lb, 0, p.inst)
        raise Unsupported("instruction")
    pre(E, r"^llvm::Instruction::getDebugLoc\(\)", gl)
    def cmp(neg):
        def f(E, st, a, I):
            p, r = one(E, st, a[0]), one(E, st, a[1])
            if p.r is r.r: v = eq(bvv(p.inst, 64), bvv(r.inst, 64)) if p.r is lb else z3.BoolVal(True)
            else: v = loc(bvv((p if p.r is lb else r).inst, 64))
            return Not(v) if neg else v
        return f
    pre(E, r"^llvm::DebugLoc::operator!=", cmp(True)); pre(E, r"^llvm::DebugLoc::operator==", cmp(False))
    nw = Region("new entry"); tmp = {}
    me = lambda st, p: E.oblige(st, eq(item(E, st, p), x), "this work-item")
    pre(E, WSET + r"count\(", lambda E, st, a, I: (lambda p: (me(st, a[1]), E.oblige(st, cs.isset(p), "the work-items of a registered copy"), z3.If(has_(cs.k_of_set(p)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))[2])(one(E, st, a[0])))
    def insert(E, st, a, I):
        p = one(E, st, a[0]); me(st, a[1])
        if p.r is nw: E.oblige(st, eq(p.off, cs.size), "the set of the new copy")
        else: E.oblige(st, cs.isset(p), "the set of a registered copy")
        st.log("registered", "new" if p.r is nw else cs.k_of_set(p)); return (Ptr(Region("node")), z3.BoolVal(True))
    pre(E, WSET + r"insert\(", insert); pre(E, WSET + r"~set\(", lambda E, st, a, I: 0); pre(E, r"^std::pair<oclgrind::WorkGroup::AsyncCopy, .*>::~pair\(", lambda E, st, a, I: 0)
    def rd(st, p): return {f: st.load(E, pgep(p, cs.off[f]), 4 if f == "type" else 8, "ptr" if f == "instruction" else "int") for f in CF}
    def wr(st, p, v):
        for f in CF: st.store(E, pgep(p, cs.off[f]), 4 if f == "type" else 8, v[f])
    pre(E, r"std::make_pair<oclgrind::WorkGroup::AsyncCopy", lambda E, st, a, I: (wr(st, a[0], rd(st, one(E, st, a[1]))), 0)[1])
    def push(E, st, a, I): E.oblige(st, peq(a[0], cs.members), "the group's list of copies"); wr(st, Ptr(nw), rd(st, one(E, st, a[1]))); st.log("pushed", 1); return 0
    pre(E, PRL + r"(push_back|emplace_back)\(", push); pre(E, PRL + r"back\(\)", lambda E, st, a, I: (E.oblige(st, And(peq(a[0], cs.members), len(st.ghost.get("pushed", ())) == 1), "the new copy"), Ptr(nw))[1])
    pre(E, CM + r"count\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], G.evmap), "the group's events"), z3.If(evknown(st, bvv(st.load(E, one(E, st, a[1]), 8), 64)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))[1])
    evknown = lambda st, k: known if not st.ghost.get("touched") else z3.BoolVal(True)
    ev = Region("event's copies", fam=True)
    pre(E, CM + r"operator\[\]\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], G.evmap), "the group's events"), Ptr(ev, 0, bvv(st.load(E, one(E, st, a[1]), 8), 64)))[1])
    def assign(E, st, a, I): E.oblige(st, Not(known), "copies already waiting for the event are kept"); st.log("reset", bvv(one(E, st, a[0]).inst, 64)); E.oblige(st, not st.ghost.get("added"), "before the new one is added"); return a[0]
    pre(E, CPL + r"operator=\(", assign); pre(E, CPL + r"~_?[lL]ist", lambda E, st, a, I: 0)
    def add(E, st, a, I): p = one(E, st, a[0]); E.oblige(st, p.r is ev, "an event's copies"); st.log("added", (bvv(p.inst, 64), rd(st, one(E, st, a[1])))); return 0
    pre(E, CPL + r"(push_back|emplace_back)\(", add)
    def hint(E, d):
        c = []
        for k, (y, w) in d["vars"].items():
            if w == 64 and k[0] in ("po", "mo"):
                c.append(("position", lambda s, v, k=k: z3.And(z3.ULE(bvv(v[k], 64), cs.N * STR), bvv(v[k], 64) & (STR - 1) == 0)))
                if mode != "new": c.append(("not past the copy", lambda s, v, k=k: z3.ULE(bvv(v[k], 64), q * STR)))
        return c
    E.hints.append(hint); args = [Ptr(G.g), absptr(x), Ptr(ins), A["type"]] + [A[f] for f in ("dest", "src", "size", "num", "srcStride", "destStride", "event")]
    want = dict(A, instruction=Ptr(ins)); want["event"] = z3.If(A["event"] == 0, nx, A["event"])
    match = lambda v: And(*[peq(v[f], want[f]) if f == "instruction" else eq(bvv(v[f], want[f].size()), want[f]) for f in CF])
    for oc in t.reached(E.exec_fn(m.fn(WG + "async_copy"), args, st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); r = s.ghost.get("registered", ()); E.oblige(s, len(r) == 1, "the work-item is registered once"); nn = bvv(s.load(E, Ptr(G.g, o), 8), 64)
        if mode == "new":
            E.oblige(s, r == ("new",) and len(s.ghost.get("pushed", ())) == 1, "a copy the work-item has not registered yet is new"); E.oblige(s, match(rd(s, Ptr(nw))), "with the requested fields"); ad = s.ghost.get("added", ())
            E.oblige(s, len(ad) == 1 and And(ad[0][0] == want["event"], match(ad[0][1])), "the copy is performed once when its event is waited for"); E.oblige(s, eq(bvv(oc.val, 64), want["event"]), "the event given, or a new one"); E.oblige(s, eq(nn, z3.If(A["event"] == 0, nx + 1, nx)), "events are not reused"); E.oblige(s, sent(s) == 0, "no divergence")
        else:
            E.oblige(s, eq(r[0], q) if r and not isinstance(r[0], str) else False, "registered with the first copy it has not registered yet"); E.oblige(s, And(eq(bvv(oc.val, 64), cs.f["event"](q)), eq(nn, nx)), "the event of that copy"); E.oblige(s, not s.ghost.get("pushed") and not s.ghost.get("added"), "the copy is performed once for the group")
            E.oblige(s, sent(s) == (0 if "same" in mode else 1), "no divergence" if "same" in mode else "divergence is reported once")
class Gh:
    """named ghost cells"""
    def __init__(self, E, names): self.E = E; self.r = Region("ghost"); self.o = {n: 8 * i for i, n in enumerate(names.split())}; self.r.base = {("c", 8 * i, 8): 0 for i in self.o.values() for i in [i // 8]}
    def get(self, s, n): return bvv(s.load(self.E, Ptr(self.r, self.o[n]), 8), 64)
    def set(self, s, **k):
        for n, v in k.items(): s.store(self.E, Ptr(self.r, self.o[n]), 8, v)
def t_events(t):
    """clearBarrier: every event waited for: its copies are performed element by element, then it is forgotten"""
    G = Group(t); E = G.E; st = G.st; m = G.m; E.cut_at = 0; E.cut_nested = E.coarse_sat = t.params is None; B = z3.BitVecSort(64); U = lambda nm: z3.Function(nm, B, B)
    gh = Gh(E, "HAVE HEAD NC CI EI SRC DST PEND BSZ ERASED RI MSG NOTE"); g = gh.get; ST2 = STR; kc, kn, kr = t.params or (None,) * 3
    f = {x: U("copy's " + x) for x in CF}; cs = Copies(G, t, kr); ssz = U("work-items that registered the copy"); loc_, glob = Region("local memory"), Region("global memory"); G.g.base[("c", m.field("WorkGroup", "m_localMemory"), 8)] = Ptr(loc_)
    E.models["oclgrind::Context::getGlobalMemory"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(G.ctx)), "the group's own context"), Ptr(glob))[1]
    G2L = m.enum("oclgrind::WorkGroup::AsyncCopyType", "GLOBAL_TO_LOCAL"); isg = lambda k: z3.Extract(31, 0, f["type"](k)) == G2L
    # the barrier's work-items are not this task's subject (t_clear)
    bs = Region("waiting work-items"); pre(E, RUN + r"size\(\)", lambda E, st, a, I: G.N); pre(E, RUN + r"empty\(\)", lambda E, st, a, I: z3.BoolVal(True)); pre(E, RUN + r"c?(begin|end)\(\)", lambda E, st, a, I: Ptr(bs, 0)); pre(E, RUN + r"clear\(\)", lambda E, st, a, I: 0); IT0 = r"^std::_Rb_tree_(const_)?iterator<oclgrind::WorkItem\*>"; C.seq_iter(E, IT0, 8); C.iter_cmp(E, r"std::_Rb_tree_(const_)?iterator<oclgrind::WorkItem")
    evs = Ptr(G.b, G.bf("events")); mine = lambda st, p: E.oblige(st, peq(p, evs), "the events of the barrier"); hc = Region("first event")
    def empty(E, st, a, I):
        mine(st, a[0]); E.oblige(st, g(st, "HAVE") == 0, "an event is forgotten only after its copies were performed"); s2 = st.fork(); h, n = fresh("event", 64), z3.BitVecVal(kc, 64) if kc is not None else fresh("copies", 64)
        if kc is None: s2.assume(z3.ULE(n, 1 << 30))
        gh.set(s2, HAVE=1, HEAD=h, NC=n, CI=0, EI=0, ERASED=0, RI=0)
        if kc is not None and len(st.ghost.get("turn", ())) >= 2: s2.assume(z3.BoolVal(False))
        s2.log("turn", 1); return [(st, z3.BoolVal(True))] + ([(s2, z3.BoolVal(False))] if kc is None or E.sat(s2.pc) else [])
    pre(E, EVL + r"empty\(\)", empty)
    def front(E, st, a, I): mine(st, a[0]); E.oblige(st, g(st, "HAVE") == 1, "the first event"); st.store(E, Ptr(hc), 8, g(st, "HEAD")); return Ptr(hc)
    pre(E, EVL + r"front\(\)", front)
    def remove(E, st, a, I):
        mine(st, a[0])
        if len(a) > 1: E.oblige(st, eq(bvv(st.load(E, one(E, st, a[1]), 8), 64), g(st, "HEAD")), "forgets the event handled")
        E.oblige(st, And(g(st, "HAVE") == 1, g(st, "ERASED") == 1, g(st, "RI") == cs.N), "an event is forgotten only after its copies were performed"); gh.set(st, HAVE=0); return 0
    pre(E, EVL + r"(remove|pop_front)\(", remove)
    el = Region("event's copies"); key = lambda st, p: E.oblige(st, And(g(st, "HAVE") == 1, eq(bvv(st.load(E, one(E, st, p), 8), 64), g(st, "HEAD"))), "the copies of the event waited for")
    pre(E, CM + r"(operator\[\]|at)\(", lambda E, st, a, I: (E.oblige(st, peq(a[0], G.evmap), "the group's events"), key(st, a[1]), Ptr(el))[2])
    def erase(E, st, a, I): key(st, a[1]); E.oblige(st, And(g(st, "CI") == g(st, "NC"), g(st, "EI") == 0, g(st, "PEND") == 0), "an event is forgotten only after its copies were performed"); gh.set(st, ERASED=1); return 1
    pre(E, CM + r"erase\(", erase)
    cps = [el]
    def copy(E, st, a, I): E.oblige(st, one(E, st, a[1]).r in cps, "the event's copies"); cps.append(one(E, st, a[0]).r); return 0
    pre(E, CPL + r"list\(std::(__cxx11::)?list<", copy); pre(E, CPL + r"~_?[lL]ist", lambda E, st, a, I: 0)
    off = {m.field("WorkGroup::AsyncCopy", x): x for x in CF}
    def elem(o0):
        def h(E, inst, o, tag):
            fo = E.fieldof(sq.r, o); k = z3.LShR(sub(bvv(o, 64), fo, 64), 7)
            if fo not in off: raise Unsupported("field of a copy")
            v = f[off[fo]](k); return z3.Extract(31, 0, v) if off[fo] == "type" else v
        return h
    sq = C.Seq(E, "copies", STR, elem); lst = lambda st, p: E.oblige(st, one(E, st, p).r in cps, "the event's copies")
    pre(E, CPL + r"c?begin\(\)", lambda E, st, a, I: (lst(st, a[0]), Ptr(sq.r, 0))[1]); pre(E, CPL + r"c?end\(\)", lambda E, st, a, I: (lst(st, a[0]), Ptr(sq.r, mul(g(st, "NC"), STR, 64)))[1]); pre(E, CPL + r"size\(\)", lambda E, st, a, I: g(st, "NC")); pre(E, CPL + r"empty\(\)", lambda E, st, a, I: g(st, "NC") == 0)
    IC = r"^std::_List_(const_)?iterator<oclgrind::WorkGroup::AsyncCopy>"; C.seq_iter(E, IC, STR); C.iter_cmp(E, r"std::_List_(const_)?iterator<oclgrind::WorkGroup::AsyncCopy>")
    def deref(E, st, a, I): p = C.it(E, st, a[0]); k = z3.LShR(bvv(p.off, 64), 7); E.oblige(st, z3.ULT(k, g(st, "NC")), "only existing copies"); st.assume(f["num"](k) == kn if kn is not None else z3.ULT(f["num"](k), z3.BitVecVal(1 << 63, 64))); return p
    pre(E, IC + r"::operator(\*|->)\(\) const", deref)
    def step(post):
        def h(E, st, a, I):
            p = C.it(E, st, a[0]); k = z3.LShR(bvv(p.off, 64), 7); E.oblige(st, And(k == g(st, "CI"), g(st, "EI") == f["num"](k), g(st, "PEND") == 0), "every copy transfers all its elements"); gh.set(st, CI=k + 1, EI=0); st.store(E, a[0], 8, pgep(p, STR)); return p if post else a[0]
        return h
    pre(E, IC + r"::operator\+\+\(\)", step(False)); pre(E, IC + r"::operator\+\+\(int\)", step(True))
    buf = Region("buffer", mode="byte"); E.models["operator new[](unsigned long)"] = lambda E, st, a, I: (gh.set(st, BSZ=bvv(a[0], 64)), Ptr(buf))[1]; E.models["operator delete[](void*)"] = lambda E, st, a, I: (gh.set(st, BSZ=0), 0)[1]; E.models["operator delete[](void*, unsigned long)"] = E.models["operator delete[](void*)"]
    at = lambda s, w: z3.If(g(s, "EI") == 0, f[w.lower() if w != "DST" else "dest"](g(s, "CI")), g(s, w))
    def acc(isl):
        def h(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::" + ("load" if isl else "store")); k = g(st, "CI"); E.oblige(st, And(g(st, "HAVE") == 1, z3.ULT(k, g(st, "NC")), z3.ULT(g(st, "EI"), f["num"](k)), g(st, "PEND") == (0 if isl else 1)), "no more elements than requested")
            sz = f["size"](k); E.oblige(st, And(peq(a[1], Ptr(buf)), g(st, "BSZ") == sz, eq(bvv(a[3], 64), sz)), "one element at a time, of the element size"); mem = one(E, st, a[0]); E.oblige(st, (mem.r is loc_ or mem.r is glob) and (isg(k) if (mem.r is glob) == isl else Not(isg(k))), "between local and global memory in the requested direction")
            E.oblige(st, eq(bvv(a[2], 64), at(st, "SRC" if isl else "DST")), "element i is at %s + i * stride * element size" % ("source" if isl else "destination"))
            if isl: gh.set(st, PEND=1)
            else:
                s_, d_ = at(st, "SRC") + f["srcStride"](k) * sz, at(st, "DST") + f["destStride"](k) * sz; gh.set(st, SRC=s_, DST=d_, EI=g(st, "EI") + 1, PEND=0)
            return freshb("accepted")
        return h
    E.models["oclgrind::Memory::load"] = acc(True); E.models["oclgrind::Memory::store"] = acc(False)
    # forgetting the registered copies of the event
    IT = r"^std::_List_(const_)?iterator<std::pair<oclgrind::WorkGroup::AsyncCopy.*>"; E.models[MSG + "send"] = lambda E, st, a, I: (E.oblige(st, g(st, "MSG") == 0, "one message per copy"), gh.set(st, MSG=1), 0)[2]
    def leave(st, p, gone):
        k = z3.LShR(bvv(p.off, 64), 7); E.oblige(st, And(k == g(st, "RI"), z3.ULT(k, cs.N)), "every registered copy is looked at once"); mineq = cs.f["event"](k) == g(st, "HEAD"); E.oblige(st, mineq if gone else Not(mineq), "exactly the copies of the event are forgotten"); E.oblige(st, eq(g(st, "MSG"), z3.If(ssz(k) != G.N, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))) if gone else g(st, "MSG") == 0, "divergence is reported for copies not registered by all work-items"); gh.set(st, MSG=0, RI=k + 1)
    def rstep(post):
        def h(E, st, a, I): p = C.it(E, st, a[0]); leave(st, p, False); st.store(E, a[0], 8, pgep(p, STR)); return p if post else a[0]
        return h
    pre(E, IT + r"::operator\+\+\(\)", rstep(False)); pre(E, IT + r"::operator\+\+\(int\)", rstep(True))
    def rerase(E, st, a, I):
        p = a[1] if isinstance(a[1], Ptr) and a[1].r is cs.s.r else C.it(E, st, a[1]); E.oblige(st, peq(a[0], cs.members), "the group's list of copies"); leave(st, p, True); return pgep(p, STR)
    pre(E, PRL + r"erase\(", rerase); pre(E, WSET + r"size\(\)", lambda E, st, a, I: (lambda p: (E.oblige(st, cs.isset(p), "the work-items of a registered copy"), ssz(cs.k_of_set(p)))[1])(one(E, st, a[0])))
    def note(E, st, a, I): gh.set(st, NOTE=g(st, "NOTE") + 1); return 0
    E.models["oclgrind::Context::notifyWorkGroupBarrier"] = note; pre(E, r"^oclgrind::WorkGroup::Barrier::~Barrier", lambda E, st, a, I: 0)
    def hint(E, d):
        c = [(n + "=%d" % v, lambda s, v_, n=n, v=v: g(s, n) == v) for n, v in (("HAVE", 0), ("HAVE", 1), ("PEND", 0), ("ERASED", 0), ("ERASED", 1), ("EI", 0), ("CI", 0), ("RI", 0), ("MSG", 0), ("BSZ", 0), ("NOTE", 0))]
        c += [("copies left", lambda s, v: z3.ULT(g(s, "CI"), g(s, "NC"))), ("copies done", lambda s, v: g(s, "CI") == g(s, "NC")), ("elements", lambda s, v: z3.ULE(g(s, "EI"), f["num"](g(s, "CI")))), ("buffer", lambda s, v: g(s, "BSZ") == f["size"](g(s, "CI"))), ("number of copies", lambda s, v: z3.ULE(g(s, "NC"), 1 << 30)), ("copies", lambda s, v: z3.ULE(g(s, "CI"), g(s, "NC"))), ("registered", lambda s, v: z3.ULE(g(s, "RI"), cs.N))]
        for k, (x, w) in d["vars"].items():
            if w == 64:
                if k[0] in ("po", "mo"):
                    for n in ("CI", "RI"): c.append(("position " + n, lambda s, v, k=k, n=n: bvv(v[k], 64) == g(s, n) * STR))
                else:
                    for n in ("SRC", "DST"): c.append((n, lambda s, v, k=k, n=n: bvv(v[k], 64) == at(s, n)))
                    for n in ("EI", "HEAD"): c.append((n, lambda s, v, k=k, n=n: bvv(v[k], 64) == g(s, n)))
            elif w == 32: c.append(("EI", lambda s, v, k=k: z3.ZeroExt(32, bvv(v[k], 32)) == g(s, "EI")))
        return c
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(m.fn(WG + "clearBarrier"), [Ptr(G.g)], st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); E.oblige(s, And(g(s, "HAVE") == 0, g(s, "PEND") == 0), "every event waited for is handled"); E.oblige(s, And(g(s, "NOTE") == 1, g(s, "MSG") == 0), "the barrier ends"); E.oblige(s, peq(G.barrier(s), NULL), "the barrier is over")
ES = dict(c=1, h=1, s=2, t=2, i=4, j=4, f=4, l=8, m=8, d=8)
def t_async(t, name, tolocal, c, n):
    from lworld import LInst, LVal, I, P, LT
    from bltin import builtin_world
    from memins import wi_world
    E = t.engine(); st = State(); m = E.mod; strided = "strided" in name; D, S_ = (3, 1) if tolocal else (1, 3)
    v = [LVal(E, "dest", P(D)), LVal(E, "src", P(S_)), LVal(E, "num", I(64))] + ([LVal(E, "stride", I(64))] if strided else []) + [LVal(E, "event", P(0) if False else I(64))]
    inst = LInst(E, st, "Call", I(64), v); w = wi_world(E, inst); V = {x.name if hasattr(x, "name") else k: bvv(x.lane(0), 64) for k, x in zip(["dest", "src", "num"] + (["stride"] if strided else []) + ["event"], v)}
    for k, x in zip(["dest", "src", "num"] + (["stride"] if strided else []) + ["event"], v): V[k] = bvv(x.lane(0), 64); E.inputs[k] = V[k]
    es = ES[c] * (4 if n == 3 else n); one_ = z3.BitVecVal(1, 64); sd = V["stride"] if strided else one_; ty = m.enum("oclgrind::WorkGroup::AsyncCopyType", "GLOBAL_TO_LOCAL" if tolocal else "LOCAL_TO_GLOBAL"); ev = z3.BitVec("event returned", 64)
    want = [("type", 32, ty), ("destination", 64, V["dest"]), ("source", 64, V["src"]), ("element size", 64, es), ("number of elements", 64, V["num"]), ("source stride", 64, sd if tolocal else one_), ("destination stride", 64, one_ if tolocal else sd), ("event", 64, V["event"])]
    def ac(E, st, a, I):
        E.used_contracts.add(WG + "async_copy"); E.oblige(st, And(peq(a[0], Ptr(w.wg)), peq(a[1], Ptr(inst.this)), peq(a[2], Ptr(inst.r))), "registered by this work-item with its group")
        for x, (nm, wd, y) in zip(a[3:], want): E.oblige(st, eq(bvv(x, wd), y), "the copy requested: " + nm)
        st.log("copy", 1); return ev
    E.models[WG + "async_copy"] = ac; e = ("Dv%d_%s" % (n, c)) if n > 1 else c; ov = "PU3AS%d%sPU3AS%dK%sm%s9ocl_event" % (D, e, S_, "S_" if n > 1 else c, "m" if strided else "")
    for oc in t.reached(builtin_world(E, inst, name, ov)(st)):
        E.oblige(oc.st, oc.kind == "ret" and len(oc.st.ghost.get("copy", ())) == 1, "exactly one copy is registered"); E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(inst.resd), 8), 64), ev), "the event of the copy is returned")
def t_wait(t):
    from lworld import LInst, LVal, I, P, LT
    from bltin import builtin_world
    from memins import wi_world
    E = t.engine(); st = State(); m = E.mod; E.cut_at = 0; v = [LVal(E, "num", I(32)), LVal(E, "events", P(0))]; inst = LInst(E, st, "Call", LT("void"), v); w = wi_world(E, inst); n = z3.ZeroExt(32, bvv(v[0].lane(0), 32)); p = bvv(v[1].lane(0), 64); E.inputs["num"] = n
    if t.params is not None: st.assume(n == t.params)
    B = m.enum("oclgrind::WorkItem::State", "BARRIER"); so = m.field("WorkItem", "m_state"); U = z3.Function("event in memory", z3.BitVecSort(64), z3.BitVecSort(64)); gh = Gh(E, "READ PUSHED BAD"); g = gh.get; X = m.enum("oclgrind::WorkItem::State", "READY"); inst.this.base[("c", so, 4)] = X
    def load(E, st, a, I):
        k = g(st, "READ"); E.oblige(st, And(peq(a[0], Ptr(w.priv)), eq(bvv(a[2], 64), p + k * 8), eq(bvv(a[3], 64), 8), z3.ULT(k, n), g(st, "BAD") == 0, k == g(st, "PUSHED")), "the events given are read, one after the other"); bad = st.fork(); gh.set(bad, BAD=1); st.store(E, one(E, st, a[1]), 8, U(k)); gh.set(st, READ=k + 1); return [(st, z3.BoolVal(True)), (bad, z3.BoolVal(False))]
    E.models["oclgrind::Memory::load"] = load; L = []
    pre(E, EVL + r"(list|~list)\(|_List_base<unsigned long, .*>::~_List_base", lambda E, st, a, I: (L.append(one(E, st, a[0]).r), 0)[1])
    def push(E, st, a, I): k = g(st, "PUSHED"); E.oblige(st, And(one(E, st, a[0]).r in L, k + 1 == g(st, "READ"), eq(bvv(st.load(E, one(E, st, a[1]), 8), 64), U(k))), "every event read is waited for"); gh.set(st, PUSHED=k + 1); return 0
    pre(E, EVL + r"(push_back|emplace_back)", push)
    def nb(E, st, a, I):
        E.oblige(st, And(peq(a[0], Ptr(w.wg)), peq(a[1], Ptr(inst.this)), peq(a[2], Ptr(inst.r)), eq(bvv(a[3], 64), 3)), "a barrier with both fences"); E.oblige(st, And(one(E, st, a[4]).r in L, g(st, "PUSHED") == n, g(st, "BAD") == 0), "waits for all the events given"); st.log("arrive", 1); return 0
    E.models[WG + "notifyBarrier"] = nb
    def hint(E, d):
        c = [("read are pushed", lambda s, v: g(s, "READ") == g(s, "PUSHED")), ("fine", lambda s, v: g(s, "BAD") == 0), ("at most", lambda s, v: z3.ULE(g(s, "READ"), n))]
        for k, (x, wd) in d["vars"].items():
            if wd == 32: c.append(("count", lambda s, v, k=k: z3.ZeroExt(32, bvv(v[k], 32)) == g(s, "READ")))
            if wd == 64: c += [("count", lambda s, v, k=k: bvv(v[k], 64) == g(s, "READ")), ("address", lambda s, v, k=k: bvv(v[k], 64) == p + g(s, "READ") * 8)]
        return c
    E.hints.append(hint)
    for oc in t.reached(builtin_world(E, inst, "wait_group_events", "iP9ocl_event")(st)):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); k = len(s.ghost.get("arrive", ())); E.oblige(s, g(s, "BAD") == (0 if k else 1) if k < 2 else False, "the work-item waits, unless the events cannot be read"); E.oblige(s, eq(bvv(s.load(E, Ptr(inst.this, so), 4), 32), B if k else X), "the work-item waits")
def tasks_B07(mod):
    out = [Task("register: " + md, WG + "async_copy", each(lambda t, md=md: t_register(t, md)), fallback=[0, 1, 2, 3] if md == "new" else [1, 2, 3]) for md in ["new", "known, same"] + ["known, %s differs" % f for f in CF[:-1]]]
    out += [Task("performing the copies", WG + "clearBarrier", each(t_events), fallback=[(0, 1, 0), (1, 0, 1), (1, 2, 1), (2, 1, 2)])]
    for nm in ("async_work_group_copy", "async_work_group_strided_copy"):
        for tl in (True, False):
            for c in ES: out.append(Task("builtin %s of %s to %s memory" % (nm, c, "local" if tl else "global"), "oclgrind::WorkItemBuiltins::async_work_group_copy", lambda t, nm=nm, tl=tl, c=c: [t_async(t, nm, tl, c, n) for n in (1, 2, 3, 4, 8, 16)]))
    out.append(Task("builtin wait_group_events", "oclgrind::WorkItemBuiltins::wait_group_events", each(t_wait), fallback=[0, 1, 2]))
    return out
