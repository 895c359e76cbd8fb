"""Q01: contracts on the scheduling of commands (Queue::execute, enqueue, finish, Event::Event).

Queue::execute is verified against its own contract at the recursive calls: an executed command ends complete or in error
and leaves its queue, and no event that is already complete or in error ever changes.  Wait lists are seen through one
arbitrary event W of the initial list (its place, or absent), so what is proved holds for every event of the list."""
import z3
from engine import *
from run import Task
from ndrange import pre
H = "oclgrind::Queue::"
NONE = (1 << 64) - 1
B = lambda x, w=64: b2z(x) if isinstance(x, bool) else bvv(x, w)
KIND = dict(COPY=("CopyBuffer",), COPY_RECT=("CopyBufferRect",), FILL_BUFFER=("FillBuffer",), FILL_IMAGE=("FillImage",), READ=("ReadBuffer",), READ_RECT=("ReadBufferRect",), KERNEL=("Kernel",), MAP=("Map",),
            NATIVE_KERNEL=("NativeKernel",), UNMAP=("Unmap",), WRITE=("WriteBuffer",), WRITE_RECT=("WriteBufferRect",))
class QW:
    def __init__(self, t):
        self.t = t; self.E = E = t.engine(); self.m = m = E.mod; self.st = st = State(); E.cut_at = 0; E.cut_first = True; E.only_hints = True
        self.ev, self.cf, self.qf = (Region(n, fam=True) for n in ("events", "commands", "queues")); self.gh = Region("ghost"); self.gh.base = {}; self.ng = 0; self.nodes = Region("queue nodes")
        v = lambda n, w=64: self.inp(n, w)
        self.q0, self.c0, self.p0, self.W, self.X = v("this queue"), v("command"), v("previous command"), v("awaited event"), v("another event")
        for x in (self.q0, self.c0, self.p0, self.W, self.X): st.assume(x != 0)
        st.assume(self.c0 != self.p0)
        F = lambda n: z3.Function(n, z3.BitVecSort(64), z3.BitVecSort(64))
        self.evOf, self.cmdOf, self.qOf = F("event of command"), F("command of event"), F("queue of event")
        self.e0, self.ep = self.evOf(self.c0), self.evOf(self.p0)
        for c, e in ((self.c0, self.e0), (self.p0, self.ep)): st.assume(z3.And(e != 0, self.cmdOf(e) == c, self.qOf(e) == self.q0))
        st.assume(z3.And(self.W != self.e0, self.X != self.e0))
        o = self.o = lambda c, k: m.field(c, k)
        self.ev.schema = {o("Event", "command"): lambda E, i, off, tag: PIte(self.cmdOf(B(i)) == 0, NULL, Ptr(self.cf, 0, self.cmdOf(B(i)))), o("Event", "queue"): lambda E, i, off, tag: PIte(self.cmdOf(B(i)) == 0, NULL, Ptr(self.qf, 0, self.qOf(B(i))))}
        self.cf.schema = {o("Command", "event"): lambda E, i, off, tag: Ptr(self.ev, 0, self.evOf(B(i)))}
        self.first = z3.Bool("command is first in its queue"); E.inputs["first"] = self.first
        self.n, self.pos, self.gone, self.done, self.owed, self.owes, self.last, self.recd = (self.cell(x) for x in (v("length of wait list"), v("place of W"), 0, 0, 0, 0, 0, 0))
        n, pos = B(st.load(E, self.n, 8)), B(st.load(E, self.pos, 8)); st.assume(z3.And(z3.ULT(n, 1 << 30), z3.Or(pos == NONE, z3.ULT(pos, n)))); self.pos0 = pos
        for x in (self.W, self.X, self.ep): self.sane(st, x)
        st.assume(self.state(st, self.e0) == 3); st.assume(self.state(st, self.ep) == 3)
        self.fx = self.cell(z3.ZeroExt(32, self.state(st, self.X)))       # X's state as left by the last command executed on the way
        self.sx = self.state(st, self.X); self.sw = self.state(st, self.W)
        self.wl, self.eb, self.mq = Ptr(self.cf, o("Command", "waitList"), self.c0), Ptr(self.cf, o("Command", "execBefore"), self.c0), Ptr(self.qf, o("Queue", "m_queue"), self.q0)
        self.flush = z3.Bool("flush"); E.inputs["flush"] = self.flush
        self.ooo = Ptr(self.qf, o("Queue", "m_out_of_order"), self.q0); self.isooo = B(st.load(E, self.ooo, 1), 8); st.assume(z3.ULE(self.isooo, 1))
        self.type = B(st.load(E, Ptr(self.cf, o("Command", "type"), self.c0), 4), 32); E.inputs["type"] = self.type
        self.K = {k: m.enum("Command::CommandType", k) for k in list(KIND) + ["EMPTY"]}; st.assume(z3.Or(*[self.type == x for x in self.K.values()]))
        self.models()
    def inp(self, n, w=64): x = z3.BitVec(n, w); self.E.inputs[n] = x; return x
    def cell(self, x): self.gh.base[("c", self.ng, 8)] = x; self.ng += 8; return Ptr(self.gh, self.ng - 8)
    def g(self, s, c): return B(s.load(self.E, c, 8))
    def put(self, s, c, x): s.store(self.E, c, 8, x)
    def state(self, s, e): return B(s.load(self.E, Ptr(self.ev, self.o("Event", "state"), e), 4), 32)
    def kept(self, s): return z3.ZeroExt(32, self.state(s, self.X)) == self.g(s, self.fx)
    def fin(self, x): return x <= 0
    def sane(self, s, e): x = self.state(s, e); s.assume(z3.And(x <= 3, z3.Implies(self.cmdOf(e) != 0, z3.And(self.evOf(self.cmdOf(e)) == e))))
    def before(self):
        """the earlier command has to be finished first"""
        return z3.And(z3.Not(self.first), z3.Or(self.isooo == 0, self.flush))
    def execute(self, E, st, a, I):
        E.used_contracts.add(H + "execute"); c = a[1]
        out = []
        for s, c in E.resolve(st, a[1]):
            for s, q in E.resolve(s, a[0]):
                if c.r is None or q.r is None: E.oblige(s, z3.BoolVal(False), "only a command is executed"); out.append((s, 0)); continue
                if not (c.r is self.cf and q.r is self.qf): raise Unsupported("execute of an unknown command")
                ci, qi = B(c.inst), B(q.inst); e = self.evOf(ci); fl = a[2] if isinstance(a[2], (bool, z3.BoolRef)) else B(a[2], 1) == 1
                E.oblige(s, ci != 0, "only a command is executed"); old = {k: self.state(s, x) for k, x in (("e", e), ("W", self.W), ("X", self.X), ("0", self.e0), ("p", self.ep))}
                E.oblige(s, z3.And(old["e"] > 0, ci != self.c0), "an awaited command is executed only while it is pending, so exactly once")
                E.oblige(s, qi == self.qOf(e), "a command is executed by its own queue"); E.oblige(s, b2z(fl) == self.flush, "flushing applies to what is executed before, too")
                E.oblige(s, self.g(s, self.owed) == 0, "every command executed on the way is handed over for release"); self.put(s, self.owed, 1); self.put(s, self.owes, ci); self.put(s, self.recd, 1)
                s.mem[self.ev] = Node("Hv", s.mem.get(self.ev), x="rec%d" % next(E_ctr))
                for k, x in (("e", e), ("W", self.W), ("X", self.X), ("p", self.ep)):
                    self.sane(s, x); nw = self.state(s, x); s.assume(z3.And(z3.Implies(self.fin(old[k]), nw == old[k]), z3.Or(nw == old[k], self.fin(nw))))
                    if k == "e": s.assume(self.fin(nw))
                s.assume(self.state(s, self.e0) == old["0"])
                for k, x in (("W", self.W), ("X", self.X), ("p", self.ep)): s.assume(z3.Implies(x == e, self.fin(self.state(s, x))))
                self.put(s, self.fx, z3.ZeroExt(32, self.state(s, self.X))); out.append((s, 0))
        return out
    def isat(self, s, p, want, what):
        q = self.E.resolve(s, p)
        if len(q) != 1 or q[0][1].r is not want.r or not isc(q[0][1].off) or q[0][1].off != want.off: return False
        self.E.oblige(s, B(q[0][1].inst) == B(want.inst), what); return True
    def one(self, s, p):
        q = self.E.resolve(s, p)
        if len(q) != 1: raise Unsupported("ambiguous pointer")
        return q[0][1]
    def ref(self, p):
        c = Region("list element", local=True); c.base[("c", 0, 8)] = p; return Ptr(c)
    def models(self):
        E = self.E; L = lambda T: r"std::(__cxx11::)?list<oclgrind::%s\*, std::allocator<oclgrind::%s\*>\s*>::" % (T, T)
        mine = lambda s, p: self.isat(s, p, self.wl, "the command's own wait list")
        def W(f):
            def h(E, st, a, I):
                if not mine(st, a[0]): raise Unsupported("another list of events")
                return f(E, st, a)
            return h
        P = r"^(oclgrind::\w+\*& |void |bool )?"
        pre(E, P + L("Event") + r"empty\(\) const", W(lambda E, st, a: self.g(st, self.n) == 0))
        pre(E, P + L("Event") + r"size\(\) const", W(lambda E, st, a: self.g(st, self.n)))
        def front(E, st, a):
            E.oblige(st, self.g(st, self.n) != 0, "the list is not empty"); e = fresh("front", 64); st.assume(z3.And(e != 0, e != self.e0, z3.Implies(self.g(st, self.pos) == 0, e == self.W))); self.sane(st, e)
            old = self.g(st, self.last); self.put(st, self.last, e); return self.ref(Ptr(self.ev, 0, e))
        pre(E, P + L("Event") + r"front\(\)", W(front))
        def pop(E, st, a):
            n, p = self.g(st, self.n), self.g(st, self.pos); E.oblige(st, n != 0, "the list is not empty"); self.put(st, self.n, n - 1); self.put(st, self.pos, z3.If(z3.Or(p == 0, p == NONE), z3.BitVecVal(NONE, 64), p - 1)); return 0
        pre(E, P + L("Event") + r"pop_front\(\)", W(pop))
        def push(front):
            def h(E, st, a):
                e = self.one(st, st.load(E, a[1], 8, "ptr")); n, p = self.g(st, self.n), self.g(st, self.pos)
                if e.r is not self.ev: raise Unsupported("not an event")
                kept = (z3.If(p == NONE, p, p + 1) if front else p); new = z3.BitVecVal(0, 64) if front else n
                self.put(st, self.pos, z3.If(z3.And(kept == NONE, B(e.inst) == self.W), new, kept)); self.put(st, self.n, n + 1); return 0
            return h
        pre(E, P + L("Event") + r"push_front\(", W(push(True))); pre(E, P + L("Event") + r"push_back\(", W(push(False)))
        def handed(E, st, a, I):
            if not self.isat(st, a[0], self.eb, "the command's own list"): raise Unsupported("another list of commands")
            c = self.one(st, st.load(E, a[1], 8, "ptr")); E.oblige(st, z3.And(self.g(st, self.owed) == 1, z3.BoolVal(c.r is self.cf) if c.r is not self.cf else B(c.inst) == self.g(st, self.owes)), "exactly the commands executed on the way are handed over for release"); self.put(st, self.owed, 0); return 0
        pre(E, P + L("Command") + r"push_(front|back)\(", handed)
        q = lambda st, p: self.isat(st, p, self.mq, "the queue's own list")
        node = lambda k: Ptr(self.nodes, k)                # 0: end, 16: the command, 32: the one before it, 48: the first one
        def qm(f):
            def h(E, st, a, I):
                if not q(st, a[0]): raise Unsupported("another list of commands")
                E.oblige(st, self.g(st, self.gone) == 0, "the queue is not looked at after the command has left it"); return f(E, st, a)
            return h
        def begin(E, st, a):
            if not (z3.is_bv_value(x := z3.simplify(self.g(st, self.recd))) and x.as_long() == 0): raise Unsupported("the queue after other commands were executed")
            return PIte(self.first, node(16), node(48))
        pre(E, r"^" + L("Command") + r"begin\(\)", qm(begin)); pre(E, r"^" + L("Command") + r"end\(\)", qm(lambda E, st, a: node(0)))
        def find(E, st, a, I):
            E.oblige(st, b2z(peq(st.load(E, a[2], 8, "ptr"), Ptr(self.cf, 0, self.c0))), "the command itself is looked up"); return node(16)
        pre(E, r"std::find<std::_List_iterator<oclgrind::Command\*", find)
        def prev(E, st, a, I):
            n = a[1] if len(a) > 1 else 1
            if not (isc(n) and n == 1): raise Unsupported("prev by more than one")
            p = self.one(st, a[0]); E.oblige(st, z3.And(z3.BoolVal(p.r is self.nodes and isc(p.off) and p.off == 16), z3.Not(self.first), self.g(st, self.recd) == 0), "the one before the command is taken, if there is one"); return node(32)
        pre(E, r"std::prev<std::_List_iterator<oclgrind::Command\*", prev)
        it = lambda st, x: st.load(E, x, 8, "ptr")
        pre(E, r"std::operator==\(std::_List_iterator<oclgrind::Command\*", lambda E, st, a, I: peq(it(st, a[0]), it(st, a[1]))); pre(E, r"std::operator!=\(std::_List_iterator<oclgrind::Command\*", lambda E, st, a, I: Not(peq(it(st, a[0]), it(st, a[1]))))
        def deref(E, st, a, I):
            p = self.one(st, it(st, a[0]))
            if p.r is self.nodes and isc(p.off) and p.off in (16, 32): return self.ref(Ptr(self.cf, 0, self.c0 if p.off == 16 else self.p0))
            raise Unsupported("another element of the queue")
        pre(E, r"std::_List_iterator<oclgrind::Command\*>::operator\*\(\)", deref)
        def conv(E, st, a, I): st.store(E, a[0], 8, it(st, a[1])); return 0
        pre(E, r"std::_List_const_iterator<oclgrind::Command\*>::_List_const_iterator\(std::_List_iterator<", conv)
        def erase(E, st, a):
            p = self.one(st, a[1]); E.oblige(st, z3.BoolVal(p.r is self.nodes and isc(p.off) and p.off == 16), "the command itself leaves the queue"); self.put(st, self.gone, 1); return node(0)
        pre(E, P + L("Command") + r"erase\(", qm(erase)); E.models["oclgrind::now"] = lambda E, st, a, I: fresh("now", 64); pre(E, r"^oclgrind::now\(\)", lambda E, st, a, I: fresh("now", 64))
        for k, (nm,) in KIND.items():
            def ex(E, st, a, I, k=k, nm=nm):
                E.used_contracts.add(H + "execute" + nm); O = lambda x, w: E.oblige(st, x, w)
                O(b2z(And(peq(a[0], Ptr(self.qf, 0, self.q0)), peq(a[1], Ptr(self.cf, 0, self.c0)))), "the command itself is carried out")
                O(self.type == self.K[k], "a command is carried out as what it is"); O(self.g(st, self.done) == 0, "a command is carried out once"); self.ready(st); O(self.state(st, self.e0) == 1, "the event says running while the command runs")
                self.put(st, self.done, 1); return 0
            E.models[H + "execute" + nm] = ex
    def ready(self, s):
        O = self.E.oblige; O(s, self.g(s, self.n) == 0, "nothing is left in the wait list"); O(s, z3.Or(self.pos0 == NONE, self.state(s, self.W) == 0), "every event of the wait list is complete before the command runs")
        O(s, z3.Implies(self.before(), self.fin(self.state(s, self.ep))), "the command before it in an in-order (or flushed) queue has finished")
import itertools
E_ctr = itertools.count(1)
def t_execute(t):
    w = QW(t); E = w.E; st = w.st
    def recursive(E, s, a, I):
        return w.execute(E, s, a, I)
    fn = w.m.fn(H + "execute")
    E.models[H + "execute"] = recursive
    def hint(E, d):
        same = lambda x, v0: lambda s, v: z3.And(z3.Implies(w.fin(v0), w.state(s, x) == v0), z3.Or(w.state(s, x) == v0, w.fin(w.state(s, x))))
        return [("W waits or is complete", lambda s, v: z3.Or(w.pos0 == NONE, w.g(s, w.pos) != NONE, w.state(s, w.W) == 0)), ("place of W", lambda s, v: z3.Or(w.g(s, w.pos) == NONE, z3.ULT(w.g(s, w.pos), w.g(s, w.n)))),
                ("the event is still queued", lambda s, v: w.state(s, w.e0) == 3), ("finished events stay as they are", same(w.X, w.sx)), ("finished events stay as they are (W)", same(w.W, w.sw)),
                ("only executed commands change their event", lambda s, v: w.kept(s)), ("states", lambda s, v: z3.And(w.state(s, w.W) <= 3, w.state(s, w.X) <= 3)),
                ("what came before is finished", lambda s, v: z3.Implies(w.before(), w.fin(w.state(s, w.ep)))), ("all handed over", lambda s, v: w.g(s, w.owed) == 0), ("the wait list is short", lambda s, v: z3.ULT(w.g(s, w.n), 1 << 62))]
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(fn, [Ptr(w.qf, 0, w.q0), Ptr(w.cf, 0, w.c0), w.flush], st)):
        s = oc.st; O = lambda g, nm: E.oblige(s, g, nm); O(oc.kind == "ret", "no exception")
        x = w.state(s, w.e0); d = w.g(s, w.done)
        O(w.g(s, w.gone) == 1, "the command leaves its queue"); O(z3.Or(x == 0, x < 0), "the event ends complete or in error")
        O(z3.If(x == 0, d == z3.If(w.type == w.K["EMPTY"], z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)), d == 0), "a complete command was carried out once, a failed one not at all")
        O(z3.Implies(x == 0, z3.Or(w.pos0 == NONE, w.state(s, w.W) == 0)), "a command only completes when everything it waits for is complete")
        O(z3.Implies(x < 0, z3.And(w.g(s, w.last) != 0, w.state(s, w.g(s, w.last)) == x)), "a command only fails with the error of something it waits for")
        O(z3.Implies(w.before(), w.fin(w.state(s, w.ep))), "earlier commands of an in-order (or flushed) queue are finished, too"); O(w.g(s, w.owed) == 0, "every command executed on the way is handed over for release")
        O(w.kept(s), "only the command's own event and those of commands executed on the way change")
        O(z3.And(z3.Implies(w.fin(w.sx), w.state(s, w.X) == w.sx), z3.Or(w.state(s, w.X) == w.sx, w.fin(w.state(s, w.X)))), "events that are already complete or in error never change")
def t_enqueue(t):
    E = t.engine(); m = E.mod; st = State(); q, c = Region("queue"), Region("command"); st.ghost["push"] = ()
    now = lambda E, st, a, I: fresh("now", 64)
    pre(E, r"^oclgrind::now\(\)", now); E.models["oclgrind::now"] = now
    def push(E, st, a, I): st.log("push", (a[0], st.load(E, a[1], 8, "ptr"))); return 0
    pre(E, r"list<oclgrind::Command\*, .*::push_back\(", push)
    for oc in t.reached(E.exec_fn(m.fn(H + "enqueue"), [Ptr(q), Ptr(c)], st)):
        s = oc.st; O = lambda g, nm: E.oblige(s, g, nm); O(oc.kind == "ret", "no exception"); e = oc.val; p = s.ghost.get("push", ())
        f = lambda k, n=8, ty="ptr": s.load(E, Ptr(e.r, e.off + m.field("Event", k)), n, ty) if ty else s.load(E, Ptr(e.r, e.off + m.field("Event", k)), n)
        O(len(p) == 1 and b2z(And(peq(p[0][0], Ptr(q, m.field("Queue", "m_queue"))), peq(p[0][1], Ptr(c)))), "the command is put at the end of the queue, once")
        O(eq(f("state", 4, None), 3), "a new event is queued"); O(b2z(And(peq(f("command"), Ptr(c)), peq(f("queue"), Ptr(q)))), "the event belongs to the command and the queue")
        O(b2z(peq(s.load(E, Ptr(c, m.field("Command", "event")), 8, "ptr"), Ptr(e.r, e.off))), "the command has the event")
def t_finish(t):
    E = t.engine(); m = E.mod; st = State(); q, c = Region("queue"), Region("last command"); empty = z3.Bool("queue empty"); E.inputs["empty"] = empty; st.ghost["ex"] = ()
    own = lambda E, st, p: E.oblige(st, b2z(peq(p, Ptr(q, m.field("Queue", "m_queue")))), "the queue's own list")
    L = r"list<oclgrind::Command\*, .*::"
    pre(E, L + r"empty\(\) const", lambda E, st, a, I: (own(E, st, a[0]), empty)[1])
    def back(E, st, a, I):
        own(E, st, a[0]); E.oblige(st, z3.Not(empty), "the queue is not empty"); x = Region("element"); x.base[("c", 0, 8)] = Ptr(c); return Ptr(x)
    pre(E, L + r"back\(\)", back)
    def ex(E, st, a, I): E.used_contracts.add(H + "execute"); st.log("ex", tuple(a)); return 0
    E.models[H + "execute"] = ex; E.models[H + "isEmpty"] = lambda E, st, a, I: empty
    for oc in t.reached(E.exec_fn(m.fn(H + "finish"), [Ptr(q)], st)):
        s = oc.st; O = lambda g, nm: E.oblige(s, g, nm); O(oc.kind == "ret", "no exception"); x = s.ghost.get("ex", ()); r = oc.val
        fl = lambda v: v if isinstance(v, (bool, z3.BoolRef)) else eq(v, 1)
        if len(x) == 0: O(And(empty, peq(r, NULL)), "an empty queue executes nothing")
        else: O(len(x) == 1 and b2z(And(Not(empty), peq(x[0][0], Ptr(q)), peq(x[0][1], Ptr(c)), fl(x[0][2]), peq(r, Ptr(c)))), "the last command is executed, after everything before it")
def t_event(t):
    E = t.engine(); m = E.mod; st = State(); e = Region("event"); now = lambda E, st, a, I: fresh("now", 64); pre(E, r"^oclgrind::now\(\)", now); E.models["oclgrind::now"] = now
    for oc in t.reached(E.exec_fn(m.fn("oclgrind::Event::Event"), [Ptr(e)], st)):
        E.oblige(oc.st, oc.kind == "ret", "no exception"); E.oblige(oc.st, eq(oc.st.load(E, Ptr(e, m.field("Event", "state")), 4), 3), "a new event is queued")
def tasks_Q01(mod):
    return [Task("execute a command", H + "execute", t_execute), Task("enqueue", H + "enqueue", t_enqueue), Task("finish", H + "finish", t_finish), Task("new event", "oclgrind::Event::Event", t_event)]
