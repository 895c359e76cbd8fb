"""Q02 (and the command side of Q01): contracts on the queue's command execution."""
import re, z3
from engine import *
from run import Task
from memcheck import one, each, has
import containers as C
H = "oclgrind::Queue::"
class Cmd:
    """a queue, its context and global memory, one command with arbitrary fields"""
    def __init__(self, t, E, st, cls):
        m = E.mod; self.E = E
        self.q = Region("queue"); self.ctx = Region("context"); self.mem = Region("global memory")
        self.q.base[("c", m.field("Queue", "m_context"), 8)] = Ptr(self.ctx)
        E.models["oclgrind::Context::getGlobalMemory"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(self.ctx)), "the queue's own context"), Ptr(self.mem))[1]
        self.cmd = Region("command"); self.cls = cls; self.host = Region("host memory", mode="byte"); self.hb = z3.BitVec("host base", 64)
        self.F = {}
    def field(self, nm, i=0, w=64):
        E = self.E; o = E.mod.field(self.cls, nm) + 8 * i; k = (nm, i)
        if k not in self.F:
            v = z3.BitVec("%s%s" % (nm, "[%d]" % i if i else ""), w); self.F[k] = v; E.inputs[str(v)] = v; self.cmd.base[("c", o, w // 8)] = v
        return self.F[k]
    def hostptr(self, nm):
        self.cmd.base[("c", self.E.mod.field(self.cls, nm), 8)] = Ptr(self.host, 0); return self.host
def rows(E, st, dims, fn, want, zero=False):
    """calls of fn are exactly one per point of dims (outermost first), each with the arguments want(point)"""
    n = len(dims); G = Region("ghost position"); G.base = {("c", 8 * i, 8): 0 for i in range(n)}
    cv = lambda s, i: bvv(s.load(E, Ptr(G, 8 * i), 8), 64)
    pitches = []
    def named(st, x, a):
        """the loop counter that provably equals the ghost coordinate, if any (an equal term: easier arithmetic)"""
        seen = {}
        def walk(t):
            if t.get_id() in seen: return
            seen[t.get_id()] = t
            for k in t.children(): walk(k)
        for y in a: walk(b2z(bvv(y.off if isinstance(y, Ptr) else y, 64)))
        for t in list(seen.values()):
            if z3.is_const(t) and not z3.is_bv_value(t) and z3.is_bv(t) and str(t).startswith("L") and t.size() in (32, 64):
                v = zext(t, t.size(), 64)
                if E.prove_raw(st.pc, x == v, 4000)[0] == "valid": return v
        return x
    def call(E, st, a, I):
        E.used_contracts.add(fn)
        if zero: E.oblige(st, False, "nothing is transferred for an empty region"); return z3.Bool("ok")
        c = [cv(st, i) for i in range(n)]
        E.oblige(st, And(*[z3.ULT(x, d) for x, d in zip(c, dims)]), "no row outside the region is transferred")
        w = want([named(st, x, a) for x in c] if not E.suppress else c)
        if len(w) != len(a): raise Unsupported("arguments of " + fn)
        for (nm, x), y in zip(w, a): E.oblige(st, peq(y, x) if isinstance(x, Ptr) else eq(bvv(y, 64), x), "each row of the region is transferred once: " + nm)
        # advance the position, innermost first
        carry = True
        for i in range(n - 1, -1, -1):
            for p in want.pitch(i): st.assume((c[i] + 1) * p == c[i] * p + p)          # distributivity, a fact about machine integers
            nx = c[i] + 1; wrap = nx == dims[i] if i else z3.BoolVal(False)
            st.store(E, Ptr(G, 8 * i), 8, z3.simplify(z3.If(carry if not isinstance(carry, bool) else z3.BoolVal(carry), z3.If(wrap, z3.BitVecVal(0, 64), nx), c[i]))); carry = And(carry, wrap)
        return fresh("ok", 1) == 1
    E.models[fn] = call
    E.cut_at = 0; E.only_hints = True
    def hint(E, d):
        """the position is the one the loop was entered at, advanced by k places at some level"""
        e = [cv(d["st"], i) for i in range(n)]; c = []
        def adv(s, k, l):
            pos = [cv(s, i) for i in range(n)]; rest = [x == 0 for x in pos[l + 1:]]
            ok = And(*[x == y for x, y in zip(pos[:l], e)], pos[l] == k, z3.ULT(k, dims[l]) if l else z3.ULE(k, dims[0]), *rest)
            alts = [ok]; full = k == dims[l]
            for j in range(l - 1, -1, -1):      # carry into the outer levels
                alts.append(And(full, *[x == y for x, y in zip(pos[:j], e)], pos[j] == e[j] + 1, z3.ULT(pos[j], dims[j]) if j else z3.ULE(pos[0], dims[0]), *[x == 0 for x in pos[j + 1:]]))
                full = And(full, e[j] + 1 == dims[j])
            return Or(*alts)
        for k, (x, w) in d["vars"].items():
            if k[0] not in ("p", "m") or k[1] is G or w not in (32, 64): continue
            for l in range(n):
                c.append(("position follows the counter", lambda s, v, k=k, w=w, l=l: adv(s, zext(bvv(v[k], w), w, 64), l)))
                c.append(("counter in range", lambda s, v, k=k, w=w, l=l: z3.ULE(zext(bvv(v[k], w), w, 64), dims[l])))
        return c
    E.hints.append(hint)
    def done(s):
        if zero: E.oblige(s, And(*[eq(cv(s, i), 0) for i in range(n)]), "nothing is transferred for an empty region")
        else: E.oblige(s, And(eq(cv(s, 0), dims[0]), *[eq(cv(s, i), 0) for i in range(1, n)]), "every row of the region is transferred exactly once")
    return done
class Want:
    def __init__(self, f, p): self.f = f; self.p = p
    def __call__(self, c): return self.f(c)
    def pitch(self, i): return self.p(i)
def t_rect(t, fn, kind, zero):
    E = t.engine(); st = State(); m = E.mod
    cls = "CopyRectCommand" if kind == "copy" else "BufferRectCommand"; q = Cmd(t, E, st, cls)
    R = [q.field("region", i) for i in range(3)]
    if t.params is not None:
        for i in (1, 2): q.cmd.base[("c", m.field(cls, "region") + 8 * i, 8)] = t.params[i - 1]; st.assume(R[i] == t.params[i - 1])
    A, B = ("src_offset", "dst_offset") if kind == "copy" else ("host_offset", "buffer_offset")
    o = lambda nm: [q.field(nm, i) for i in range(3)]
    a, b = o(A), o(B); row = lambda v, c: v[0] + c[1] * v[1] + c[0] * v[2]
    if kind == "copy":
        src, dst = q.field("src"), q.field("dst")
        f = lambda c: [("memory", Ptr(q.mem)), ("destination address", dst + row(b, c)), ("source address", src + row(a, c)), ("length", R[0])]
    else:
        hp = q.hostptr("ptr"); ad = q.field("address")
        f = lambda c: [("memory", Ptr(q.mem)), ("host address", Ptr(hp, row(a, c))), ("buffer address", ad + row(b, c)), ("length", R[0])]
    w = Want(f, lambda i: [a[2 - i], b[2 - i]])
    if zero: st.assume(z3.Or(R[1] == 0, R[2] == 0))
    else: st.assume(z3.And(R[1] != 0, R[2] != 0))
    done = rows(E, st, [R[2], R[1]], "oclgrind::Memory::" + {"read": "load", "write": "store", "copy": "copy"}[kind], w, zero)
    for oc in t.reached(E.exec_fn(m.fn(H + fn), [Ptr(q.q), Ptr(q.cmd)], st)):
        E.oblige(oc.st, oc.kind == "ret", "no exception"); done(oc.st)
def t_fill(t, zero):
    E = t.engine(); st = State(); m = E.mod; q = Cmd(t, E, st, "FillBufferCommand")
    ad, n, ps = q.field("address"), q.field("size"), q.field("pattern_size"); hp = q.hostptr("pattern"); k = z3.BitVec("repetitions", 64); E.inputs["repetitions"] = k
    st.assume(ps != 0); st.assume(z3.UDiv(n, ps) * ps == n)     # checked when the command is enqueued (R01)
    cnt = z3.UDiv(n, ps)
    if t.params is not None: st.assume(n == t.params * ps)
    st.assume(cnt == 0 if zero else cnt != 0)
    w = Want(lambda c: [("memory", Ptr(q.mem)), ("pattern", Ptr(hp, 0)), ("address", ad + c[0] * ps), ("length", ps)], lambda i: [ps])
    done = rows(E, st, [cnt], "oclgrind::Memory::store", w, zero)
    for oc in t.reached(E.exec_fn(m.fn(H + "executeFillBuffer"), [Ptr(q.q), Ptr(q.cmd)], st)):
        E.oblige(oc.st, oc.kind == "ret", "no exception"); done(oc.st)
def t_fillimage(t, zero):
    E = t.engine(); st = State(); m = E.mod; cls = "FillImageCommand"; q = Cmd(t, E, st, cls)
    R = [q.field("region", i) for i in range(3)]; O = [q.field("origin", i) for i in range(3)]
    base, rp, sp, ps = [q.field(x) for x in ("base", "rowPitch", "slicePitch", "pixelSize")]; hp = q.hostptr("color")
    st.assume(z3.Or(*[r == 0 for r in R]) if zero else z3.And(*[r != 0 for r in R]))
    if t.params is not None:
        for i in range(3): q.cmd.base[("c", m.field(cls, "region") + 8 * i, 8)] = t.params[i]; st.assume(R[i] == t.params[i])
    w = Want(lambda c: [("memory", Ptr(q.mem)), ("colour", Ptr(hp, 0)), ("address", base + (O[0] + c[2]) * ps + (O[1] + c[1]) * rp + (O[2] + c[0]) * sp), ("length", ps)], lambda i: [])
    done = rows(E, st, [R[2], R[1], R[0]], "oclgrind::Memory::store", w, zero)
    for oc in t.reached(E.exec_fn(m.fn(H + "executeFillImage"), [Ptr(q.q), Ptr(q.cmd)], st)):
        E.oblige(oc.st, oc.kind == "ret", "no exception"); done(oc.st)
def t_simple(t, fn, kind):
    E = t.engine(); st = State(); m = E.mod; q = Cmd(t, E, st, "CopyCommand" if kind == "copy" else "BufferCommand")
    n = q.field("size")
    if kind == "copy": want = [Ptr(q.mem), q.field("dst"), q.field("src"), n]
    else: want = [Ptr(q.mem), Ptr(q.hostptr("ptr"), 0), q.field("address"), n]
    def call(E, st, a, I): st.log("call", tuple(a)); return z3.Bool("ok")
    E.models["oclgrind::Memory::" + {"read": "load", "write": "store", "copy": "copy"}[kind]] = call
    for oc in t.reached(E.exec_fn(m.fn(H + fn), [Ptr(q.q), Ptr(q.cmd)], st)):
        c = oc.st.ghost.get("call", ())
        E.oblige(oc.st, oc.kind == "ret" and len(c) == 1 and And(*[peq(y, x) if isinstance(x, Ptr) else eq(bvv(y, 64), x) for x, y in zip(want, c[0])]), "exactly the requested bytes are transferred, once")
def tasks_Q02():
    out = [Task(k + " buffer", H + fn, lambda t, k=k, fn=fn: t_simple(t, fn, k)) for k, fn in (("read", "executeReadBuffer"), ("write", "executeWriteBuffer"), ("copy", "executeCopyBuffer"))]
    FB2 = [(1, 1), (2, 1), (1, 2), (2, 3)]; FB3 = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2)]
    for z in (False, True):
        s = " (empty region)" if z else ""
        for k, fn in (("read", "executeReadBufferRect"), ("write", "executeWriteBufferRect"), ("copy", "executeCopyBufferRect")):
            out.append(Task(k + " rectangle" + s, H + fn, each(lambda t, k=k, fn=fn, z=z: t_rect(t, fn, k, z)), fallback=None if z else FB2))
        out.append(Task("fill buffer" + s, H + "executeFillBuffer", each(lambda t, z=z: t_fill(t, z)), fallback=None if z else [1, 2, 3]))
        out.append(Task("fill image" + s, H + "executeFillImage", each(lambda t, z=z: t_fillimage(t, z)), fallback=None if z else FB3))
    return out
