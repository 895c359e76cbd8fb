"""The OpenCL runtime (runtime.cpp): contracts on the API entry points.  Error message text (streams, notifyAPIError) is not specified."""
import re, z3
from engine import *
from run import Task
OK, MEMOBJ, QUEUE, VALUE, OPERATION, WAITLIST, OVERLAP, CONTEXT, FORMAT = 0, -38, -36, -30, -59, -57, -8, -34, -9
B = z3.BitVecSort
def W(x, w=65): return z3.ZeroExt(w - 64, x)
class RT:
    def __init__(self, t):
        for k in ("cl_image_desc", "cl_image_format", "cl_buffer_region"):
            T = t.mod.types
            if k not in T and "oclgrind::" + k not in T and "_" + k in T: T[k] = T["_" + k]
        self.t = t; self.E = E = t.engine(); self.m = E.mod; self.st = State(); m = E.mod
        E.rmodels.insert(0, (re.compile(r"^\(anonymous namespace\)::APICallEntry::"), lambda E, st, a, I: 0))
        E.rmodels.insert(0, (re.compile(r"^\(anonymous namespace\)::notifyAPIError\("), lambda E, st, a, I: st.log("notified", a[1]) or 0))
        E.rmodels.insert(0, (re.compile(r"^thread-local wrapper routine for"), lambda E, st, a, I: Ptr(Region("call stack"))))
        E.rmodels.insert(0, (re.compile(r"^std::vector<char const\*, .*>::front\("), lambda E, st, a, I: Ptr(Region("function name"))))
        E.rmodels.insert(0, (re.compile(r"^std::(__cxx11::)?(list|stack|deque|vector|map)<[^()]*>::(~?)(list|stack|deque|vector|map)\(\)"), lambda E, st, a, I: 0))
        self.errs = []; self.wl = z3.BitVec("wait list result", 32); E.inputs["wait list result"] = self.wl
    # ---- objects
    def var(self, nm, w=64):
        v = z3.BitVec(nm, w); self.E.inputs[nm] = v; return v
    def obj(self, nm, cls, null=True):
        """an object reference argument, possibly null"""
        r = Region(nm); r.cls = cls; r.null = z3.Bool(nm + " is null") if null else False
        if null: self.E.inputs[nm + " is null"] = r.null
        r.arg = pite(r.null, NULL, Ptr(r)); r.f = {}; return r
    def get(self, r, *path, w=64, i=0):
        k = path + (i,)
        if k not in r.f:
            v = self.var("%s.%s%s" % (r.name, ".".join(path), "[%d]" % i if i else ""), w); r.f[k] = v; r.base[("c", self.m.field(r.cls, *path) + i * w // 8, w // 8)] = v
        return r.f[k]
    def ref(self, r, field, target):
        r.base[("c", self.m.field(r.cls, field), 8)] = target if not isinstance(target, Region) else Ptr(target)
    def data(self, nm, null=True):
        r = Region(nm, mode="byte"); r.null = z3.Bool(nm + " is null") if null else False
        if null: self.E.inputs[nm + " is null"] = r.null
        r.arg = pite(r.null, NULL, Ptr(r)); return r
    def triple(self, nm, null=True):
        """a size_t[3] argument"""
        r = Region(nm); r.null = z3.Bool(nm + " is null") if null else False
        if null: self.E.inputs[nm + " is null"] = r.null
        r.v = [self.var("%s[%d]" % (nm, i)) for i in range(3)]
        for i, x in enumerate(r.v): r.base[("c", 8 * i, 8)] = x
        r.arg = pite(r.null, NULL, Ptr(r)); return r
    def queue(self):
        self.q = self.obj("queue", "_cl_command_queue"); self.ctx = Region("context"); self.ctx.cls = "_cl_context"; self.ctx.f = {}; self.ref(self.q, "context", self.ctx)
        return self.q
    def mem(self, nm, image=False):
        r = self.obj(nm, "cl_image" if image else "_cl_mem"); self.ref(r, "context", self.ctx)
        for f in ("address", "size", "flags", "offset"): self.get(r, f)
        if image:
            for f, w in (("image_width", 64), ("image_height", 64), ("image_depth", 64), ("image_array_size", 64), ("image_type", 32)): self.get(r, "desc", f, w=w)
            for f in ("image_channel_order", "image_channel_data_type"): self.get(r, "format", f, w=32)
        return r
    # ---- contracts of the callees
    def events(self):
        """the event arguments and the queueing contracts"""
        E = self.E; self.nev = self.var("events in wait list", 32); self.evl = self.data("wait list"); self.evo = self.data("event out")
        def check(E, st, a, I):
            E.used_contracts.add("checkEventWaitList"); E.oblige(st, And(peq(a[0], Ptr(self.ctx)), eq(bvv(a[1], 32), self.nev), peq(a[2], self.evl.arg)), "the event wait list is checked")
            return self.wl
        E.models["checkEventWaitList"] = check; E.rmodels.insert(0, (re.compile(r"^\(anonymous namespace\)::checkEventWaitList\("), check))
        self.errs.append((self.wl, self.wl != 0))
        for nm in ("asyncQueueRetain",):
            E.models[nm] = lambda E, st, a, I: (E.used_contracts.add("asyncQueueRetain"), st.log("retained", (a[0], a[1])), 0)[2]
        def enq(E, st, a, I):
            E.used_contracts.add("asyncEnqueue"); st.log("enqueued", (a, st.fork())); return 0
        E.models["asyncEnqueue"] = enq
        def fin(E, st, a, I):
            E.used_contracts.add("clFinish"); E.oblige(st, peq(a[0], Ptr(self.q)), "waits for the queue it was enqueued on"); st.log("finished", len(st.ghost.get("enqueued", ()))); return z3.BitVec("finish result", 32)
        E.models["clFinish"] = fin
        return [self.nev, self.evl.arg, self.evo.arg]
    def err(self, code, cond): self.errs.append((z3.BitVecVal(code & 0xFFFFFFFF, 32), cond))
    def valid(self): return z3.Not(z3.Or(*[b2z(c) for _, c in self.errs]))
    def inrange(self, off, n, size): return z3.ULE(W(off) + W(n), W(size))
    def run(self, fn, args): return self.t.reached(self.E.exec_fn(self.m.fn(fn), args, self.st))
    # ---- the command that must be queued
    def command(self, s, type_, cls, cmdtype, fields, mems, blocking):
        E = self.E; enq = s.ghost.get("enqueued", ())
        if len(enq) != 1: E.oblige(s, False, "exactly one command is enqueued"); return
        a, snap = enq[0]
        E.oblige(s, And(peq(a[0], Ptr(self.q)), eq(bvv(a[1], 32), cmdtype), eq(bvv(a[3], 32), self.nev), peq(a[4], self.evl.arg), peq(a[5], self.evo.arg)), "enqueued on this queue, with the given command type, wait list and event")
        p = a[2]
        if not isinstance(p, Ptr) or p.r is None: raise Unsupported("command pointer")
        at = lambda f, i=0, n=8, ty=None: snap.load(E, pgep(p, self.m.field(cls, f) + n * i), n, ty)
        E.oblige(s, eq(bvv(at("type", 0, 4), 32), self.m.enum("oclgrind::Command::CommandType", type_)), "the kind of the command")
        for nm, i, v in fields:
            if isinstance(v, (Ptr, PIte)): E.oblige(s, peq(at(nm, i, 8, "ptr"), v), "command field: " + nm)
            else: E.oblige(s, eq(bvv(at(nm, i, v.size() // 8), v.size()), v), "command field: " + nm)
        rt = s.ghost.get("retained", ())
        E.oblige(s, len(rt) == len(mems) and And(*[peq(c, p) for c, _ in rt], *[Or(*[peq(x, Ptr(m)) for _, x in rt]) for m in mems]), "the memory objects are retained for the command")
        if blocking is not None:
            f = s.ghost.get("finished", ())
            E.oblige(s, (blocking != 0) if f else (blocking == 0), "waits for completion exactly when the request is blocking"); E.oblige(s, all(n == 1 for n in f), "waits after enqueueing")
        return at
    def result(self, oc, r, blocking=None):
        """(accepted?) after checking the code of a rejected request"""
        E = self.E; s = oc.st; r = bvv(r, 32)
        E.oblige(s, oc.kind == "ret", "no exception")
        n = len(s.ghost.get("enqueued", ()))
        if n == 0:
            E.oblige(s, z3.Or(*[z3.And(b2z(c), r == k) for k, c in self.errs]), "a request that is not carried out is invalid, and the error says why")
            return False
        E.oblige(s, self.valid(), "only valid requests are enqueued")
        if blocking is not None: E.oblige(s, r == z3.If(blocking != 0, z3.BitVec("finish result", 32), z3.BitVecVal(0, 32)), "returns success")
        else: E.oblige(s, r == 0, "returns success")
        return True
    def ret_api(self, fn, args, then, blocking=None):
        for oc in self.run(fn, args):
            if self.result(oc, oc.val, blocking): then(oc.st)
HOST_NO, HOST_WO, HOST_RO = 1 << 9, 1 << 7, 1 << 8
CT = dict(READ=0x11F3, WRITE=0x11F4, COPY=0x11F5, READ_RECT=0x1201, WRITE_RECT=0x1202, COPY_RECT=0x1203, FILL=0x1207, MAP=0x11FB, UNMAP=0x11FD, FILL_IMAGE=0x1208, MAP_IMAGE=0x11FC)
def t_linear(t, kind):
    R = RT(t); q = R.queue(); b = R.mem("buffer"); blk, off, n = R.var("blocking", 32), R.var("offset"), R.var("size"); p = R.data("host pointer"); ev = R.events()
    if kind == "read": bad = HOST_NO | HOST_WO
    else: bad = HOST_NO | HOST_RO
    R.err(QUEUE, q.null); R.err(MEMOBJ, b.null); R.err(VALUE, Or(p.null, z3.Not(R.inrange(off, n, R.get(b, "size"))))); R.err(OPERATION, (R.get(b, "flags") & bad) != 0)
    fn = {"read": "clEnqueueReadBuffer", "write": "clEnqueueWriteBuffer"}[kind]; K = kind.upper()
    R.ret_api(fn, [q.arg, b.arg, blk, off, n, p.arg] + ev, lambda s: R.command(s, K, "BufferCommand", CT[K], [("ptr", 0, Ptr(p)), ("address", 0, R.get(b, "address") + off), ("size", 0, n)], [b], blk), blk)
def t_copy(t, same):
    R = RT(t); q = R.queue(); a = R.mem("source"); b = R.mem("destination") if not same else a; so, do, n = R.var("source offset"), R.var("destination offset"), R.var("size"); ev = R.events()
    R.err(QUEUE, q.null); R.err(MEMOBJ, Or(a.null, b.null)); R.err(VALUE, z3.Not(z3.And(R.inrange(so, n, R.get(a, "size")), R.inrange(do, n, R.get(b, "size")))))
    if same:
        # the ranges share a byte; an empty range at the other's start is rejected too (no bytes are affected either way)
        ov = z3.And(z3.ULT(W(so), W(do) + W(n)), z3.ULT(W(do), W(so) + W(n))); R.err(OVERLAP, ov)
    R.ret_api("clEnqueueCopyBuffer", [q.arg, a.arg, b.arg, so, do, n] + ev, lambda s: R.command(s, "COPY", "CopyCommand", CT["COPY"], [("src", 0, R.get(a, "address") + so), ("dst", 0, R.get(b, "address") + do), ("size", 0, n)], [a, b], None))
def t_fill(t):
    R = RT(t); E = R.E; q = R.queue(); b = R.mem("buffer"); p = R.data("pattern"); ps, off, n = R.var("pattern size"), R.var("offset"), R.var("size"); ev = R.events()
    R.err(QUEUE, q.null); R.err(MEMOBJ, b.null); R.err(VALUE, Or(p.null, ps == 0, z3.URem(off, ps) != 0, z3.URem(n, ps) != 0, z3.Not(R.inrange(off, n, R.get(b, "size")))))
    def then(s):
        at = R.command(s, "FILL_BUFFER", "FillBufferCommand", CT["FILL"], [("pattern_size", 0, ps), ("address", 0, R.get(b, "address") + off), ("size", 0, n)], [b], None)
        if at:
            c = at("pattern", 0, 8, "ptr"); g = z3.BitVec("ghost.byte", 64); s2 = s.fork(); s2.assume(z3.ULT(g, ps))
            E.oblige(s, isinstance(c, Ptr) and c.r is not p and c.r is not None, "the command has its own copy of the pattern")
            if isinstance(c, Ptr): E.oblige(s2, eq(bvv(s2.load(E, pgep(c, g), 1), 8), bvv(p.byte0(0, g), 8)), "the pattern is copied")
    R.ret_api("clEnqueueFillBuffer", [q.arg, b.arg, p.arg, ps, off, n] + ev, then)
# ---- rectangles
def rect_exact(size, o, r, rp, sp):
    """every byte of the rectangle lies below size, in exact arithmetic"""
    X = lambda x: z3.ZeroExt(136 - 64, x); one = z3.BitVecVal(1, 136)
    return z3.ULE(X(o[0]) + X(r[0]) + (X(o[1]) + X(r[1]) - one) * X(rp) + (X(o[2]) + X(r[2]) - one) * X(sp), X(size))
RB = z3.Function("rectangle inside", *([B(64)] * 9), z3.BoolSort())
class Rects:
    """the predicate 'rectangle inside the object' shared by code (contract of rectInBuffer) and specification"""
    def __init__(self, R):
        self.R = R; E = R.E; m = E.mod
        self.abstract = any(f.dem.split("(")[0] == "rectInBuffer" for f in m.fns.values())
        if self.abstract:
            def rect(E, st, a, I):
                E.used_contracts.add("rectInBuffer"); out = []
                for s, p in E.resolve(st, a[0]):
                    for s1, o in E.resolve(s, a[1]):
                        for s2, r in E.resolve(s1, a[2]):
                            if any(x.r is None for x in (p, o, r)): E.oblige(s2, False, "no null pointer is passed on"); continue
                            T = [[bvv(s2.load(E, pgep(x, 8 * i), 8), 64) for i in range(3)] for x in (o, r)]
                            E.oblige(s2, And(*[Not(eq(x, 0)) for x in T[1]]), "regions checked are not empty")
                            s2.log("rect", 1); out.append((s2, RB(bvv(s2.load(E, pgep(p, m.field("_cl_mem", "size")), 8), 64), *T[0], *T[1], bvv(a[3], 64), bvv(a[4], 64))))
                return out
            E.models["rectInBuffer"] = rect
    def inside(self, size, o, r, rp, sp):
        return RB(size, *o, *r, rp, sp) if self.abstract else rect_exact(size, o, r, rp, sp)
    def check(self, s):
        if self.abstract and not s.ghost.get("rect"): raise Unsupported("an accepted rectangle was not checked with rectInBuffer")
def pitches(r, rp, sp):
    rp2 = z3.If(rp == 0, r[0], rp); return rp2, z3.If(sp == 0, r[1] * rp2, sp)
def t_rect(t, kind):
    R = RT(t); q = R.queue(); b = R.mem("buffer"); blk = R.var("blocking", 32); o, h, r = R.triple("buffer origin"), R.triple("host origin"), R.triple("region"); C = Rects(R)
    brp, bsp, hrp, hsp = [R.var(x) for x in ("buffer row pitch", "buffer slice pitch", "host row pitch", "host slice pitch")]; p = R.data("host pointer"); ev = R.events()
    bp, hp = pitches(r.v, brp, bsp), pitches(r.v, hrp, hsp); bad = HOST_NO | (HOST_WO if kind == "read" else HOST_RO); K = kind.upper() + "_RECT"
    R.err(QUEUE, q.null); R.err(MEMOBJ, b.null); R.err(OPERATION, (R.get(b, "flags") & bad) != 0)
    R.err(VALUE, z3.Or(p.null, o.null, h.null, r.null, *[x == 0 for x in r.v], z3.Not(C.inside(R.get(b, "size"), o.v, r.v, *bp))))
    F = lambda nm, v, pt: [(nm, 0, v[0] + v[1] * pt[0] + v[2] * pt[1]), (nm, 1, pt[0]), (nm, 2, pt[1])]
    def then(s):
        C.check(s); R.command(s, K, "BufferRectCommand", CT[K], [("ptr", 0, Ptr(p)), ("address", 0, R.get(b, "address"))] + [("region", i, r.v[i]) for i in range(3)] + F("buffer_offset", o.v, bp) + F("host_offset", h.v, hp), [b], blk)
    R.ret_api("clEnqueue%sBufferRect" % kind.capitalize(), [q.arg, b.arg, blk, o.arg, h.arg, r.arg, brp, bsp, hrp, hsp, p.arg] + ev, then, blk)
def t_copyrect(t):
    R = RT(t); q = R.queue(); a, b = R.mem("source"), R.mem("destination"); o, h, r = R.triple("source origin"), R.triple("destination origin"), R.triple("region"); C = Rects(R)
    arp, asp, brp, bsp = [R.var(x) for x in ("source row pitch", "source slice pitch", "destination row pitch", "destination slice pitch")]; ev = R.events()
    ap, bp = pitches(r.v, arp, asp), pitches(r.v, brp, bsp)
    R.err(QUEUE, q.null); R.err(MEMOBJ, Or(a.null, b.null))
    R.err(VALUE, z3.Or(o.null, h.null, r.null, *[x == 0 for x in r.v], z3.Not(z3.And(C.inside(R.get(a, "size"), o.v, r.v, *ap), C.inside(R.get(b, "size"), h.v, r.v, *bp)))))
    F = lambda nm, v, pt: [(nm, 0, v[0] + v[1] * pt[0] + v[2] * pt[1]), (nm, 1, pt[0]), (nm, 2, pt[1])]
    def then(s):
        C.check(s); R.command(s, "COPY_RECT", "CopyRectCommand", CT["COPY_RECT"], [("src", 0, R.get(a, "address")), ("dst", 0, R.get(b, "address"))] + [("region", i, r.v[i]) for i in range(3)] + F("src_offset", o.v, ap) + F("dst_offset", h.v, bp), [a, b], None)
    R.ret_api("clEnqueueCopyBufferRect", [q.arg, a.arg, b.arg, o.arg, h.arg, r.arg, arp, asp, brp, bsp] + ev, then)
# ---- the range helpers
PROD = z3.Function("exact product", B(64), B(64), B(136))
def prod(a, b):
    """the exact product; one of the factors may be a literal"""
    a, b = z3.simplify(bvv(a, 64)), z3.simplify(bvv(b, 64))
    for x, y in ((a, b), (b, a)):
        if z3.is_bv_value(x): return z3.ZeroExt(72, y) * z3.BitVecVal(x.as_long(), 136)
    return PROD(a, b) if a.get_id() < b.get_id() else PROD(b, a)
def t_advance(t):
    R = RT(t); E = R.E; st = R.st; pos, lim, n, p = R.var("position"), R.var("limit"), R.var("count"), R.var("pitch")
    cell = Region("position cell"); cell.base[("c", 0, 8)] = pos; X = lambda x: z3.ZeroExt(72, x)
    st.assume(z3.ULE(pos, lim)); d = lim - pos; P = prod(n, p)
    # the lemma about truncating division, proved over the integers
    q, c, k, x = z3.Ints("q c k x"); sv = z3.Solver(); sv.set("timeout", 20000)
    sv.add(c > 0, x >= 0, k >= 0, q * c <= x, x < q * c + c, q >= 0, z3.Not((k <= q) == (k * c <= x)))
    # (k <= q -> k*c <= q*c) and (k >= q+1 -> k*c >= q*c + c): products of non-negative factors
    sv.add(z3.Implies(k <= q, (q - k) * c >= 0), z3.Implies(k > q, (k - q - 1) * c >= 0))
    E.oblige(st, sv.check() == z3.unsat, "lemma: k <= x div c exactly when k*c <= x")
    st.assume(z3.Extract(135, 128, P) == 0); st.assume(z3.Implies(n != 0, z3.ULE(p, z3.UDiv(d, n)) == z3.ULE(P, X(d)))); st.assume(z3.Extract(63, 0, P) == n * p); st.assume(z3.Implies(z3.Or(n == 0, p == 0), P == 0))
    ok = z3.ULE(X(pos) + P, X(lim))
    for oc in t.reached(E.exec_fn(R.m.fn("advance"), [Ptr(cell), lim, n, p], st)):
        r = oc.val if isinstance(oc.val, bool) or z3.is_bool(oc.val) else bvv(oc.val, 8) != 0; s = oc.st
        E.oblige(s, eq(b2z(r), ok) if False else b2z(r) == ok, "succeeds exactly when position + count * pitch does not exceed the limit")
        s.assume(b2z(r)); E.oblige(s, X(bvv(s.load(E, Ptr(cell), 8), 64)) == X(pos) + P, "advances by count * pitch")
def t_rectin(t):
    """over the integers: the contract of advance() says that positions are exact"""
    R = RT(t); E = R.E; st = R.st; R.queue(); b = R.mem("buffer"); st.assume(z3.Not(b.null)); o, r = R.triple("origin", False), R.triple("region", False); rp, sp = R.var("row pitch"), R.var("slice pitch")
    for x in r.v: st.assume(x != 0)
    ints = {}; L = z3.Int("limit"); PI_ = z3.Function("product", z3.IntSort(), z3.IntSort(), z3.IntSort()); names = {}
    def num(x):
        """the integer value of a 64-bit term (opaque, non-negative)"""
        x = z3.simplify(bvv(x, 64))
        if z3.is_bv_value(x): return z3.IntVal(x.as_long())
        if x.get_id() not in ints: ints[x.get_id()] = (z3.Int("n%d" % len(ints)), x); st.assume(ints[x.get_id()][0] >= 0)
        return ints[x.get_id()][0]
    def prd(a, b):
        u, v = num(a), num(b)
        if z3.is_int_value(u) or z3.is_int_value(v): return u * v
        p = PI_(u, v) if u.get_id() < v.get_id() else PI_(v, u); return p
    size = R.get(b, "size"); ints[size.get_id()] = (L, size); st.assume(L >= 0)
    terms = [num(o.v[0]), num(r.v[0]), prd(o.v[1], rp), prd(r.v[1] - 1, rp), prd(o.v[2], sp), prd(r.v[2] - 1, sp)]
    for x in terms: st.assume(x >= 0)
    def adv(E, st, a, I):
        E.used_contracts.add("advance"); out = []
        for s, p in E.resolve(st, a[0]):
            x = z3.simplify(bvv(s.load(E, p, 8), 64)); lim = z3.simplify(bvv(a[1], 64))
            if not z3.is_bv_value(x) and x.get_id() not in ints: raise Unsupported("position")
            pos = num(x); l = num(lim); E.oblige(s, pos <= l, "the position does not exceed the limit"); P = prd(a[2], a[3]); s1 = s.fork()
            nw = z3.simplify(bvv(fresh("position", 64), 64)); ints[nw.get_id()] = (pos + P, nw)
            s.assume(pos + P <= l); s.store(E, p, 8, nw); out.append((s, z3.BoolVal(True))); s1.assume(z3.Not(pos + P <= l)); s1.store(E, p, 8, fresh("unspecified", 64)); out.append((s1, z3.BoolVal(False)))
        return out
    E.models["advance"] = adv
    for oc in t.reached(E.exec_fn(R.m.fn("rectInBuffer"), [Ptr(b), Ptr(o), Ptr(r), rp, sp], st)):
        v = oc.val if isinstance(oc.val, bool) or z3.is_bool(oc.val) else bvv(oc.val, 8) != 0
        E.oblige(oc.st, b2z(v) == (z3.Sum(terms) <= L), "accepts exactly the rectangles whose last byte lies inside the buffer")
def t_eventlist(t, allvalid):
    R = RT(t); E = R.E; st = R.st; n = R.var("events in wait list", 32); ctx = Region("context"); L = R.data("wait list", True); L.mode = "cells"; m = R.m
    EV = Region("event", fam=True); cx = Region("other context"); nul = z3.Function("event is null", B(64), z3.BoolSort()); other = z3.Function("event of another context", B(64), z3.BoolSort())
    L.schemafn = lambda off: (lambda E, inst, off, tag: pite(nul(z3.LShR(bvv(off, 64), 3)), NULL, Ptr(EV, 0, z3.LShR(bvv(off, 64), 3))))
    co = m.field("_cl_event", "context")
    EV.schemafn = lambda off: (lambda E, inst, off, tag: pite(other(bvv(inst, 64)), Ptr(cx), Ptr(ctx))) if isc(off) and off == co else None
    g = R.var("ghost.event"); E.inputs["ghost event is null"] = nul(g); E.inputs["ghost event has another context"] = other(g)
    i = z3.BitVec("i", 64); bad = lambda i: z3.Or(nul(i), other(i))
    if allvalid:
        st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, z3.ZeroExt(32, n)), z3.Not(bad(i))))); st.assume(L.null == (n == 0))
    def hint(E, d):
        c = []
        for k, (x, w) in d["vars"].items():
            if k[0] == "p": c.append(("checked so far", lambda s, v, k=k, w=w: z3.Implies(z3.ULT(g, zext(bvv(v[k], w), w, 64)), z3.Not(bad(g)))))
        return c
    E.hints.append(hint)
    for oc in t.reached(E.exec_fn(R.m.fn("checkEventWaitList"), [Ptr(ctx), n, L.arg], st)):
        s = oc.st; r = bvv(oc.val, 32); E.oblige(s, oc.kind == "ret", "no exception")
        c = lambda k: z3.BitVecVal(k & 0xFFFFFFFF, 32)
        if allvalid: E.oblige(s, r == 0, "a valid wait list is accepted"); continue
        E.oblige(s, z3.Or(r == 0, r == c(WAITLIST), r == c(CONTEXT)), "the error codes")
        E.oblige(s, z3.Implies(L.null != (n == 0), r == c(WAITLIST)), "list and count must agree")
        E.oblige(s, z3.Implies(z3.And(r == 0, z3.ULT(g, z3.ZeroExt(32, n))), z3.Not(bad(g))), "an accepted list has only events of the context")
# ---- sub-buffers and mappings
def t_sub(t):
    R = RT(t); E = R.E; R.queue(); b = R.mem("buffer"); m = R.m; flags, ty = R.var("flags"), R.var("create type", 32); par = z3.Bool("buffer is a sub-buffer"); E.inputs["buffer is a sub-buffer"] = par
    PB = Region("grandparent"); R.ref(b, "parent", pite(par, Ptr(PB), NULL)); hp = z3.BitVec("parent host pointer", 64); hn = hp == 0; HP = Region("host memory", mode="byte"); b.base[("c", m.field("_cl_mem", "hostPtr"), 8)] = pite(z3.Bool("no host pointer"), NULL, Ptr(HP))
    info = Region("create info"); info.null = z3.Bool("info is null"); og, sz = R.var("origin"), R.var("size"); info.base[("c", 0, 8)] = og; info.base[("c", 8, 8)] = sz
    ec = Region("error code"); en = z3.Bool("errcode_ret is null"); ec.base[("c", 0, 4)] = z3.BitVec("errcode before", 32)
    E.models["clRetainMemObject"] = lambda E, st, a, I: (E.used_contracts.add("clRetainMemObject"), st.log("retainmem", a[0]), 0)[2]
    R.err(MEMOBJ, Or(b.null, par)); R.err(VALUE, z3.Or(ty != 0x1220, info.null, sz == 0, z3.Not(R.inrange(og, sz, R.get(b, "size")))))
    RWF, HAF, HPF = 7, HOST_NO | HOST_RO | HOST_WO, 8 | 16 | 32; pf = R.get(b, "flags")
    for oc in R.run("clCreateSubBuffer", [b.arg, flags, ty, pite(info.null, NULL, Ptr(info)), pite(en, NULL, Ptr(ec))]):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); code = bvv(s.load(E, Ptr(ec), 4), 32)
        E.oblige(s, z3.Implies(en, code == z3.BitVec("errcode before", 32)), "the error code is stored only where requested")
        for s, p in E.resolve(s, oc.val):
            rm = s.ghost.get("retainmem", ())
            if p.r is None:
                E.oblige(s, z3.Or(*[z3.And(b2z(c), z3.Or(en, code == k)) for k, c in R.errs]), "a rejected request is invalid, and the error says why"); E.oblige(s, not rm, "nothing is retained"); continue
            E.oblige(s, R.valid(), "only valid requests are accepted"); E.oblige(s, z3.Or(en, code == 0), "success is reported")
            at = lambda f, n=8, ty=None: s.load(E, pgep(p, m.field("_cl_mem", f)), n, ty)
            E.oblige(s, eq(bvv(at("address"), 64), R.get(b, "address") + og), "starts at the origin inside the parent"); E.oblige(s, And(eq(bvv(at("size"), 64), sz), eq(bvv(at("offset"), 64), og)), "has the requested size")
            E.oblige(s, And(peq(at("parent", 8, "ptr"), Ptr(b)), peq(at("context", 8, "ptr"), Ptr(R.ctx)), eq(bvv(at("refCount", 4), 32), 1), eq(bvv(at("isImage", 1), 8), 0)), "a sub-buffer of the given buffer, referenced once")
            pick = lambda mk: z3.If((flags & mk) == 0, pf & mk, flags & mk)
            E.oblige(s, eq(bvv(at("flags"), 64), pick(RWF) | pick(HAF) | (pf & HPF)), "flags given or inherited")
            E.oblige(s, len(rm) == 1 and peq(rm[0], Ptr(b)), "retains its parent")
def t_map(t, image):
    R = RT(t); E = R.E; q = R.queue(); b = R.mem("buffer" if not image else "image", image); blk = R.var("blocking", 32); fl = R.var("map flags"); ev = R.events(); m = R.m
    ec = Region("error code"); en = z3.Bool("errcode_ret is null"); ec.base[("c", 0, 4)] = z3.BitVec("errcode before", 32)
    C = Region("core context"); G = Region("global memory"); R.ctx.base[("c", m.field("_cl_context", "context"), 8)] = Ptr(C); E.models["oclgrind::Context::getGlobalMemory"] = lambda E, st, a, I: (E.oblige(st, peq(a[0], Ptr(C)), "the object's context"), Ptr(G))[1]
    MP = Region("mapped memory", mode="byte"); mn = z3.Bool("mapping fails"); E.inputs["mapping fails"] = mn; f = R.get(b, "flags"); ad = R.get(b, "address")
    def mapb(E, st, a, I):
        E.used_contracts.add("oclgrind::Memory::mapBuffer"); st.log("mapped", tuple(bvv(x, 64) for x in a[1:])); return pite(mn, NULL, Ptr(MP))
    E.models["oclgrind::Memory::mapBuffer"] = mapb
    R.err(QUEUE, q.null); R.err(MEMOBJ, b.null)
    R.err(OPERATION, z3.Or(z3.And((fl & 2) != 0, (f & (HOST_NO | HOST_RO)) != 0), z3.And((fl & 1) != 0, (f & (HOST_NO | HOST_WO)) != 0)))
    if not image:
        off, n = R.var("offset"), R.var("size"); R.err(VALUE, z3.Or(mn, z3.Not(R.inrange(off, n, R.get(b, "size"))))); args = [q.arg, b.arg, blk, fl, off, n] + ev; fn = "clEnqueueMapBuffer"; ct = CT["MAP"]
    else:
        o, r = R.triple("origin"), R.triple("region"); ext, ps, rowp, slp = image_geometry(R, b); rpo, spo = R.data("row pitch out"), R.data("slice pitch out"); rpo.mode = spo.mode = "cells"
        R.err(VALUE, z3.Or(mn, rpo.null, o.null, r.null, *[x == 0 for x in r.v], *[z3.Not(R.inrange(o.v[i], r.v[i], ext[i])) for i in range(3)]))
        off = o.v[0] * ps + o.v[1] * rowp + o.v[2] * slp; n = r.v[0] * ps + (r.v[1] - 1) * rowp + (r.v[2] - 1) * slp
        args = [q.arg, b.arg, blk, fl, o.arg, r.arg, rpo.arg, spo.arg] + ev; fn = "clEnqueueMapImage"; ct = CT["MAP_IMAGE"]
    fin = z3.BitVec("finish result", 32)
    for oc in R.run(fn, args + [pite(en, NULL, Ptr(ec))]):
        E.oblige(oc.st, oc.kind == "ret", "no exception"); code = bvv(oc.st.load(E, Ptr(ec), 4), 32)
        for s, p in E.resolve(oc.st, oc.val):
            nq = len(s.ghost.get("enqueued", ()))
            if p.r is None:
                E.oblige(s, nq == 0, "nothing is enqueued by a failed request"); E.oblige(s, z3.Or(*[z3.And(b2z(c), z3.Or(en, code == k)) for k, c in R.errs]), "a request that is not carried out is invalid, and the error says why"); continue
            E.oblige(s, R.valid(), "only valid requests are enqueued"); E.oblige(s, peq(p, Ptr(MP)), "the mapped pointer is returned"); E.oblige(s, z3.Or(en, code == z3.If(blk != 0, fin, z3.BitVecVal(0, 32))), "success is reported")
            mp = s.ghost.get("mapped", ()); E.oblige(s, len(mp) == 1 and And(eq(mp[0][0], ad), eq(mp[0][1], off), eq(mp[0][2], n)), "the requested region is mapped")
            R.command(s, "MAP", "MapCommand", ct, [("address", 0, ad), ("offset", 0, off), ("size", 0, n), ("flags", 0, fl)], [b], blk)
            if image:
                E.oblige(s, eq(bvv(s.load(E, Ptr(rpo), 8), 64), rowp), "the row pitch is returned"); s1 = s.fork(); s1.assume(z3.Not(spo.null)); E.oblige(s1, eq(bvv(s1.load(E, Ptr(spo), 8), 64), slp), "the slice pitch is returned")
def t_unmap(t):
    R = RT(t); q = R.queue(); b = R.mem("object"); p = R.data("mapped pointer"); ev = R.events()
    R.err(QUEUE, q.null); R.err(MEMOBJ, b.null); R.err(VALUE, p.null)
    R.ret_api("clEnqueueUnmapMemObject", [q.arg, b.arg, p.arg] + ev, lambda s: R.command(s, "UNMAP", "UnmapCommand", CT["UNMAP"], [("address", 0, R.get(b, "address")), ("ptr", 0, Ptr(p))], [b], None))
# ---- images
I1D_ARRAY, I2D_ARRAY = 0x10F5, 0x10F3
PS = z3.Function("pixel size", B(32), B(32), B(64))
def image_geometry(R, b):
    """(extents, pixel size, row pitch, slice pitch) of an image; getPixelSize is a function of the format"""
    g = lambda f: R.get(b, "desc", f); ty = R.get(b, "desc", "image_type", w=32); E = R.E; m = R.m
    def psize(E, st, a, I):
        E.used_contracts.add("getPixelSize"); out = []
        for s, p in E.resolve(st, a[0]): out.append((s, PS(bvv(s.load(E, p, 4), 32), bvv(s.load(E, pgep(p, 4), 4), 32))))
        return out
    E.rmodels.insert(0, (re.compile(r"^\(anonymous namespace\)::getPixelSize\("), psize))
    ps = PS(R.get(b, "format", "image_channel_order", w=32), R.get(b, "format", "image_channel_data_type", w=32)); w, h, d, n = g("image_width"), g("image_height"), g("image_depth"), g("image_array_size")
    return [w, z3.If(ty == I1D_ARRAY, n, h), z3.If(ty == I2D_ARRAY, n, d)], ps, w * ps, h * w * ps
def region_contract(R):
    """contract of regionInImage (its own task): every coordinate range lies inside the image"""
    E = R.E; m = R.m
    def reg(E, st, a, I):
        E.used_contracts.add("regionInImage"); out = []
        for s, p in E.resolve(st, a[0]):
            for s1, o in E.resolve(s, a[1]):
                for s2, r in E.resolve(s1, a[2]):
                    if any(x.r is None for x in (p, o, r)): E.oblige(s2, False, "no null pointer is passed on"); continue
                    at = lambda f, n=8: bvv(s2.load(E, pgep(p, m.field("cl_image", "desc", f)), n), n * 8)
                    ty = at("image_type", 4); ext = [at("image_width"), z3.If(ty == I1D_ARRAY, at("image_array_size"), at("image_height")), z3.If(ty == I2D_ARRAY, at("image_array_size"), at("image_depth"))]
                    v = lambda x, i: bvv(s2.load(E, pgep(x, 8 * i), 8), 64)
                    out.append((s2, z3.And(*[R.inrange(v(o, i), v(r, i), ext[i]) for i in range(3)])))
        return out
    E.models["regionInImage"] = reg
def t_region(t):
    R = RT(t); R.E.loop_mode = "unroll"; R.queue(); b = R.mem("image", True); R.st.assume(z3.Not(b.null)); o, r = R.triple("origin", False), R.triple("region", False); ext = image_geometry(R, b)[0]
    for oc in t.reached(R.E.exec_fn(R.m.fn("regionInImage"), [Ptr(b), Ptr(o), Ptr(r)], R.st)):
        v = oc.val if isinstance(oc.val, bool) or z3.is_bool(oc.val) else bvv(oc.val, 8) != 0
        R.E.oblige(oc.st, b2z(v) == z3.And(*[R.inrange(o.v[i], r.v[i], ext[i]) for i in range(3)]), "accepts exactly the regions inside the image")
def nested(R, fn):
    """a rectangular transfer performed through another entry point: its contract is checked separately"""
    E = R.E; res = z3.BitVec("nested result", 32)
    def call(E, st, a, I): E.used_contracts.add(fn); st.log("nested", (a, st.fork())); st.log("enqueued", None); return res
    E.models[fn] = call; return res
def t_image(t, kind):
    R = RT(t); E = R.E; E.loop_mode = "unroll"; region_contract(R); q = R.queue(); m = R.m; isbuf = {"read": (0,), "write": (0,), "copy": (1, 1), "image to buffer": (1, 0), "buffer to image": (0, 1)}[kind]; X = lambda x: x
    r = R.triple("region")
    if kind in ("read", "write"):
        b = R.mem("image", True); blk = R.var("blocking", 32); o = R.triple("origin"); rp, sp = R.var("row pitch"), R.var("slice pitch"); p = R.data("host pointer"); ev = R.events(); ext, ps, rowp, slp = image_geometry(R, b)
        fn = "clEnqueue%sBufferRect" % kind.capitalize(); res = nested(R, fn); hp = pitches([r.v[0] * ps, r.v[1], r.v[2]], rp, sp)
        R.err(QUEUE, q.null); R.err(MEMOBJ, b.null); R.err(VALUE, z3.Or(o.null, r.null, *[z3.Not(R.inrange(o.v[i], r.v[i], ext[i])) for i in range(3)]))
        T = lambda v: [v[0] * ps, v[1], v[2]]; Z = [z3.BitVecVal(0, 64)] * 3
        want = [("queue", Ptr(q)), ("image", Ptr(b)), ("blocking", blk), ("image origin", T(o.v)), ("host origin", Z), ("region", T(r.v)), ("image row pitch", rowp), ("image slice pitch", slp), ("host row pitch", hp[0]), ("host slice pitch", hp[1]), ("host pointer", p.arg), ("events", R.nev), ("wait list", R.evl.arg), ("event", R.evo.arg)]
        args = [q.arg, b.arg, blk, o.arg, r.arg, rp, sp, p.arg] + ev; api = "clEnqueue%sImage" % kind.capitalize(); ct = 0x11F6 if kind == "read" else 0x11F7
    else:
        a = R.mem("source", bool(isbuf[0])); b = R.mem("destination", bool(isbuf[1])); fn = "clEnqueueCopyBufferRect"; res = nested(R, fn); A = image_geometry(R, a) if isbuf[0] else None; Bg = image_geometry(R, b) if isbuf[1] else None
        o = R.triple("source origin") if A else None; h = R.triple("destination origin") if Bg else None; off = R.var("buffer offset"); ev = R.events(); ps = (A or Bg)[1]; zero = z3.BitVecVal(0, 64)
        R.err(QUEUE, q.null); R.err(MEMOBJ, z3.Or(b2z(a.null), b2z(b.null)))
        bad = [r.null]
        for x, g in ((o, A), (h, Bg)):
            if g: bad += [x.null] + [z3.Not(R.inrange(x.v[i], r.v[i], g[0][i])) for i in range(3)]
        R.err(VALUE, z3.Or(*bad))
        if A and Bg: R.err(FORMAT, z3.Or(*[R.get(a, "format", f, w=32) != R.get(b, "format", f, w=32) for f in ("image_channel_order", "image_channel_data_type")]))
        so = [o.v[0] * ps, o.v[1], o.v[2]] if A else [off, zero, zero]; do = [h.v[0] * ps, h.v[1], h.v[2]] if Bg else [off, zero, zero]
        want = [("queue", Ptr(q)), ("source", Ptr(a)), ("destination", Ptr(b)), ("source origin", so), ("destination origin", do), ("region", [r.v[0] * ps, r.v[1], r.v[2]]), ("source row pitch", A[2] if A else zero), ("source slice pitch", A[3] if A else zero), ("destination row pitch", Bg[2] if Bg else zero), ("destination slice pitch", Bg[3] if Bg else zero), ("events", R.nev), ("wait list", R.evl.arg), ("event", R.evo.arg)]
        api = {"copy": "clEnqueueCopyImage", "image to buffer": "clEnqueueCopyImageToBuffer", "buffer to image": "clEnqueueCopyBufferToImage"}[kind]; ct = {"copy": 0x11F8, "image to buffer": 0x11F9, "buffer to image": 0x11FA}[kind]
        args = [q.arg, a.arg, b.arg] + ([o.arg] if o else [off]) + ([h.arg, r.arg] if h else [r.arg, off]) + ev
    EVT = Region("event object"); EVT.base[("c", m.field("_cl_event", "type"), 4)] = z3.BitVec("event type", 32); R.evo.mode = "cells"; R.evo.base[("c", 0, 8)] = Ptr(EVT)
    for oc in R.run(api, args):
        s = oc.st; E.oblige(s, oc.kind == "ret", "no exception"); v = bvv(oc.val, 32); nn = s.ghost.get("nested", ())
        if not nn: E.oblige(s, z3.Or(*[z3.And(b2z(c), v == k) for k, c in R.errs]), "a request that is not carried out is invalid, and the error says why"); continue
        E.oblige(s, R.valid(), "only requests inside the image are carried out"); E.oblige(s, len(nn) == 1, "one transfer"); E.oblige(s, v == res, "returns the result of the transfer")
        x, snap = nn[0]
        for (nm, w), y in zip(want, x):
            if isinstance(w, list):
                for i, u in enumerate(w): E.oblige(s, eq(bvv(snap.load(E, pgep(y, 8 * i), 8), 64), u), "transfer argument: " + nm)
            elif isinstance(w, (Ptr, PIte)): E.oblige(s, peq(y, w), "transfer argument: " + nm)
            else: E.oblige(s, eq(bvv(y, w.size()), w), "transfer argument: " + nm)
        s1 = s.fork(); s1.assume(z3.And(v == 0, z3.Not(R.evo.null))); E.oblige(s1, eq(bvv(s1.load(E, Ptr(EVT, m.field("_cl_event", "type")), 4), 32), ct), "the event has the right command type")
def t_fillimage(t):
    R = RT(t); E = R.E; q = R.queue(); b = R.mem("image", True); col = R.data("colour"); o, r = R.triple("origin"), R.triple("region"); ev = R.events(); ext, ps, rowp, slp = image_geometry(R, b); m = R.m
    CC = z3.BitVec("channels", 64); E.rmodels.insert(0, (re.compile(r"^\(anonymous namespace\)::getNumChannels\("), lambda E, st, a, I: z3.BitVecVal(0, 64)))     # the colour conversion is not specified here
    R.err(QUEUE, q.null); R.err(MEMOBJ, b.null); R.err(VALUE, z3.Or(col.null, o.null, r.null, *[x == 0 for x in r.v], *[z3.Not(R.inrange(o.v[i], r.v[i], ext[i])) for i in range(3)]))
    F = [("origin", i, o.v[i]) for i in range(3)] + [("region", i, r.v[i]) for i in range(3)] + [("base", 0, R.get(b, "address")), ("rowPitch", 0, rowp), ("slicePitch", 0, slp), ("pixelSize", 0, ps)]
    R.ret_api("clEnqueueFillImage", [q.arg, b.arg, col.arg, o.arg, r.arg] + ev, lambda s: R.command(s, "FILL_IMAGE", "FillImageCommand", CT["FILL_IMAGE"], F, [b], None))
def tasks_R01(mod):
    out = [Task(k + " buffer", "clEnqueue%sBuffer" % k.capitalize(), lambda t, k=k: t_linear(t, k)) for k in ("read", "write")]
    out += [Task("copy buffer" + s, "clEnqueueCopyBuffer", lambda t, x=x: t_copy(t, x)) for s, x in ((" (different objects)", False), (" (same object)", True))]
    out += [Task("fill buffer", "clEnqueueFillBuffer", t_fill)]
    out += [Task(k + " rectangle", "clEnqueue%sBufferRect" % k.capitalize(), lambda t, k=k: t_rect(t, k)) for k in ("read", "write")] + [Task("copy rectangle", "clEnqueueCopyBufferRect", t_copyrect)]
    out += [Task("sub-buffer", "clCreateSubBuffer", t_sub), Task("map buffer", "clEnqueueMapBuffer", lambda t: t_map(t, False)), Task("map image", "clEnqueueMapImage", lambda t: t_map(t, True)), Task("unmap", "clEnqueueUnmapMemObject", t_unmap), Task("fill image", "clEnqueueFillImage", t_fillimage)]
    out += [Task(k + (" image" if k in ("read", "write", "copy") else ""), "clEnqueue...Image", lambda t, k=k: t_image(t, k)) for k in ("read", "write", "copy", "image to buffer", "buffer to image")]
    out += [Task("event wait list" + s, "checkEventWaitList", lambda t, x=x: t_eventlist(t, x)) for s, x in ((" (valid)", True), ("", False))]
    have = {f.dem.split("(")[0] for f in mod.fns.values() if not f.decl}
    if "rectInBuffer" in have: out.append(Task("rectangle bounds", "rectInBuffer", t_rectin))
    if "regionInImage" in have: out.append(Task("image region", "regionInImage", t_region))
    if "advance" in have: out.append(Task("advancing within a limit", "advance", t_advance))
    return out
