"""Contracts on oclgrind::Memory and the obligations checking its real code against them."""
import z3
from engine import *
from world import *
from run import Task

ATOMIC_T = [("unsigned long", 8, False), ("long", 8, True), ("unsigned int", 4, False), ("int", 4, True)]
OPS = ["AtomicAdd", "AtomicAnd", "AtomicDec", "AtomicInc", "AtomicMax", "AtomicMin", "AtomicOr", "AtomicSub", "AtomicXchg", "AtomicXor"]

def setup(t, **kw):
    E = t.engine(); st = State(); w = MemWorld(E, st, **kw)
    E.notes = []
    def mk(nm):
        def h(E, st, a, I): st.log("notify", (nm,) + tuple(a[1:])); return 0
        return h
    for k in ("notifyMemoryLoad", "notifyMemoryStore", "notifyMemoryAtomicLoad", "notifyMemoryAtomicStore", "notifyMemoryAllocated", "notifyMemoryDeallocated"):
        E.models["oclgrind::Context::" + k] = mk(k)
    return E, st, w
def ghost(E):
    gi = z3.BitVec("ghost.slot", 64); go = z3.BitVec("ghost.offset", 64)
    E.inputs["ghost.slot"] = gi; E.inputs["ghost.offset"] = go
    return gi, go
def unchanged(E, w, st, what, gi, go):
    """no byte of any allocation, no table entry and no buffer record changed"""
    if st.mem.get(w.data) is not None:
        E.oblige(st, eq(bvv(st.byte(E, w.data, gi, go), 8), w.data.byte0(gi, go)), "%s: every byte of every allocation unchanged" % what)
    else: E.oblige(st, True, "%s: every byte of every allocation unchanged" % what)
    frame(E, w, st, what)
def frame(E, w, st, what, allow=()):
    for r in (w.tbl, w.buf, w.obj):
        if r in allow: continue
        E.oblige(st, True if (r not in st.mem or st.mem[r] is None) else same_obj(E, w, st, r), "%s: %s unchanged (frame)" % (what, r.name))
def same_obj(E, w, st, r):
    # compare every word written
    g = True; nd = st.mem.get(r)
    base = State()
    while nd is not None:
        if nd.k != "St" : return False
        ty = "ptr" if isinstance(nd.v, (Ptr, PIte)) else None
        a = st.load(E, Ptr(r, nd.off, nd.inst), nd.n, ty); b = base.load(E, Ptr(r, nd.off, nd.inst), nd.n, ty)
        g = And(g, peq(a, b) if ty else eq(a, b)); nd = nd.prev
    return g
def ret_bool(v): return v if isinstance(v, bool) else v

# ---------------------------------------------------------------- M01
def t_valid(t):
    E, st, w = setup(t)
    a = w.addr(E, "address"); n = z3.BitVec("n", 64); E.inputs["n"] = n
    s, o = w.split(a); st.assume(w.inv_at(s)); st.assume(n != 0)
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::isAddressValid").name, st, [w.this, a, n])):
        if oc.kind != "ret": E.oblige(oc.st, False, "returns"); continue
        E.oblige(oc.st, eqb(oc.val, w.accept(a, n)), "accepted iff inside one live allocation")
def eqb(a, b): return And(Implies(a, b), Implies(b, a))

def inst_notify(st): return [x for x in st.ghost.get("notify", ())]

def access(kind):
    """load / store"""
    def f(t, which):
        E, st, w = setup(t)
        a = w.addr(E, "address"); n = z3.BitVec("n", 64); E.inputs["n"] = n
        s, o = w.split(a); st.assume(w.inv_at(s))
        if which == "M01": st.assume(n != 0)
        host = Region("host", mode="byte"); ho = z3.BitVec("host.off", 64)
        host.size = ho + n; st.assume(z3.ULE(ho, 0x7fffffffffffffff))
        st.assume(z3.ULE(n, 0x7fffffffffffffff)) if False else None
        host.size = None
        hp = Ptr(host, 0)
        gi, go = ghost(E); gh = z3.BitVec("ghost.host", 64)
        ok = w.accept(a, n)
        rel = go - o
        for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::" + kind).name, st, [w.this, hp, a, n])):
            if oc.kind != "ret": E.oblige(oc.st, False, kind + " returns normally"); continue
            if which == "P01":
                ns = inst_notify(oc.st)
                nm = "notifyMemoryLoad" if kind == "load" else "notifyMemoryStore"
                good = len(ns) == 1 and ns[0][0] == nm
                E.oblige(oc.st, And(peq(ns[0][1], w.this), eq(ns[0][2], a), eq(ns[0][3], n), True if kind == "load" else peq(ns[0][4], hp)) if good else False, "every %s is reported to the plugins once with its exact address and size" % kind)
                continue
            if which == "M01":
                E.oblige(oc.st, eqb(oc.val, ok), kind + ": accepted iff inside one live allocation")
                rej = oc.st.fork(); rej.assume(z3.Not(ok))
                if E.sat(rej.pc): unchanged(E, w, rej, "rejected " + kind, gi, go)
                continue
            acc = oc.st.fork(); acc.assume(ok); acc.assume(n != 0)
            if not E.sat(acc.pc): continue
            fin = bvv(acc.byte(E, w.data, gi, go), 8); ini = w.data.byte0(gi, go)
            if kind == "load":
                E.oblige(acc, eq(fin, ini), "load changes no device byte")
                hb = bvv(acc.byte(E, host, 0, gh), 8)
                E.oblige(acc, eq(hb, ite(ult(gh, n, 64), w.data.byte0(s, o + gh), host.byte0(0, gh), 8)), "load returns exactly the addressed bytes and writes nothing beyond them")
            else:
                inr = And(eq(gi, s), ule(o, go, 64), ult(rel, n, 64))
                E.oblige(acc, eq(fin, ite(inr, host.byte0(0, rel), ini, 8)), "store writes exactly the addressed bytes")
                E.oblige(acc, eq(bvv(acc.byte(E, host, 0, gh), 8), host.byte0(0, gh)), "store does not change its source")
            frame(E, w, acc, kind)
    return f

def t_copy(t, which):
    E, st, w = setup(t)
    d = w.addr(E, "dst"); a = w.addr(E, "src"); n = z3.BitVec("n", 64); E.inputs["n"] = n
    s, o = w.split(a); ds, do = w.split(d); st.assume(w.inv_at(s)); st.assume(w.inv_at(ds))
    if which == "M01": st.assume(n != 0)
    ok = And(w.accept(a, n), w.accept(d, n))
    gi, go = ghost(E)
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::copy").name, st, [w.this, d, a, n])):
        if oc.kind != "ret": E.oblige(oc.st, False, "copy returns normally"); continue
        if which == "P01":
            ns = inst_notify(oc.st)
            E.oblige(oc.st, len(ns) >= 1 and And(ns[0][0] == "notifyMemoryLoad", eq(ns[0][2], a), eq(ns[0][3], n)), "copy reports its load")
            acc = oc.st.fork(); acc.assume(w.accept(a, n)); acc.assume(n != 0)
            if E.sat(acc.pc):
                E.oblige(acc, len(ns) == 2 and And(ns[1][0] == "notifyMemoryStore", eq(ns[1][2], d), eq(ns[1][3], n)), "copy reports its store")
            continue
        if which == "M01":
            E.oblige(oc.st, eqb(oc.val, ok), "copy: accepted iff both ranges inside live allocations")
            rej = oc.st.fork(); rej.assume(z3.Not(ok))
            if E.sat(rej.pc): unchanged(E, w, rej, "rejected copy", gi, go)
            continue
        acc = oc.st.fork(); acc.assume(ok); acc.assume(n != 0)
        # overlapping copies are excluded by the OpenCL specification
        acc.assume(z3.Or(s != ds, z3.UGE(o, do + n), z3.UGE(do, o + n)))
        if not E.sat(acc.pc): continue
        fin = bvv(acc.byte(E, w.data, gi, go), 8); rel = go - do
        inr = And(eq(gi, ds), ule(do, go, 64), ult(rel, n, 64))
        E.oblige(acc, eq(fin, ite(inr, w.data.byte0(s, o + rel), w.data.byte0(gi, go), 8)), "copy makes exactly the destination bytes equal to the source bytes")
        frame(E, w, acc, "copy")

def t_pointer(t, which, fname):
    E, st, w = setup(t)
    a = w.addr(E, "address"); s, o = w.split(a)
    args = [w.this, a]
    if fname == "mapBuffer":
        d = z3.BitVec("offset", 64); n = z3.BitVec("n", 64); E.inputs["offset"] = d; E.inputs["n"] = n
        st.assume(n != 0)
        tgt = a + d; E.inputs["target.slot"] = w.split(tgt)[0]; E.inputs["target.offset"] = w.split(tgt)[1]
        args += [d, n]
    else: tgt = a; n = z3.BitVecVal(1, 64)
    ts, to = w.split(tgt); st.assume(w.inv_at(ts)); st.assume(w.inv_at(s))
    gi, go = ghost(E); ok = w.accept(tgt, n)
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::" + fname).name, st, args)):
        if oc.kind != "ret": E.oblige(oc.st, False, fname + " returns normally"); continue
        v = oc.val
        isnull = peq(v, NULL)
        if which == "M01":
            E.oblige(oc.st, eqb(Not(isnull), ok), fname + ": non-null iff all requested bytes are inside one live allocation")
            unchanged(E, w, oc.st, fname, gi, go)
        else:
            acc = oc.st.fork(); acc.assume(ok)
            if E.sat(acc.pc):
                acc.assume(Not(isnull))
                E.oblige(acc, peq(v, Ptr(w.data, to, ts)), fname + ": designates exactly the addressed byte")
            unchanged(E, w, oc.st, fname, gi, go)

def t_getbuffer(t, which):
    E, st, w = setup(t)
    a = w.addr(E, "address"); s, o = w.split(a); st.assume(w.inv_at(s))
    gi, go = ghost(E)
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::getBuffer").name, st, [w.this, a])):
        if oc.kind != "ret": E.oblige(oc.st, False, "getBuffer returns"); continue
        E.oblige(oc.st, eqb(Not(peq(oc.val, NULL)), w.islive(s)), "getBuffer: non-null iff the address belongs to a live allocation")
        acc = oc.st.fork(); acc.assume(w.islive(s))
        if E.sat(acc.pc): E.oblige(acc, peq(oc.val, Ptr(w.buf, 0, s)), "getBuffer: the allocation of that address")
        unchanged(E, w, oc.st, "getBuffer", gi, go)

def atomic_spec(op, old, v, w, signed):
    lt = slt if signed else ult
    return {"AtomicAdd": add(old, v, w), "AtomicAnd": old & v, "AtomicDec": sub(old, 1, w), "AtomicInc": add(old, 1, w),
            "AtomicMax": ite(lt(v, old, w), old, v, w), "AtomicMin": ite(lt(old, v, w), old, v, w), "AtomicOr": old | v,
            "AtomicSub": sub(old, v, w), "AtomicXchg": v, "AtomicXor": old ^ v}[op]

def t_atomic(t, which, ty, nb, signed, op):
    w8 = 8 * nb
    E, st, w = setup(t)
    a = w.addr(E, "address"); s, o = w.split(a); st.assume(w.inv_at(s))
    v = z3.BitVec("value", w8); E.inputs["value"] = v
    c = z3.BitVec("cmp", w8); E.inputs["cmp"] = c
    gi, go = ghost(E); ok = w.accept(a, nb)
    if op == "CmpXchg":
        fn = t.mod.fn("%s oclgrind::Memory::atomicCmpxchg<%s>(unsigned long, %s, %s)" % (ty, ty, ty, ty)); args = [w.this, a, c, v]; opv = t.mod.enum("AtomicOp", "AtomicCmpXchg")
    else:
        fn = t.mod.fn("%s oclgrind::Memory::atomic<%s>(oclgrind::AtomicOp, unsigned long, %s)" % (ty, ty, ty)); opv = t.mod.enum("AtomicOp", op); args = [w.this, opv, a, v]
    isglobal = eq(w.aspace, t.mod.enum("AddrSpace", "AddrSpaceGlobal") if "oclgrind::AddrSpace" in t.mod.enums else 1)
    # watch the lock discipline
    held = {"acc": []}
    def watch(st, kind, p, n):
        if p.r is w.data: st.log("lockacc", (kind, st.ghost.get("held", ()), p.off))
    E.watch = watch
    def mlock(E, st, a, I): st.ghost["held"] = st.ghost.get("held", ()) + ((a[0]),); return 0
    def munlock(E, st, a, I):
        h = list(st.ghost.get("held", ()))
        st.ghost["held"] = tuple(h[:-1]) if h else ("bad",)
        st.log("unlocked", (h[-1] if h else None, a[0])); return 0
    E.models["std::mutex::lock()"] = mlock; E.models["std::mutex::unlock()"] = munlock
    E.models["std::mutex::try_lock"] = lambda E, st, a, I: freshb("trylock")
    for oc in t.reached(E.call(fn.name, st, args)):
        if oc.kind != "ret": E.oblige(oc.st, False, "atomic returns normally"); continue
        if which == "P01":
            ns = inst_notify(oc.st)
            E.oblige(oc.st, len(ns) >= 1 and And(ns[0][0] == "notifyMemoryAtomicLoad", eq(ns[0][2], opv), eq(ns[0][3], a), eq(ns[0][4], nb)), "atomic reports its load")
            if op != "CmpXchg":
                E.oblige(oc.st, len(ns) == 2 and And(ns[1][0] == "notifyMemoryAtomicStore", eq(ns[1][2], opv), eq(ns[1][3], a), eq(ns[1][4], nb)), "atomic reports its store")
            else:
                acc = oc.st.fork(); acc.assume(ok)
                if E.sat(acc.pc):
                    hit = eq(State().load(E, Ptr(w.data, o, s), nb), c)
                    E.oblige(acc, eqb(hit, len(ns) == 2) if len(ns) < 2 else And(hit, ns[1][0] == "notifyMemoryAtomicStore", eq(ns[1][3], a), eq(ns[1][4], nb)), "cmpxchg reports a store iff it stores")
            continue
        if which == "M01":
            rej = oc.st.fork(); rej.assume(z3.Not(ok))
            if E.sat(rej.pc): unchanged(E, w, rej, "rejected atomic", gi, go)
            else: E.oblige(oc.st, True, "rejected atomic: not on this path")
            continue
        acc = oc.st.fork(); acc.assume(ok)
        if not E.sat(acc.pc): continue
        old = State().load(E, Ptr(w.data, o, s), nb)
        new = ite(eq(old, c), v, old, w8) if op == "CmpXchg" else atomic_spec(op, old, v, w8, signed)
        E.oblige(acc, eq(oc.val, old), "%s returns the old value" % op)
        fin = bvv(acc.byte(E, w.data, gi, go), 8); exp = w.data.byte0(gi, go)
        for i in range(nb): exp = ite(And(eq(gi, s), eq(go, add(o, i, 64))), extract(8 * i + 7, 8 * i, new, w8), exp, 8)
        E.oblige(acc, eq(fin, exp), "%s writes exactly the specified new value" % op)
        frame(E, w, acc, "atomic")
        # lock discipline on global memory
        g = acc.fork(); g.assume(isglobal)
        if E.sat(g.pc):
            accs = g.ghost.get("lockacc", ())
            good = len(accs) >= 1 and all(len(h) == 1 for _, h, _ in accs)
            E.oblige(g, good, "global atomic holds exactly one lock across its read and write")
            if good:
                lk = accs[0][1][0]
                same = True
                for _, h, _ in accs: same = And(same, peq(h[0], lk))
                E.oblige(g, same, "global atomic holds the same lock across its read and write")
                # one lock per location: the same lock an exchange of a 32-bit word at this address takes
                E.oblige(g, lk_of_location(t, E, g, w, lk, a), "the lock is determined by the location")
            E.oblige(g, len(g.ghost.get("held", ())) == 0, "global atomic releases its lock")
            un = g.ghost.get("unlocked", ())
            E.oblige(g, len(un) == 1 and un[0][0] is not None and peq(un[0][0], un[0][1]), "global atomic releases the lock it took")
def lk_of_location(t, E, g, w, lk, a):
    """the lock is a function of the address only: whatever the operation and width, it is the lock that a
    32-bit exchange at the same address takes"""
    ref = []
    ro = t.mod.enum("AtomicOp", "AtomicXchg"); rv = z3.BitVec("refvalue", 32)
    fn = t.mod.fn("unsigned int oclgrind::Memory::atomic<unsigned int>(oclgrind::AtomicOp, unsigned long, unsigned int)")
    st = g.fork(); st.mem = {}; st.ghost = {}
    st.assume(w.accept(a, 4))
    if not E.sat(st.pc): return True
    E.suppress += 1
    try: outs = E.call(fn.name, st, [w.this, ro, a, rv])
    finally: E.suppress -= 1
    ok = True
    for oc in outs:
        if oc.kind != "ret": continue
        accs = oc.st.ghost.get("lockacc", ())
        if not accs or len(accs[0][1]) != 1: return False
        ok = And(ok, Implies(And(*[c for c in oc.st.pc]), peq(lk, accs[0][1][0])))
    return ok

def tasks_M(which):
    out = []
    if which == "M01": out.append(Task("isAddressValid", "Memory::isAddressValid", t_valid))
    for k in ("load", "store"): out.append(Task(k, "Memory::" + k, lambda t, k=k: access(k)(t, which)))
    out.append(Task("copy", "Memory::copy", lambda t: t_copy(t, which)))
    if which in ("M01", "M02"):
        for k in ("getPointer", "mapBuffer"): out.append(Task(k, "Memory::" + k, lambda t, k=k: t_pointer(t, which, k)))
        out.append(Task("getBuffer", "Memory::getBuffer", lambda t: t_getbuffer(t, which)))
    if which in ("M01", "M04", "P01"):
        for ty, nb, sg in ATOMIC_T:
            for op in OPS:
                out.append(Task("atomic<%s> %s" % (ty, op), "Memory::atomic<%s>" % ty, lambda t, ty=ty, nb=nb, sg=sg, op=op: t_atomic(t, which, ty, nb, sg, op)))
        for ty, nb, sg in ATOMIC_T:
            if sg: continue
            out.append(Task("atomicCmpxchg<%s>" % ty, "Memory::atomicCmpxchg<%s>" % ty, lambda t, ty=ty, nb=nb, sg=sg: t_atomic(t, which, ty, nb, sg, "CmpXchg")))
    return out

# ---------------------------------------------------------------- M03
class QWorld:
    """abstract free-slot queue: head, tail, elements; invariant: entries are distinct dead slots in 1..N-1"""
    def __init__(self, E, st, w):
        self.head = z3.BitVec("free.head", 64); self.tail = z3.BitVec("free.tail", 64)
        w.obj.base[("c", w.off["m_freeBuffers"], 8)] = self.head; w.obj.base[("c", w.off["m_freeBuffers"] + 8, 8)] = self.tail
        st.assume(z3.And(z3.ULE(self.head, self.tail), z3.ULT(self.tail, 1 << 40)))
        self.p = Ptr(w.obj, w.off["m_freeBuffers"])
        self.r = models_seq(E, st, self.p)
        self.el = z3.Function("free_elem", z3.BitVecSort(64), z3.BitVecSort(32))
        self.r.schemafn = lambda off: (lambda E, i, o, t: self.el(unscale(o, 2)))
        self.w = w
    def entry_inv(self, i):
        q = z3.ZeroExt(32, self.el(i))
        return z3.Implies(z3.And(z3.ULE(self.head, i), z3.ULT(i, self.tail)), z3.And(q != 0, z3.ULT(q, self.w.N), z3.Not(self.w.live(q)), self.el(i) != 0))
    def distinct(self, i, j):
        return z3.Implies(z3.And(z3.ULE(self.head, i), z3.ULT(i, self.tail), z3.ULE(self.head, j), z3.ULT(j, self.tail), i != j), self.el(i) != self.el(j))
def unscale(off, k):
    if isc(off): return z3.BitVecVal(off >> k, 64)
    d = off.decl().kind()
    if d == z3.Z3_OP_BSHL and z3.is_bv_value(off.arg(1)) and off.arg(1).as_long() == k: return off.arg(0)
    return z3.LShR(off, k)
def models_seq(E, st, p):
    import models
    return models.seq_region(E, st, p)

def heap_models(E, w, t):
    def del_arr(E, st, a, I):
        out = []
        for s, p in E.resolve(st, a[0]):
            if p.r is w.data:
                E.oblige(s, eq(p.off, 0), "frees whole contents blocks only")
                E.oblige(s, eq(w.flagsf(bvv(p.inst, 64)) & 8, 0), "never frees memory owned by the host")
            s.log("freed", ("data", p.inst) if p.r is w.data else ("other", p.r)); out.append((s, None))
        return out
    def dele(E, st, a, I):
        out = []
        for s, p in E.resolve(st, a[0]):
            s.log("freed", ("buf", p.inst) if p.r is w.buf else ("other", p.r)); out.append((s, None))
        return out
    for n in ("operator delete[](void*)", "operator delete[](void*, unsigned long)"): E.models[n] = del_arr
    for n in ("operator delete(void*)", "operator delete(void*, unsigned long)"): E.models[n] = dele

def table_entry(E, st, w, g):
    """(live, buffer pointer) of slot g in state st"""
    b = st.load(E, Ptr(w.obj, w.off["m_memory"]), 8, "ptr")
    return st.load(E, Ptr(b.r, add(b.off, mul(g, 8, 64), 64)), 8, "ptr")
def slots(E, st, w):
    b = st.load(E, Ptr(w.obj, w.off["m_memory"]), 8, "ptr"); e = st.load(E, Ptr(w.obj, w.off["m_memory"] + 8), 8, "ptr")
    return b, e
def nslots(E, st, w):
    b, e = slots(E, st, w); return z3.LShR(bvv(E.pdiff(e, b), 64), 3)
def total(E, st, w): return st.load(E, Ptr(w.obj, w.off["m_totalAllocated"]), 8)
def same_record(E, st, w, g):
    """buffer record of slot g unchanged"""
    c = True; s0 = State()
    for k in ("size", "flags"): c = And(c, eq(st.load(E, Ptr(w.buf, w.bo[k], g), 8), s0.load(E, Ptr(w.buf, w.bo[k], g), 8)))
    return And(c, peq(st.load(E, Ptr(w.buf, w.bo["data"], g), 8, "ptr"), Ptr(w.data, 0, g)))
def qinv_post(E, st, w, q, gq, gr):
    """the free-slot invariant in the post-state at arbitrary positions gq, gr"""
    h = st.load(E, q.p, 8); tl = st.load(E, pgep(q.p, 8), 8)
    def el(i): return st.load(E, Ptr(q.r, i << 2), 4)
    inq = lambda i: And(ule(h, i, 64), ult(i, tl, 64))
    e = zext(bvv(el(gq), 32), 32, 64); N = nslots(E, st, w)
    ent = table_entry(E, st, w, e)
    E.oblige(st, Implies(inq(gq), And(Not(eq(e, 0)), ult(e, N, 64), peq(ent, NULL))), "invariant: every recyclable slot is a dead slot of the table")
    E.oblige(st, Implies(And(inq(gq), inq(gr), Not(eq(gq, gr))), Not(eq(bvv(el(gq), 32), bvv(el(gr), 32)))), "invariant: no slot is recyclable twice")
    E.oblige(st, And(ule(1, N, 64), ule(N, w.maxnum, 64), peq(table_entry(E, st, w, 0), NULL)), "invariant: slot 0 stays null and the table stays within the address space")

def t_alloc(t, fname):
    E, st, w = setup(t); q = QWorld(E, st, w); heap_models(E, w, t)
    size = z3.BitVec("size", 64); flags = z3.BitVec("flags", 64); E.inputs["size"] = size; E.inputs["flags"] = flags
    hostmem = Region("hostmem", mode="byte"); hasinit = z3.Bool("has_init"); E.inputs["has_init"] = hasinit
    gq = z3.BitVec("ghost.q", 64); gr = z3.BitVec("ghost.r", 64)
    for i in (q.head, gq, gr): st.assume(q.entry_inv(i)); st.assume(q.distinct(q.head, i)); st.assume(q.distinct(gq, i))
    gi, go = ghost(E)
    if fname == "allocateBuffer": args = [w.this, size, flags, pite(hasinit, Ptr(hostmem), NULL)]
    else: args = [w.this, size, Ptr(hostmem), flags]
    E.models["operator new[](unsigned long)"] = lambda E, st, a, I: newarr(E, st, a)
    def newarr(E, st, a):
        r = Region("newdata", mode="byte", local=True, uninit=True); r.size = a[0]; return Ptr(r)
    isempty = eq(q.head, q.tail)
    first = z3.ZeroExt(32, q.el(q.head))
    slot = ite(isempty, w.N, first)
    fits = And(z3.ULE(size, w.maxsize), z3.ULT(slot, w.maxnum))
    nba64 = zext(w.nba, 32, 64)
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::" + fname).name, st, args)):
        if oc.kind != "ret": E.oblige(oc.st, False, fname + " returns normally"); continue
        s = oc.st
        bad = s.fork(); bad.assume(z3.Not(fits))
        if E.sat(bad.pc):
            E.oblige(bad, eq(bvv(oc.val, 64), 0), fname + ": a request beyond the limits fails")
            # a failing request changes nothing but may not lose a recyclable slot either
            E.oblige(bad, And(peq(table_entry(E, bad, w, gi), table_entry(E, State0(st), w, gi)), eq(nslots(E, bad, w), w.N), eq(total(E, bad, w), w.total)), fname + ": a failed request changes nothing")
            E.oblige(bad, eq(bvv(bad.byte(E, w.data, gi, go), 8), w.data.byte0(gi, go)), fname + ": a failed request changes no byte")
        acc = s.fork(); acc.assume(fits)
        if not E.sat(acc.pc): continue
        E.oblige(acc, eq(bvv(oc.val, 64), slot << nba64), fname + ": the address is the slot's base address")
        E.oblige(acc, Not(eq(bvv(oc.val, 64), 0)), fname + ": a successful allocation is non-null")
        E.oblige(acc, Not(w.islive(slot)), fname + ": the slot used was not live")
        ent = table_entry(E, acc, w, slot)
        for s2, p in E.resolve(acc, ent):
            if p.r is None or p.r is w.buf: E.oblige(s2, False, fname + ": the slot holds the new allocation"); continue
            E.oblige(s2, eq(s2.load(E, Ptr(p.r, w.bo["size"]), 8), size), fname + ": recorded size")
            E.oblige(s2, eq(s2.load(E, Ptr(p.r, w.bo["flags"]), 8), flags), fname + ": recorded flags")
            d = s2.load(E, Ptr(p.r, w.bo["data"]), 8, "ptr")
            if fname == "createHostBuffer":
                E.oblige(s2, peq(d, Ptr(hostmem)), fname + ": uses the host memory itself")
                E.oblige(s2, eq(bvv(s2.byte(E, hostmem, 0, go), 8), hostmem.byte0(0, go)), fname + ": host memory unchanged")
            else:
                for s3, dp in E.resolve(s2, d):
                    fresh_ok = isinstance(dp, Ptr) and dp.r is not None and dp.r not in (w.data, hostmem) and isc(dp.off) and dp.off == 0
                    E.oblige(s3, fresh_ok, fname + ": contents are a fresh block")
                    if not fresh_ok: continue
                    E.oblige(s3, eq(dp.r.size, size), fname + ": block of exactly the requested size")
                    E.oblige(s3, Implies(z3.ULT(go, size), eq(bvv(s3.byte(E, dp.r, 0, go), 8), ite(hasinit, hostmem.byte0(0, go), 0, 8))), fname + ": contents equal the initial data or zero")
        N2 = ite(isempty, w.N + 1, w.N)
        E.oblige(acc, eq(nslots(E, acc, w), N2), fname + ": table grows by exactly the new slot")
        oth = acc.fork(); oth.assume(z3.And(gi != slot, z3.ULT(gi, N2)))
        E.oblige(oth, peq(table_entry(E, oth, w, gi), table_entry(E, State0(st), w, gi)), fname + ": every other slot keeps its allocation")
        E.oblige(oth, same_record(E, oth, w, gi), fname + ": every other allocation keeps its record")
        E.oblige(acc, eq(bvv(acc.byte(E, w.data, gi, go), 8), w.data.byte0(gi, go)), fname + ": every other allocation keeps its bytes")
        E.oblige(acc, eq(total(E, acc, w), w.total + size), fname + ": total grows by the size")
        qinv_post(E, acc, w, q, gq, gr)
        ns = inst_notify(acc)
        E.oblige(acc, len(ns) == 1 and ns[0][0] == "notifyMemoryAllocated" and And(eq(ns[0][2], slot << nba64), eq(ns[0][3], size), eq(ns[0][4], flags)), fname + ": the allocation is reported to the plugins with its address and size")
        E.oblige(acc, not [x for x in acc.ghost.get("freed", ())], fname + ": frees nothing")
def State0(st):
    s = State(); return s

def t_dealloc(t):
    E, st, w = setup(t); q = QWorld(E, st, w); heap_models(E, w, t)
    a = w.addr(E, "address"); slot, o = w.split(a)
    st.assume(w.islive(slot)); st.assume(slot == zext(trunc(slot, 64, 32), 32, 64))
    gq = z3.BitVec("ghost.q", 64); gr = z3.BitVec("ghost.r", 64); gi, go = ghost(E)
    for i in (gq, gr): st.assume(q.entry_inv(i)); st.assume(q.distinct(gq, i))
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::deallocateBuffer").name, st, [w.this, a])):
        if oc.kind != "ret": E.oblige(oc.st, False, "deallocateBuffer returns normally"); continue
        s = oc.st
        E.oblige(s, peq(table_entry(E, s, w, slot), NULL), "deallocate: the allocation becomes inaccessible")
        oth = s.fork(); oth.assume(gi != slot); oth.assume(z3.ULT(gi, w.N))
        E.oblige(oth, And(peq(table_entry(E, oth, w, gi), table_entry(E, State(), w, gi)), same_record(E, oth, w, gi)), "deallocate: every other allocation is kept")
        E.oblige(oth, eq(bvv(oth.byte(E, w.data, gi, go), 8), w.data.byte0(gi, go)), "deallocate: every other allocation keeps its bytes")
        E.oblige(s, eq(total(E, s, w), w.total - w.sizef(slot)), "deallocate: total shrinks by the size")
        E.oblige(s, eq(nslots(E, s, w), w.N), "deallocate: table size unchanged")
        fr = s.ghost.get("freed", ())
        g = True
        for kind, x in fr: g = And(g, eq(x, slot) if kind in ("data", "buf") else False)
        E.oblige(s, g, "deallocate: frees only this allocation")
        hostowned = Not(eq(w.flagsf(slot) & 8, 0))
        E.oblige(s, eqb(Not(hostowned), any(k == "data" for k, _ in fr)), "deallocate: contents are released iff owned by the simulator")
        qinv_post(E, s, w, q, gq, gr)
        ns = inst_notify(s)
        E.oblige(s, len(ns) == 1 and ns[0][0] == "notifyMemoryDeallocated" and eq(ns[0][2], a), "deallocate: reported to the plugins")

def t_clear(t):
  for n in t.params or [None]:
    E, st, w = setup(t); q = QWorld(E, st, w); heap_models(E, w, t)
    if n: st.assume(w.N == n)
    gi, go = ghost(E)
    for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::clear").name, st, [w.this])):
        if oc.kind != "ret": E.oblige(oc.st, False, "clear returns normally"); continue
        cleared(E, oc.st, w, q, "clear")
def cleared(E, s, w, q, nm):
    E.oblige(s, eq(nslots(E, s, w), 1), nm + ": no slot but the null slot remains")
    E.oblige(s, peq(table_entry(E, s, w, 0), NULL), nm + ": slot 0 is null")
    E.oblige(s, eq(s.load(E, q.p, 8), s.load(E, pgep(q.p, 8), 8)), nm + ": no recyclable slot remains")
    E.oblige(s, eq(total(E, s, w), 0), nm + ": total is zero")

def t_ctor(t):
    E = t.engine(); st = State()
    w = MemWorld(E, st)
    bits = w.bits; asp = z3.BitVec("as", 32)
    # the object is uninitialised memory before the constructor
    w.obj.base = {}; w.obj.uninit = True
    q = QWorld(E, State(), w); heap_models(E, w, t)
    w.obj.base = {}
    ctx = Ptr(w.ctx)
    fns = [f for f in t.mod.fns.values() if not f.decl and f.dem.startswith("oclgrind::Memory::Memory(")]
    if not fns: raise Unsupported("constructor not found")
    for fn in fns[:1]:
        for oc in t.reached(E.call(fn.name, st, [w.this, asp, bits, ctx])):
            if oc.kind != "ret": E.oblige(oc.st, False, "constructor returns normally"); continue
            s = oc.st
            cleared(E, s, w, q, "constructor")
            L = lambda k, n: s.load(E, Ptr(w.obj, w.off[k]), n)
            E.oblige(s, eq(L("m_numBitsBuffer", 4), bits), "constructor: slot bits")
            E.oblige(s, eq(L("m_numBitsAddress", 4), 64 - bits), "constructor: offset bits are the remaining bits")
            E.oblige(s, eq(L("m_maxNumBuffers", 8), w.maxnum), "constructor: slot limit")
            E.oblige(s, eq(L("m_maxBufferSize", 8), w.maxsize), "constructor: size limit")
            E.oblige(s, eq(L("m_addressSpace", 4), asp), "constructor: address space")

def t_getter(t):
    E, st, w = setup(t)
    for nm, k, n in (("getTotalAllocated", "m_totalAllocated", 8), ("getAddressSpace", "m_addressSpace", 4), ("getMaxAllocSize", "m_maxBufferSize", 8)):
        for oc in t.reached(E.call(t.mod.fn("oclgrind::Memory::" + nm).name, st.fork(), [w.this])):
            E.oblige(oc.st, oc.kind == "ret" and eq(oc.val, State().load(E, Ptr(w.obj, w.off[k]), n)), nm + " reports the recorded value")

def tasks_M03():
    return [Task("allocateBuffer", "Memory::allocateBuffer", lambda t: t_alloc(t, "allocateBuffer")),
            Task("createHostBuffer", "Memory::createHostBuffer", lambda t: t_alloc(t, "createHostBuffer")),
            Task("deallocateBuffer", "Memory::deallocateBuffer", t_dealloc), Task("clear", "Memory::clear", t_clear, fallback=[1, 2, 3]),
            Task("constructor", "Memory::Memory", t_ctor), Task("getters", "Memory::getTotalAllocated", t_getter)]
