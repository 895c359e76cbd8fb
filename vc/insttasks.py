"""LLVM instruction handlers of oclgrind::WorkItem against the LLVM language reference (lane by lane)."""
import z3
from engine import *
from lworld import *
from run import Task

H = "oclgrind::WorkItem::"
INTOPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "UDiv": "udiv", "SDiv": "sdiv", "URem": "urem", "SRem": "srem", "And": "bwand", "Or": "bwor", "Xor": "bwxor", "Shl": "shl", "LShr": "lshr", "AShr": "ashr"}

def vecsetup(t, opcode, rty, optys, num=None, **attrs):
    """-> E, st, inst, operands; num: None = arbitrary number of lanes, else concrete"""
    E = t.engine(); st = State()
    sym = None
    if num is None:
        sym = z3.BitVec("lanes", 32); st.assume(z3.And(z3.UGE(sym, 2), z3.ULE(sym, 1 << 16))); E.inputs["lanes"] = sym
    n = sym if num is None else num
    mk = lambda ty: LT("vec", elt=ty, n=n) if not (isc(n) and n == 1) else ty
    def conv(ty): return ty[1] if isinstance(ty, tuple) and ty[0] == "scalar" else mk(ty)
    ops = []
    for i, ty in enumerate(optys):
        c = conv(ty); v = LVal(E, "op%d" % i, c, num=(1 if c.k != "vec" else c.n)); ops.append(v)
    inst = LInst(E, st, opcode, conv(rty) if rty is not None else LT("void"), ops, num=None if rty is None else (n if conv(rty).k == "vec" else 1), **attrs)
    inst.sym = sym; E.ops = ops
    if getattr(t, "setup", None): t.setup(E, st)
    return E, st, inst, ops
def lanes(t, f):
    """run f(num) for the unbounded case (and the scalar), or the bounded widths"""
    if t.params: 
        for n in t.params: f(n)
    else: f(1); f(None)
def elementwise(t, opcode, rty, optys, spec, scalar_ops=(), cond=None, disp=None, **attrs):
    """spec(E, [operand lane values]) -> (defined, value)"""
    def go(num):
        E, st, inst, ops = vecsetup(t, opcode, rty, optys, num=num, **attrs)
        rs = inst.esize
        if num is None:
            gl = z3.BitVec("ghost.lane", 64); E.inputs["ghost.lane"] = gl
            st.assume(z3.ULT(gl, z3.ZeroExt(32, inst.sym)))
            ls = [o.lane(gl if o.ty.k == "vec" else 0) for o in ops]
            for i, l in enumerate(ls): E.inputs["op%d[lane]" % i] = bvv(l, 8 * ops[i].esize)
            d, T = spec(E, ls)
            if d is not True: T = ite(d, bvv(T, 8 * rs), z3.BitVec("undefined", 8 * rs), 8 * rs)
            E.lanes[inst.resd] = (gl, rs, T, d)
            check = [(gl, d, T)]
        else:
            check = []
            for k in range(num):
                ls = [o.lane(k if o.ty.k == "vec" else 0) for o in ops]
                for i, l in enumerate(ls): E.inputs["op%d[%d]" % (i, k)] = bvv(l, 8 * ops[i].esize)
                d, T = spec(E, ls); check.append((k, d, T))
        for oc in t.reached((disp(E, st, inst) if disp else inst.dispatch(st))):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            for k, d, T in check:
                s = oc.st.fork(); s.assume(d)
                if d is not True and not E.sat(s.pc): continue
                got = bvv(s.load(E, Ptr(inst.resd, mul(k, rs, 64)), rs), 8 * rs)
                E.oblige(s, eq(got, bvv(T, 8 * rs)), "lane value", detail=lambda m, got=got, T=T: dict(opcode=opcode, got=str(m.eval(got, model_completion=True)), expected=str(m.eval(bvv(T, 8 * rs), model_completion=True))))
            if getattr(E, "post", None): E.post(E, oc.st)
            # nothing outside the result is written
            for r in oc.st.mem:
                if r is not inst.resd and not r.local and oc.st.mem[r] is not None: E.oblige(oc.st, False, "frame: %s unchanged" % r.name)
    lanes(t, go)

def wf(x, w): return True if w != 1 else z3.ULE(bvv(x, 8), 1)
def spec_int(opc, w):
    W = max(w, 8)
    def f(E, ls):
        a, b = bvv(ls[0], W), bvv(ls[1], W)
        d = True
        if w == 1: d = And(wf(a, 1), wf(b, 1))
        if opc == "Add": r = a + b
        elif opc == "Sub": r = a - b
        elif opc == "Mul": r = a * b
        elif opc == "And": r = a & b
        elif opc == "Or": r = a | b
        elif opc == "Xor": r = a ^ b
        elif opc in ("Shl", "LShr", "AShr"):
            d = z3.ULT(b, w); r = a << b if opc == "Shl" else z3.LShR(a, b) if opc == "LShr" else a >> b
        else:
            d = b != 0
            if opc in ("SDiv", "SRem"): d = z3.And(d, z3.Not(z3.And(a == 1 << (w - 1), b == M(w))))
            r = {"UDiv": z3.UDiv, "SDiv": lambda x, y: x / y, "URem": z3.URem, "SRem": z3.SRem}[opc](a, b)
        return d, r
    return f

def tasks_I01():
    out = []
    for opc, hn in INTOPS.items():
        for w in (8, 16, 32, 64) + ((1,) if opc in ("And", "Or", "Xor") else ()):
            out.append(Task("%s i%d" % (opc, w), H + hn, (lambda opc, w: lambda t: elementwise(t, opc, I(w), [I(w), I(w)], spec_int(opc, w)))(opc, w), fallback=[1, 2, 3, 4]))
    return out

# ---------------------------------------------------------------- I02
def tasks_I02():
    out = []
    def add(name, hn, opc, rty, oty, spec, fb=[1, 2, 3, 4], scalar=False, uf=False):
        def run(t):
            if scalar:
                t.params = [1]
            elementwise(t, opc, rty, [oty], spec)
        out.append(Task(name, H + hn, run, fallback=fb, uf=uf))
    IW = (1, 8, 16, 32, 64)
    for a in IW:
        for b in IW:
            A_, B_ = max(a, 8), max(b, 8)
            if b < a: add("trunc i%d->i%d" % (a, b), "itrunc", "Trunc", I(b), I(a), (lambda a, b: lambda E, l: (True, bvv(trunc(bvv(l[0], max(a, 8)), max(a, 8), b) if b > 1 else zext(z3.Extract(0, 0, bvv(l[0], max(a, 8))), 1, 8), max(b, 8))))(a, b))
            if b > a:
                add("zext i%d->i%d" % (a, b), "zext", "ZExt", I(b), I(a), (lambda a, b, A_, B_: lambda E, l: (wf(l[0], a), zext(bvv(l[0], A_), A_, B_)))(a, b, A_, B_))
                add("sext i%d->i%d" % (a, b), "sext", "SExt", I(b), I(a), (lambda a, b, A_, B_: lambda E, l: (wf(l[0], a), z3.If(bvv(l[0], 8) == 1, z3.BitVecVal(M(B_), B_), z3.BitVecVal(0, B_)) if a == 1 else sext(bvv(l[0], A_), A_, B_)))(a, b, A_, B_))
    for a in (8, 16, 32, 64):
        add("inttoptr i%d" % a, "inttoptr", "IntToPtr", P(), I(a), (lambda a: lambda E, l: (True, zext(bvv(l[0], a), a, 64)))(a), scalar=True, fb=[1])
        add("ptrtoint i%d" % a, "ptrtoint", "PtrToInt", I(a), P(), (lambda a: lambda E, l: (True, trunc(bvv(l[0], 64), 64, a)))(a), scalar=True, fb=[1])
    for a in (8, 16, 32, 64):
        for f in (32, 64):
            add("sitofp i%d->f%d" % (a, f), "sitofp", "SIToFP", F(f), I(a), (lambda a, f: lambda E, l: (True, E.itofp(bvv(l[0], a), a, f, True)))(a, f))
            add("uitofp i%d->f%d" % (a, f), "uitofp", "UIToFP", F(f), I(a), (lambda a, f: lambda E, l: (True, E.itofp(bvv(l[0], a), a, f, False)))(a, f))
            for sg, opc, hn in ((True, "FPToSI", "fptosi"), (False, "FPToUI", "fptoui")):
                def spec(E, l, a=a, f=f, sg=sg):
                    X = fp(l[0], f); T = z3.fpRoundToIntegral(z3.RTZ(), X)
                    lo = -(1 << (a - 1)) if sg else 0; hi = (1 << (a - 1)) if sg else (1 << a)
                    d = z3.And(z3.Not(z3.fpIsNaN(X)), z3.fpGEQ(T, z3.FPVal(float(lo), FP[f])), z3.fpLT(T, z3.FPVal(float(hi), FP[f])))
                    r = z3.fpToSBV(z3.RTZ(), X, z3.BitVecSort(a)) if sg else z3.fpToUBV(z3.RTZ(), X, z3.BitVecSort(a))
                    return d, r
                add("%s f%d->i%d" % (hn, f, a), hn, opc, I(a), F(f), spec)
    add("fpext f32->f64", "fpext", "FPExt", F(64), F(32), lambda E, l: (True, E.fpconv(l[0], 32, 64)))
    add("fptrunc f64->f32", "fptrunc", "FPTrunc", F(32), F(64), lambda E, l: (True, E.fpconv(l[0], 64, 32)))
    for opc, hn in (("BitCast", "bitcast"), ("AddrSpaceCast", "addrspacecast"), ("Freeze", "freeze")):
        for (a, na), (b, nb) in (((32, 1), (8, 4)), ((64, 2), (32, 4)), ((32, 3), (32, 3)), ((64, 1), (64, 1)), ((8, 16), (64, 2)), ((16, 8), (128, 1))) if hn == "bitcast" else (((64, 1), (64, 1)), ((32, 4), (32, 4)), ((32, 3), (32, 3))):
            if b == 128: continue
            out.append(Task("%s %dxi%d->%dxi%d" % (hn, na, a, nb, b), H + hn, (lambda *k: lambda t: t_bitcast(t, *k))(opc, a, na, b, nb)))
    return out
def t_bitcast(t, opc, a, na, b, nb):
    E = t.engine(); st = State()
    o = LVal(E, "op0", V(I(a), na) if na > 1 else I(a)); inst = LInst(E, st, opc, V(I(b), nb) if nb > 1 else I(b), [o])
    for oc in t.reached(inst.dispatch(st)):
        if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
        g = And(*[eq(bvv(oc.st.byte(E, inst.resd, 0, k), 8), o.data.byte0(0, k)) for k in range(nb * b // 8)])
        E.oblige(oc.st, g, "same bytes")

# ---------------------------------------------------------------- I03
def tasks_I03():
    out = []
    for p in I_PRED:
        for w in (8, 16, 32, 64) + ((1,) if p in ("eq", "ne", "ult", "ugt") else ()):
            def spec(E, l, p=p, w=w):
                W = max(w, 8)
                return And(wf(l[0], w), wf(l[1], w)), ite(E.icmp(p, bvv(l[0], W), bvv(l[1], W), "i%d" % W), 1, 0, 8)
            out.append(Task("icmp %s i%d" % (p, w), H + "icmp", (lambda p, w, spec: lambda t: elementwise(t, "ICmp", I(1), [I(w), I(w)], spec, pred=predval("i", p)))(p, w, spec), fallback=[1, 2, 3]))
        def sp(E, l, p=p): return True, ite(E.icmp(p, l[0], l[1], "i64"), 1, 0, 8)
        def run(t, p=p, sp=sp):
            t.params = [1]; elementwise(t, "ICmp", I(1), [P(1), P(1)], sp, pred=predval("i", p))
        out.append(Task("icmp %s ptr" % p, H + "icmp", run))
    for p in FP_PRED:
        for w in (32, 64):
            def spec(E, l, p=p, w=w): return True, ite(E.fcmp(p, l[0], l[1], w), 1, 0, 8)
            out.append(Task("fcmp %s f%d" % (p, w), H + "fcmp", (lambda p, w, spec: lambda t: elementwise(t, "FCmp", I(1), [F(w), F(w)], spec, pred=predval("f", p)))(p, w, spec), fallback=[1, 2]))
    for w in (1, 8, 16, 32, 64):
        for sc in (False, True):
            def spec(E, l, w=w):
                W = max(w, 8)
                return wf(l[0], 1), ite(bvv(l[0], 8) != 0, bvv(l[1], W), bvv(l[2], W), W)
            out.append(Task("select i%d %s condition" % (w, "scalar" if sc else "per-lane"), H + "select", (lambda w, sc, spec: lambda t: elementwise(t, "Select", I(w), [("scalar", I(1)) if sc else I(1), I(w), I(w)], spec))(w, sc, spec), fallback=[1, 2, 3]))
    out.append(Task("select aggregate", H + "select", t_select_agg))
    return out
def t_select_agg(t):
    for ty in (S(I(32), F(64), I(8)), A(I(16), 5), S(I(8), P(), packed=True), P(1), F(64)):
        E = t.engine(); st = State()
        c = LVal(E, "cond", I(1)); a = LVal(E, "a", ty, num=1, size=ty.size()); b = LVal(E, "b", ty, num=1, size=ty.size())
        inst = LInst(E, st, "Select", ty, [c, a, b]); 
        cv = c.lane(0); st.assume(wf(cv, 1)); E.inputs["cond"] = cv
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            g = And(*[eq(bvv(oc.st.byte(E, inst.resd, 0, k), 8), ite(cv == 1, a.data.byte0(0, k), b.data.byte0(0, k), 8)) for k in range(ty.size())])
            E.oblige(oc.st, g, "selected operand")

# ---------------------------------------------------------------- I04
def t_extractelement(t, w, iw):
    for num in (t.params or [None]):
        E, st, inst, ops = vecsetup(t, "ExtractElement", ("scalar", I(w)), [I(w), ("scalar", I(iw))], num=num)
        v, ix = ops
        idx = zext(bvv(ix.lane(0), iw), iw, 64); E.inputs["index"] = idx
        n = zext(inst.sym, 32, 64) if num is None else num
        st.assume(z3.ULT(idx, n))
        T = v.lane(idx)
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            s = w // 8
            E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(inst.resd), s), w), bvv(T, w)), "selected element")
def t_insertelement(t, w, iw):
    for num in (t.params or [None]):
        E, st, inst, ops = vecsetup(t, "InsertElement", I(w), [I(w), ("scalar", I(w)), ("scalar", I(iw))], num=num)
        v, x, ix = ops; s = w // 8
        idx = zext(bvv(ix.lane(0), iw), iw, 64); E.inputs["index"] = idx
        n = zext(inst.sym, 32, 64) if num is None else z3.BitVecVal(num, 64)
        st.assume(z3.ULT(idx, n))
        gl = z3.BitVec("ghost.lane", 64); st.assume(z3.ULT(gl, n)); E.inputs["ghost.lane"] = gl
        T = ite(gl == idx, bvv(x.lane(0), w), bvv(v.lane(gl), w), w)
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(inst.resd, mul(gl, s, 64)), s), w), T), "inserted element at its index, all other lanes unchanged")
def t_shuffle(t, w):
    cases = t.params or [None]
    for num in cases:
        E, st, inst, ops = vecsetup(t, "ShuffleVector", I(w), [], num=num)
        s = w // 8
        n1 = z3.BitVec("operand.lanes", 32); E.inputs["operand.lanes"] = n1; st.assume(z3.And(z3.UGE(n1, 1), z3.ULE(n1, 1 << 16)))
        vt = LT("vec", elt=I(w), n=n1)
        a = LVal(E, "op0", vt, num=n1); b = LVal(E, "op1", vt, num=n1); inst.ops = [a, b]
        mask = z3.Function("mask", z3.BitVecSort(64), z3.BitVecSort(32))
        E.models["llvm::ShuffleVectorInst::getMaskValue"] = lambda E, st, q, I: mask(zext(bvv(q[1], 32), 32, 64))
        lim = lambda k: z3.Or(mask(k) == M(32), z3.ULT(mask(k), 2 * n1))
        gl = z3.BitVec("ghost.lane", 64); E.inputs["ghost.lane"] = gl
        n = zext(inst.sym, 32, 64) if num is None else z3.BitVecVal(num, 64)
        st.assume(z3.ULT(gl, n)); E.inputs["mask[lane]"] = mask(gl)
        # the verifier rule on shufflevector masks holds at every lane: instantiated where the mask is read
        def getmask(E, st, q, I):
            k = zext(bvv(q[1], 32), 32, 64); st.assume(lim(k)); return mask(k)
        E.models["llvm::ShuffleVectorInst::getMaskValue"] = getmask
        st.assume(lim(gl))
        mk = mask(gl); e64 = z3.ZeroExt(32, mk); n64 = z3.ZeroExt(32, n1)
        T = z3.If(z3.ULT(mk, n1), bvv(a.lane(e64), w), bvv(b.lane(e64 - n64), w)); d = mk != M(32)
        T = z3.If(d, T, z3.BitVec("undefined", w))
        E.lanes[inst.resd] = (gl, s, T, d)
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            o = oc.st.fork(); o.assume(d)
            E.oblige(o, eq(bvv(o.load(E, Ptr(inst.resd, mul(gl, s, 64)), s), w), T), "lane selected by the mask")
SHAPES = lambda: [
    (S(I(32), I(8), I(64)), None), (S(I(8), V(I(32), 3), I(16)), None), (S(I(8), S(I(16), F(64)), A(I(32), 3)), None), (S(I(8), I(32), I(16), packed=True), None),
    (A(S(I(8), I(32)), 4), None), (A(A(I(16), 3), 5), None), (S(V(F(32), 4), P(1), I(1)), None), (S(A(I(8), 3), I(32)), None), (A(V(I(16), 3), 2), None), (S(I(64), S(I(8), packed=True), I(16)), None), (S(I(32), A(S(I(16), I(8), I(8)), 2), S(I(8), S(I(16), I(8)))), None), (A(A(A(I(8), 3), 2), 2), None)]
def paths(ty, pre=()):
    """all index paths of length 1..3"""
    if ty.k not in ("arr", "struct") or len(pre) >= 3: return
    n = ty.n if ty.k == "arr" else len(ty.elts)
    for i in range(n):
        yield pre + (i,)
        for x in paths(ty.elt if ty.k == "arr" else ty.elts[i], pre + (i,)): yield x
def target(ty, path):
    o = 0
    for i in path:
        if ty.k == "arr": o += ty.elt.size() * i; ty = ty.elt
        else: o += ty.offset(i); ty = ty.elts[i]
    return o, ty
def valsize(ty): return (ty.elt.size() * ty.n) if ty.k == "vec" else ty.size()
def install_idx(E, inst, path):
    r = Region("indices"); r.base = {("c", 4 * i, 4): p for i, p in enumerate(path)}
    arr = (Ptr(r), len(path))
    def getidx(E, st, a, I):
        if a and isinstance(I.get("ty"), dict): return arr
        st.store(E, a[0], 8, Ptr(r)); st.store(E, pgep(a[0], 8), 8, len(path)); return 0
    for c in ("ExtractValueInst", "InsertValueInst"): E.models["llvm::%s::getIndices" % c] = getidx
    for c in ("ExtractValueInst", "InsertValueInst"): E.models["llvm::%s::getNumIndices" % c] = lambda E, st, a, I: len(path)
def t_extractvalue(t, ty):
    for path in paths(ty):
        E = t.engine(); st = State()
        off, et = target(ty, path)
        agg = LVal(E, "agg", ty, num=1, size=ty.size()); inst = LInst(E, st, "ExtractValue", et, [agg]); install_idx(E, inst, path)
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            E.oblige(oc.st, And(*[eq(bvv(oc.st.byte(E, inst.resd, 0, k), 8), agg.data.byte0(0, off + k)) for k in range(valsize(et))]), "member %r of %r" % (path, ty))
def t_insertvalue(t, ty):
    for path in paths(ty):
        E = t.engine(); st = State()
        off, et = target(ty, path); n = valsize(et)
        agg = LVal(E, "agg", ty, num=1, size=ty.size()); v = LVal(E, "val", et, size=None if et.k == "vec" else et.size()); inst = LInst(E, st, "InsertValue", ty, [agg, v]); install_idx(E, inst, path)
        # bytes of a 3-component vector member's padding are unspecified
        pad = range(off + n, off + et.size())
        for oc in t.reached(inst.dispatch(st)):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            E.oblige(oc.st, And(*[eq(bvv(oc.st.byte(E, inst.resd, 0, k), 8), v.data.byte0(0, k - off) if off <= k < off + n else agg.data.byte0(0, k)) for k in range(ty.size()) if k not in pad]), "member %r of %r replaced, all others kept" % (path, ty))
def tasks_I04():
    out = []
    for w in (8, 16, 32, 64):
        for iw in (32, 64):
            out.append(Task("extractelement i%d index i%d" % (w, iw), H + "extractelem", (lambda *k: lambda t: t_extractelement(t, *k))(w, iw), fallback=[1, 2, 3, 4, 8, 16]))
            out.append(Task("insertelement i%d index i%d" % (w, iw), H + "insertelem", (lambda *k: lambda t: t_insertelement(t, *k))(w, iw), fallback=[2, 3, 4, 8, 16]))
        out.append(Task("shufflevector i%d" % w, H + "shuffle", (lambda w: lambda t: t_shuffle(t, w))(w), fallback=[1, 2, 3]))
    for i, (ty, _) in enumerate(SHAPES()):
        out.append(Task("extractvalue %r" % ty, H + "extractval", (lambda ty: lambda t: t_extractvalue(t, ty))(ty)))
        out.append(Task("insertvalue %r" % ty, H + "insertval", (lambda ty: lambda t: t_insertvalue(t, ty))(ty)))
    return out

# ---------------------------------------------------------------- I05
def tasks_I05():
    out = []
    for opc in ("FAdd", "FSub", "FMul", "FDiv", "FRem"):
        for w in (32, 64):
            def spec(E, l, opc=opc, w=w): return True, E.farith(opc.lower(), l[0], l[1], w)
            out.append(Task("%s f%d" % (opc.lower(), w), H + opc.lower(), (lambda opc, w, spec: lambda t: elementwise(t, opc, F(w), [F(w), F(w)], spec))(opc, w, spec), fallback=[1, 2, 3, 4, 8, 16], uf=True))
    for w in (32, 64):
        def spec(E, l, w=w): return z3.Not(z3.fpIsNaN(fp(l[0], w))), bvv(l[0], w) ^ z3.BitVecVal(1 << (w - 1), w)
        out.append(Task("fneg f%d" % w, H + "fneg", (lambda w, spec: lambda t: elementwise(t, "FNeg", F(w), [F(w)], spec))(w, spec), fallback=[1, 2, 3, 4]))
    return out
