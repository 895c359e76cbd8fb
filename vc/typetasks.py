"""T01: getTypeSize / getTypeAlignment / getStructMemberOffset / getValueSize against the OpenCL layout rules.
Structs have an arbitrary number of members with arbitrary (power-of-two aligned) member types; the recursive calls on
the member types are replaced by the functions' own contracts (structural induction)."""
import z3
from engine import *
from lworld import *
from run import Task

BV32 = z3.BitVecSort(32)
class SymAgg:
    """a struct type with n members of sizes s(i) and alignments 2^k(i); S(i): unpadded end of the first i members"""
    def __init__(self, E, st, packed):
        self.E = E; self.packed = packed; self.k = "struct"
        self.n = z3.BitVec("members", 32); E.inputs["members"] = self.n; st.assume(z3.ULE(self.n, 1 << 20))
        self.s = z3.Function("member_size", BV32, BV32); self.a = z3.Function("member_align", BV32, BV32)
        self.S = z3.Function("end_of_first", BV32, BV32); self.A = z3.Function("max_align_of_first", BV32, BV32)
        self.r = Region("type:struct"); self.r.lt = self
        self.mem = Region("type:members", fam=True); self.mem.symagg = self
        self.bits = 0
        st.assume(z3.And(self.S(z3.BitVecVal(0, 32)) == 0, self.A(z3.BitVecVal(0, 32)) == 1, self.A(self.n) != 0))
    @property
    def scalar(self): return self
    def align(self, x, a): r = z3.URem(x, a); return z3.If(r != 0, x + (a - r), x)
    def start(self, i): return self.S(i) if self.packed else self.align(self.S(i), self.a(i))
    def unfold(self, st, i):
        """definition of S and A at i, alignment of a member type is positive"""
        st.assume(z3.And(self.S(i + 1) == self.start(i) + self.s(i), self.A(i + 1) == z3.If(z3.ULT(self.A(i), self.a(i)), self.a(i), self.A(i)), self.a(i) != 0, self.A(i) != 0, self.A(i + 1) != 0))
    def total(self):
        return self.S(self.n) if self.packed else self.align(self.S(self.n), self.A(self.n))
def hint(ag):
    def h(E, d):
        out = []; V = d["vars"]
        ctr = [k for k, (v, w) in V.items() if d["step"].get(k) == 1]
        for c in ctr:
            wc = V[c][1]
            for k, (v, w) in V.items():
                if w != 32 or k == c: continue
                for nm, f in (("= end of the members so far", ag.S), ("= largest alignment so far", ag.A)):
                    out.append((nm, lambda s, v, k=k, c=c, f=f, wc=wc: eq(bvv(v[k], 32), f(bvv(trunc(v[c], wc, 32), 32)))))
        return out
    return h
def install_sym(E, ag):
    def member(E, st, a, I):
        r = obj(E, st, a[0])
        if r is not ag.r: raise Unsupported("member of an unexpected type")
        i = bvv(a[1], 32); ag.unfold(st, i)
        E.oblige(st, z3.ULT(i, ag.n), "member index below the member count", E.cur)
        return Ptr(ag.mem, 0, zext(i, 32, 64))
    for n in ("llvm::Type::getStructElementType", "llvm::StructType::getElementType", "llvm::StructType::getTypeAtIndex", "llvm::Type::getContainedType"): E.models[n] = member
    for n in ("llvm::Type::getStructNumElements", "llvm::StructType::getNumElements", "llvm::Type::getNumContainedTypes"): E.models[n] = lambda E, st, a, I: ag.n
    E.hints.append(hint(ag))
def contracts(E, ag=None, elt=None):
    """recursive calls: the contracts of getTypeSize/getTypeAlignment on the component types"""
    def comp(which):
        def h(E, st, a, I):
            E.used_contracts.add("oclgrind::getType%s(llvm::Type const*)" % which)
            for s, p in E.resolve(st, a[0]):
                if ag is not None and p.r is ag.mem:
                    i = z3.Extract(31, 0, bvv(p.inst, 64)); i = z3.simplify(i)
                    return ag.s(i) if which == "Size" else ag.a(i)
                if elt is not None and p.r is elt[0]: return elt[1] if which == "Size" else elt[2]
                if which == "Size": return E.exec_fn(E.mod.fn("oclgrind::getTypeSize"), a, st)
                return E.exec_fn(E.mod.fn("oclgrind::getTypeAlignment"), a, st)
        return h
    E.models["oclgrind::getTypeSize"] = comp("Size"); E.models["oclgrind::getTypeAlignment"] = comp("Alignment")
def target_ext(E, name=None):
    E.models["llvm::Type::isTargetExtTy"] = lambda E, st, a, I: name is not None
    if name is not None: E.models["llvm::Type::getTargetExtName"] = lambda E, st, a, I: (Ptr(string_region(name)), len(name))
def string_region(s):
    r = Region("str:" + s, mode="byte", const=s.encode() + b"\0"); r.size = len(s) + 1; return r

def run_ret(t, E, st, fname, args):
    fn = t.mod.fn("oclgrind::" + fname); E.inlined.add(fn.dem)
    r = []
    for oc in t.reached(E.exec_fn(fn, args, st)):
        if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
        r.append(oc)
    return r
def t_struct(t, which, packed):
    E = t.engine(); st = State(); install(E); ag = SymAgg(E, st, packed); install_sym(E, ag); contracts(E, ag)
    E.models["llvm::StructType::isPacked"] = lambda E, st, a, I: packed
    if which == "offset":
        ix = z3.BitVec("index", 32); E.inputs["index"] = ix; st.assume(z3.ULT(ix, ag.n)); ag.unfold(st, ix)
        for oc in run_ret(t, E, st, "getStructMemberOffset", [Ptr(ag.r), ix]): E.oblige(oc.st, eq(bvv(oc.val, 32), ag.start(ix)), "offset = end of the previous members rounded up to the member's alignment")
    elif which == "size":
        for oc in run_ret(t, E, st, "getTypeSize", [Ptr(ag.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), ag.total()), "size = end of the last member rounded up to the largest alignment")
    else:
        for oc in run_ret(t, E, st, "getTypeAlignment", [Ptr(ag.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), z3.BitVecVal(1, 32) if packed else ag.A(ag.n)), "alignment = largest member alignment (1 when packed)")
def t_array(t):
    E = t.engine(); st = State(); install(E)
    n = z3.BitVec("elements", 64); E.inputs["elements"] = n; sz = z3.BitVec("element_size", 32); al = z3.BitVec("element_align", 32); E.inputs["element_size"] = sz
    el = Region("type:element"); a = LT("arr", elt=None, n=n); a.elt = type("E", (), dict(r=el))
    contracts(E, elt=(el, sz, al))
    for oc in run_ret(t, E, st, "getTypeSize", [Ptr(a.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), z3.Extract(31, 0, n) * sz), "array size = count * element size")
    for oc in run_ret(t, E, st.fork(), "getTypeAlignment", [Ptr(a.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), al), "array alignment = element alignment")
def t_vector(t):
    E = t.engine(); st = State(); install(E)
    n = z3.BitVec("elements", 32); E.inputs["elements"] = n; sz = z3.BitVec("element_size", 32); E.inputs["element_size"] = sz
    el = Region("type:element"); a = LT("vec", elt=I(8), n=n); a.elt = type("E", (), dict(r=el, bits=8, k="int"))
    contracts(E, elt=(el, sz, sz))
    T = z3.If(n == 3, 4 * sz, n * sz)
    for oc in run_ret(t, E, st, "getTypeSize", [Ptr(a.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), T), "vector size = count * element size, three components occupy four")
    for oc in run_ret(t, E, st.fork(), "getTypeAlignment", [Ptr(a.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), T), "vector alignment = vector size")
def t_scalar(t):
    for ty, s in ((I(1), 1), (I(8), 1), (I(16), 2), (I(32), 4), (I(64), 8), (F(32), 4), (F(64), 8), (F(16), 2), (P(0), 8), (P(1), 8), (P(2), 8), (P(3), 8)):
        E = t.engine(); st = State(); install(E)
        for f in ("getTypeSize", "getTypeAlignment"):
            for oc in run_ret(t, E, st.fork(), f, [Ptr(ty.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), s), "%s of %r" % (f, ty))
def t_valuesize(t):
    for ty, (s, n) in [(I(1), (1, 1)), (I(8), (1, 1)), (I(16), (2, 1)), (I(32), (4, 1)), (I(64), (8, 1)), (F(32), (4, 1)), (F(64), (8, 1)), (P(1), (8, 1))] + [(V(e, n), (e.size(), n)) for e in (I(1), I(8), I(16), I(32), I(64), F(32), F(64)) for n in (2, 3, 4, 8, 16)] + [(x, (x.size(), 1)) for x in SHAPES3()]:
        E = t.engine(); st = State(); install(E)
        v = Region("value"); v.lv = type("L", (), dict(ty=ty))
        for oc in run_ret(t, E, st, "getValueSize", [Ptr(v)]):
            r = oc.val
            w = r if not isinstance(r, tuple) else None
            if isinstance(r, tuple): g = And(eq(bvv(r[0], 32), s), eq(bvv(r[1], 32), n))
            else: g = eq(bvv(r, 64), s | n << 32)
            E.oblige(oc.st, g, "value of type %r has %d elements of %d bytes" % (ty, n, s))
def SHAPES3():
    return [S(I(8), V(I(32), 3), I(16)), S(I(8), S(I(16), F(64)), A(I(32), 3)), S(I(8), I(32), I(16), packed=True), A(S(I(8), I(32)), 4), A(A(I(16), 3), 5), S(V(F(32), 4), P(1), I(1)),
            S(A(V(I(16), 3), 2), I(8)), S(I(64), S(I(8), V(I(64), 2), packed=True), I(16)), S(I(8), S(I(8), S(I(8), I(64)), I(8)), I(8)), S(V(I(8), 3), V(I(8), 16), I(8)), S(F(32), P(3), V(F(64), 3)), A(V(F(32), 3), 7), S(S(I(8), packed=True), I(32)),
            S(A(S(I(16), I(8)), 3), I(32)), S(V(I(8), 2), V(I(16), 2), V(I(8), 8), V(I(32), 16), I(8))]
def t_shape(t, ty):
    """whole recursion on a concrete type, against an independent layout computation"""
    E = t.engine(); st = State(); install(E)
    for oc in run_ret(t, E, st.fork(), "getTypeSize", [Ptr(ty.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), ty.size()), "size of %r" % ty)
    for oc in run_ret(t, E, st.fork(), "getTypeAlignment", [Ptr(ty.r)]): E.oblige(oc.st, eq(bvv(oc.val, 32), ty.align()), "alignment of %r" % ty)
    if ty.k == "struct":
        for i in range(len(ty.elts)):
            for oc in run_ret(t, E, st.fork(), "getStructMemberOffset", [Ptr(ty.r), i]): E.oblige(oc.st, eq(bvv(oc.val, 32), ty.offset(i)), "offset of member %d of %r" % (i, ty))
def t_lemma(t):
    """x rounded up with the remainder formula is the least multiple of 2^k that is >= x"""
    E = t.engine(); st = State(); t.paths += 1
    x = z3.BitVec("x", 32); y = z3.BitVec("y", 32)
    for k in range(0, 8):
        a = z3.BitVecVal(1 << k, 32); s = st.fork(); s.assume(z3.ULE(x, 0x7fffffff))
        r = z3.If(z3.URem(x, a) != 0, x + (a - z3.URem(x, a)), x)
        E.oblige(s, z3.And(z3.UGE(r, x), z3.URem(r, a) == 0, z3.Implies(z3.And(z3.UGE(y, x), z3.URem(y, a) == 0), z3.UGE(y, r))), "rounding up to alignment %d" % (1 << k))
def tasks_T01():
    N = "oclgrind::"
    shapes = SHAPES3()
    def sh(fs):
        def run(t):
            for ty in shapes: t_shape(t, ty)
        return run
    def sym(which, packed):
        def run(t):
            if t.params:
                for ty in shapes:
                    if ty.k == "struct" and ty.packed == packed: t_shape(t, ty)
                if packed:
                    t_shape(t, shapes[2])
            else: t_struct(t, which, packed)
        return run
    return [Task("scalar types", N + "getTypeSize", t_scalar), Task("vector types", N + "getTypeSize", t_vector, fallback=None), Task("array types", N + "getTypeSize", t_array),
            Task("struct size", N + "getTypeSize", sym("size", False), fallback=["15 concrete shapes"]), Task("packed struct size", N + "getTypeSize", sym("size", True), fallback=["15 concrete shapes"]),
            Task("struct alignment", N + "getTypeAlignment", sym("align", False), fallback=["15 concrete shapes"]), Task("packed struct alignment", N + "getTypeAlignment", sym("align", True), fallback=["15 concrete shapes"]),
            Task("struct member offset", N + "getStructMemberOffset", sym("offset", False), fallback=["15 concrete shapes"]), Task("packed struct member offset", N + "getStructMemberOffset", sym("offset", True), fallback=["15 concrete shapes"]),
            Task("nested shapes", N + "getTypeSize", sh(None)), Task("value sizes", N + "getValueSize", t_valuesize), Task("lemma: rounding up", "(lemma)", t_lemma)]
