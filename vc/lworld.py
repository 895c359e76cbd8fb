"""A symbolic LLVM instruction (types, operands) as seen by the interpreter, and the interpreter's value contract.

Assumed contracts on LLVM: the accessor methods of llvm::Instruction/Type/... return the attributes of the
instruction under execution.  Contract on WorkItem::getOperand / getValue: the TypedValue of an operand holds its
lanes in little-endian memory order, one-bit integers as a byte 0 or 1."""
import re, os
import z3
from engine import *
import build

def opcodes():
    r = {}
    for l in open("/usr/lib/llvm-20/include/llvm/IR/Instruction.def"):
        m = re.match(r"\s*HANDLE_\w+_INST\s*\(\s*(\d+)\s*,\s*(\w+)", l)
        if m: r[m.group(2)] = int(m.group(1))
    return r
FP_PRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
I_PRED = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"]
def predval(kind, p): return FP_PRED.index(p) if kind == "f" else 32 + I_PRED.index(p)

class LT:
    """k: int/float/ptr/vec/arr/struct/void"""
    cache = {}
    def __init__(self, k, bits=0, elt=None, n=0, elts=(), packed=False, aspace=0, name=""):
        self.k = k; self.bits = bits; self.elt = elt; self.n = n; self.elts = list(elts); self.packed = packed; self.aspace = aspace
        self.r = Region("type:" + repr(self)); self.r.lt = self
    def __repr__(self):
        if self.k in ("int", "float"): return self.k[0] + str(self.bits)
        if self.k == "ptr": return "p%d" % self.aspace
        if self.k in ("vec", "arr"): return "%s(%s x %r)" % (self.k, self.n, self.elt)
        if self.k == "struct": return "%s{%s}" % ("packed" if self.packed else "", ",".join(map(repr, self.elts)))
        return self.k
    @property
    def scalar(self): return self.elt if self.k == "vec" else self
    def size(self):
        if self.k in ("int", "float"): return (self.bits + 7) // 8
        if self.k == "ptr": return 8
        if self.k == "vec": return self.elt.size() * (4 if self.n == 3 else self.n)
        if self.k == "arr": return self.elt.size() * self.n
        if self.k == "struct":
            o = 0; al = 1
            for e in self.elts:
                a = 1 if self.packed else e.align(); o = (o + a - 1) // a * a + e.size(); al = max(al, a)
            return (o + al - 1) // al * al
        raise Unsupported("size of %r" % self)
    def align(self):
        if self.k == "arr": return self.elt.align()
        if self.k == "struct": return 1 if self.packed else max([e.align() for e in self.elts] + [1])
        return self.size()
    def offset(self, i):
        o = 0
        for j, e in enumerate(self.elts):
            a = 1 if self.packed else e.align(); o = (o + a - 1) // a * a
            if j == i: return o
            o += e.size()
    def typeid(self):
        if self.k == "float": return {16: 0, 32: 2, 64: 3}[self.bits]
        return {"void": 7, "int": 12, "ptr": 14, "struct": 15, "arr": 16, "vec": 17}[self.k]
_lt = {}
def I(n): return _lt.setdefault(("i", n), None) or _lt.__setitem__(("i", n), LT("int", n)) or _lt[("i", n)]
def F(n): return _lt.setdefault(("f", n), None) or _lt.__setitem__(("f", n), LT("float", n)) or _lt[("f", n)]
def V(t, n): return t if n is None else (_lt.setdefault(("v", id(t), str(n)), None) or _lt.__setitem__(("v", id(t), str(n)), LT("vec", elt=t, n=n)) or _lt[("v", id(t), str(n))])
def P(a=0): return _lt.setdefault(("p", a), None) or _lt.__setitem__(("p", a), LT("ptr", aspace=a)) or _lt[("p", a)]
def A(t, n): return LT("arr", elt=t, n=n)
def S(*es, packed=False): return LT("struct", elts=es, packed=packed)

class LVal:
    """an operand value with its lanes in memory"""
    def __init__(self, E, name, ty, num=None, size=None, wf=True, st=None):
        self.name = name; self.ty = ty
        self.r = Region("val:" + name); self.r.lv = self
        self.data = Region("data:" + name, mode="byte")
        self.num = num if num is not None else (ty.n if ty.k == "vec" else 1)
        self.esize = size if size is not None else ty.scalar.size()
        self.data.size = mul(zext(self.num, 32, 64) if self.num.size() == 32 else self.num, self.esize, 64) if not isc(self.num) else self.num * self.esize
        self.const = None
    @property
    def p(self): return Ptr(self.r)
    def tv(self):
        n = zext(self.num, 32, 64) if not isc(self.num) and self.num.size() == 32 else self.num
        n32 = self.num if isc(self.num) or self.num.size() == 32 else trunc(self.num, 64, 32)
        if isc(n32): w = self.esize | n32 << 32
        else: w = z3.Concat(n32, z3.BitVecVal(self.esize, 32))
        return (w, Ptr(self.data))
    def lane(self, k, size=None):
        """initial value of lane k (bits of the stored element)"""
        s = size or self.esize
        o = k * s if isc(k) else mul(k, s, 64)
        return concat_bytes([self.data.byte0(0, add(o, i, 64)) for i in range(s)])

class LInst:
    def __init__(self, E, st, opcode, rty, ops, pred=None, num=None, **attrs):
        self.E = E; self.opcode = opcode; self.ty = rty; self.ops = ops; self.pred = pred; self.attrs = attrs
        self.r = Region("inst:" + opcode); self.r.inst = self; self.r.lv = self
        m = E.mod
        self.this = Region("workitem"); self.this.size = m.sizeof("WorkItem")
        self.res = Region("result"); self.res.size = m.sizeof("TypedValue")
        self.resd = Region("resultdata", mode="byte")
        if rty.k != "void":
            self.num = num if num is not None else (rty.n if rty.k == "vec" else 1)
            self.esize = rty.scalar.size()
            self.resd.size = self.num * self.esize if isc(self.num) else zext(self.num, 32, 64) * self.esize
            b = self.res.base
            b[("c", m.field("TypedValue", "size"), 4)] = self.esize
            b[("c", m.field("TypedValue", "num"), 4)] = self.num
            b[("c", m.field("TypedValue", "data"), 8)] = Ptr(self.resd)
        install(E)
    def dispatch(self, st):
        fn = self.E.mod.fn("oclgrind::WorkItem::dispatch")
        return self.E.call(fn.name, st, [Ptr(self.this), Ptr(self.r), Ptr(self.res)])

NAMED_OPS = {
    "SelectInst::getCondition": 0, "SelectInst::getTrueValue": 1, "SelectInst::getFalseValue": 2,
    "ExtractElementInst::getVectorOperand": 0, "ExtractElementInst::getIndexOperand": 1,
    "ExtractValueInst::getAggregateOperand": 0, "InsertValueInst::getAggregateOperand": 0, "InsertValueInst::getInsertedValueOperand": 1,
    "LoadInst::getPointerOperand": 0, "StoreInst::getValueOperand": 0, "StoreInst::getPointerOperand": 1,
    "GetElementPtrInst::getPointerOperand": 0, "AllocaInst::getArraySize": 0, "BranchInst::getCondition": -1,
}
def _one(E, st, p):
    rs = E.resolve(st, p)
    if len(rs) != 1: raise Unsupported("multi-target LLVM object")
    return rs[0][1]
def obj(E, st, p):
    q = _one(E, st, p)
    if q.r is None: raise Unsupported("null LLVM object")
    return q.r
def ltof(E, st, p):
    r = obj(E, st, p)
    if not hasattr(r, "lt"): raise Unsupported("not a modelled type")
    return r.lt

def install(E):
    """assumed contracts on LLVM accessors"""
    M_ = E.models
    oc = opcodes()
    def inst(E, st, p):
        r = obj(E, st, p)
        if not hasattr(r, "inst"): raise Unsupported("not a modelled instruction")
        return r.inst
    def operand(E, st, p, k):
        i = inst(E, st, p)
        if not isc(k): raise Unsupported("symbolic operand index")
        if k >= len(i.ops): raise Unsupported("operand index out of range")
        return Ptr(i.ops[k].r)
    M_["llvm::Instruction::getOpcode"] = lambda E, st, a, I: oc[inst(E, st, a[0]).opcode]
    M_["llvm::Instruction::getOpcodeName"] = lambda E, st, a, I: Ptr(Region("opname"))
    M_["llvm::Value::getType"] = lambda E, st, a, I: Ptr(obj(E, st, a[0]).lv.ty.r)
    h = lambda E, st, a, I: operand(E, st, a[0], a[1])
    E.rmodels.append((re.compile(r"^llvm::\w+::getOperand\(unsigned"), h))
    M_["llvm::User::getNumOperands"] = lambda E, st, a, I: len(inst(E, st, a[0]).ops)
    for k, n in NAMED_OPS.items():
        M_["llvm::" + k] = (lambda n: lambda E, st, a, I: operand(E, st, a[0], n if n >= 0 else len(inst(E, st, a[0]).ops) + n))(n)
    M_["llvm::CmpInst::getPredicate"] = lambda E, st, a, I: inst(E, st, a[0]).pred
    P = {"isOrdered": lambda p: p in (1, 2, 3, 4, 5, 6, 7), "isUnordered": lambda p: p in (8, 9, 10, 11, 12, 13, 14), "isSigned": lambda p: 38 <= p <= 41, "isUnsigned": lambda p: 34 <= p <= 37,
         "isFPPredicate": lambda p: p <= 15, "isIntPredicate": lambda p: 32 <= p <= 41, "isEquality": lambda p: p in (32, 33)}
    for k, f in P.items():
        M_["llvm::CmpInst::" + k] = (lambda f: lambda E, st, a, I: f(a[0]) if isc(a[0]) else f(inst(E, st, a[0]).pred))(f)
    # types
    T = "llvm::Type::"
    def tq(name, f): M_[T + name] = lambda E, st, a, I: f(ltof(E, st, a[0]), *a[1:])
    tq("getTypeID", lambda t: t.typeid())
    tq("isVectorTy", lambda t: t.k == "vec"); tq("isStructTy", lambda t: t.k == "struct"); tq("isArrayTy", lambda t: t.k == "arr")
    tq("isPointerTy", lambda t: t.k == "ptr"); tq("isVoidTy", lambda t: t.k == "void"); tq("isFloatTy", lambda t: t.k == "float" and t.bits == 32)
    tq("isDoubleTy", lambda t: t.k == "float" and t.bits == 64); tq("isHalfTy", lambda t: t.k == "float" and t.bits == 16)
    tq("isFloatingPointTy", lambda t: t.k == "float"); tq("isFPOrFPVectorTy", lambda t: t.scalar.k == "float")
    tq("isTargetExtTy", lambda t: False); tq("isAggregateType", lambda t: t.k in ("arr", "struct")); tq("isFunctionTy", lambda t: False); tq("isLabelTy", lambda t: False)
    tq("isIntOrIntVectorTy", lambda t, *w: t.scalar.k == "int" and (not w or t.scalar.bits == w[0]))
    tq("isIntegerTy", lambda t, *w: t.k == "int" and (not w or t.bits == w[0]))
    tq("isSized", lambda t, *w: True); tq("isSingleValueType", lambda t: t.k in ("int", "float", "ptr", "vec"))
    tq("getScalarSizeInBits", lambda t: t.scalar.bits); tq("getScalarType", lambda t: Ptr(t.scalar.r))
    tq("getIntegerBitWidth", lambda t: t.bits); tq("getArrayElementType", lambda t: Ptr(t.elt.r)); tq("getArrayNumElements", lambda t: t.n)
    tq("getStructElementType", lambda t, i: Ptr(t.elts[i].r)); tq("getStructNumElements", lambda t: len(t.elts))
    tq("getPointerAddressSpace", lambda t: t.aspace); tq("getContainedType", lambda t, i: Ptr((t.elts[i] if t.k == "struct" else t.elt).r))
    tq("getNumContainedTypes", lambda t: len(t.elts) if t.k == "struct" else 1 if t.k in ("vec", "arr") else 0)
    def prim(t):
        if t.k == "vec": return t.n * t.elt.bits if t.elt.k != "ptr" else 0
        return t.bits
    M_[T + "getPrimitiveSizeInBits"] = lambda E, st, a, I: (prim(ltof(E, st, a[0])), 0) if isinstance(I.get("ty"), dict) else prim(ltof(E, st, a[0]))
    E.rmodels.append((re.compile(r"^llvm::TypeSize::operator unsigned long|^llvm::TypeSize::getFixedValue|^llvm::details::FixedOrScalableQuantity<.*>::getFixedValue|getKnownMinValue"), typesize))
    M_["llvm::IntegerType::getBitWidth"] = lambda E, st, a, I: ltof(E, st, a[0]).bits
    M_["llvm::FixedVectorType::getNumElements"] = lambda E, st, a, I: ltof(E, st, a[0]).n
    M_["llvm::VectorType::getElementType"] = lambda E, st, a, I: Ptr(ltof(E, st, a[0]).elt.r)
    M_["llvm::ArrayType::getNumElements"] = lambda E, st, a, I: ltof(E, st, a[0]).n
    M_["llvm::ArrayType::getElementType"] = lambda E, st, a, I: Ptr(ltof(E, st, a[0]).elt.r)
    M_["llvm::StructType::isPacked"] = lambda E, st, a, I: ltof(E, st, a[0]).packed
    M_["llvm::StructType::getNumElements"] = lambda E, st, a, I: len(ltof(E, st, a[0]).elts)
    M_["llvm::StructType::getElementType"] = lambda E, st, a, I: Ptr(ltof(E, st, a[0]).elts[a[1]].r)
    M_["llvm::StructType::getTypeAtIndex"] = M_["llvm::StructType::getElementType"]
    M_["llvm::PointerType::getAddressSpace"] = lambda E, st, a, I: ltof(E, st, a[0]).aspace
    E.rmodels.append((re.compile(r"llvm::(dyn_)?cast(_or_null)?<llvm::(\w+Type),"), castty))
    E.rmodels.append((re.compile(r"^bool llvm::isa<llvm::(\w+Type),"), isaty))
    E.rmodels.append((re.compile(r"llvm::cast<llvm::\w+Inst,"), lambda E, st, a, I: a[0]))
    # values
    def getop(E, st, a, I):
        E.used_contracts.add("oclgrind::WorkItem::getOperand(llvm::Value const*) const")
        return [(s, q.r.lv.tv()) for s, q in E.resolve(st, a[1])]
    M_["oclgrind::WorkItem::getOperand"] = getop
def typesize(E, st, a, I):
    x = a[0]
    if isinstance(x, Ptr): return st.load(E, x, 8)
    return x
TYK = {"FixedVectorType": "vec", "VectorType": "vec", "StructType": "struct", "ArrayType": "arr", "PointerType": "ptr", "IntegerType": "int"}
def castty(E, st, a, I):
    fn = E.mod.fns[I["fn"]].dem; m = re.search(r"llvm::(dyn_)?cast(?:_or_null)?<llvm::(\w+Type),", fn)
    t = ltof(E, st, a[0]); ok = TYK.get(m.group(2)) == t.k
    if m.group(2) not in TYK: raise Unsupported(fn)
    if ok: return _one(E, st, a[0])
    if m.group(1): return NULL
    E.oblige(st, False, "cast to the right type class", E.cur); return Outcome("unreach", st)
def isaty(E, st, a, I):
    fn = E.mod.fns[I["fn"]].dem; m = re.search(r"isa<llvm::(\w+Type),", fn)
    p = a[0]
    q = _one(E, st, p)
    if not hasattr(q.r, "lt"): q = _one(E, st, st.load(E, q, 8, "ptr"))
    return TYK[m.group(1)] == q.r.lt.k
