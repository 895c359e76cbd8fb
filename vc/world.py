"""Symbolic pre-states (preconditions and representation invariants) for the objects of /repo."""
import z3
from engine import *

class MemWorld:
    """An arbitrary oclgrind::Memory: any split of address bits, any number of slots, any set of live
    allocations with arbitrary sizes, flags and contents."""
    def __init__(self, E, st, name="mem", bits=None, addrspace=None):
        self.E = E; m = E.mod; n = name
        f = lambda *p: m.field("Memory", *p)
        self.obj = Region(n); self.obj.size = m.sizeof("Memory")
        self.this = Ptr(self.obj)
        self.bits = z3.BitVec(n + ".bits", 32) if bits is None else bits
        self.N = z3.BitVec(n + ".slots", 64)
        self.live = z3.Function(n + "_live", z3.BitVecSort(64), z3.BoolSort())
        self.sizef = z3.Function(n + "_size", z3.BitVecSort(64), z3.BitVecSort(64))
        self.flagsf = z3.Function(n + "_flags", z3.BitVecSort(64), z3.BitVecSort(64))
        self.buf = Region(n + "_buf", fam=True); self.data = Region(n + "_data", mode="byte", fam=True)
        self.tbl = Region(n + "_tbl")
        self.tbl.schemafn = lambda off: self._slot
        self.tbl.size = self.N * 8
        B = lambda k: m.field("Memory::Buffer", k)
        self.bo = dict(size=B("size"), flags=B("flags"), data=B("data"))
        self.buf.schema = {self.bo["size"]: lambda E, i, o, t: self.sizef(bvv(i, 64)), self.bo["flags"]: lambda E, i, o, t: self.flagsf(bvv(i, 64)),
                           self.bo["data"]: lambda E, i, o, t: Ptr(self.data, 0, i)}
        self.buf.size = m.sizeof("Memory::Buffer")
        self.data.size = lambda i: self.sizef(bvv(i, 64))
        self.off = {k: f(k) for k in ("m_context", "m_freeBuffers", "m_memory", "m_addressSpace", "m_totalAllocated", "m_numBitsBuffer", "m_numBitsAddress", "m_maxNumBuffers", "m_maxBufferSize")}
        o = self.obj.base
        def put(k, n, v): o[("c", self.off[k], n)] = v
        self.ctx = Region(n + "_ctx"); put("m_context", 8, Ptr(self.ctx))
        put("m_memory", 8, Ptr(self.tbl, 0)); o[("c", self.off["m_memory"] + 8, 8)] = Ptr(self.tbl, self.N * 8)
        self.nba = z3.BitVecVal(64, 32) - self.bits if not isc(self.bits) else 64 - self.bits
        put("m_numBitsBuffer", 4, self.bits); put("m_numBitsAddress", 4, self.nba)
        b64 = zext(self.bits, 32, 64); nba64 = zext(self.nba, 32, 64)
        one = z3.BitVecVal(1, 64)
        self.maxnum = z3.simplify((one << b64) - 1); self.maxsize = z3.simplify(one << nba64)
        put("m_maxNumBuffers", 8, self.maxnum); put("m_maxBufferSize", 8, self.maxsize)
        self.total = z3.BitVec(n + ".total", 64); put("m_totalAllocated", 8, self.total)
        self.aspace = z3.BitVec(n + ".aspace", 32) if addrspace is None else addrspace
        put("m_addressSpace", 4, self.aspace)
        if not isc(self.bits): st.assume(z3.And(z3.UGE(self.bits, 4), z3.ULE(self.bits, 31)))
        st.assume(z3.And(z3.UGE(self.N, 1), z3.ULE(self.N, self.maxnum)))
        st.assume(z3.Not(self.live(z3.BitVecVal(0, 64))))
        for nm, t in (("bits", self.bits), ("slots", self.N), ("total", self.total), ("addrspace", self.aspace)): 
            if not isc(t): E.inputs["%s.%s" % (n, nm)] = t
    def _slot(self, E, inst, off, tag):
        s = (z3.LShR(off, 3) if not isc(off) else z3.BitVecVal(off >> 3, 64))
        s = z3.simplify(s)
        # off is 8*slot: undo the scaling syntactically where possible
        s = unscale8(off)
        live = self.live(s)
        return pite(live, Ptr(self.buf, 0, s), NULL)
    def split(self, a):
        nba64 = zext(self.nba, 32, 64); b64 = zext(self.bits, 32, 64)
        return z3.LShR(bvv(a, 64), nba64), bvv(a, 64) & z3.LShR(z3.BitVecVal(M(64), 64), b64)
    def islive(self, s): return z3.And(s != 0, z3.ULT(s, self.N), self.live(s))
    def inv_at(self, s):
        """the representation invariant instantiated at slot s"""
        return z3.Implies(self.live(s), z3.And(s != 0, z3.ULE(self.sizef(s), self.maxsize)))
    def accept(self, a, n):
        s, o = self.split(a); n = bvv(n, 64)
        return z3.And(self.islive(s), z3.ULE(o, self.sizef(s)), z3.ULE(n, self.sizef(s) - o))
    def addr(self, E, nm):
        a = z3.BitVec(nm, 64); E.inputs[nm] = a
        s, o = self.split(a)
        E.inputs[nm + ".slot"] = s; E.inputs[nm + ".offset"] = o
        E.inputs[nm + ".slot_size"] = self.sizef(s); E.inputs[nm + ".slot_live"] = self.islive(s)
        return a

def unscale8(off):
    if isc(off): return z3.BitVecVal(off >> 3, 64)
    d = off.decl().kind()
    if d == z3.Z3_OP_BSHL and z3.is_bv_value(off.arg(1)) and off.arg(1).as_long() == 3: return off.arg(0)
    if d == z3.Z3_OP_BMUL:
        for i in (0, 1):
            if z3.is_bv_value(off.arg(i)) and off.arg(i).as_long() == 8: return off.arg(1 - i)
    return z3.LShR(off, 3)
