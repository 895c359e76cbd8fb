"""Verification-condition generator over LLVM IR (symbolic execution + contracts + loop invariants).

Every function is executed symbolically on all inputs admitted by its precondition.  A call is replaced by
the callee's contract (a *functional specification*: a relation from pre-state to post-state) when the callee
is under contract, by a dependency model when it is a library/LLVM function with an assumed contract, and is
inlined otherwise (so helpers extracted by a refactoring need no contract of their own).  A loop is cut with an
inductive invariant (candidate set filtered to its largest inductive subset), or unrolled when its trip count is
concrete.  Obligations are discharged with z3 (cvc5 as second back end).
"""
import os, re, time, itertools
import z3

class Havocked(Exception): pass
class Unsupported(Exception): pass
class LoopBound(Unsupported): pass

# ---------------------------------------------------------------- terms
def isc(x): return type(x) is int
def bvv(x, w):
    if type(x) is int: return z3.BitVecVal(x, w)
    if type(x) is PI: raise Unsupported("pointer used as integer")
    return x
def M(w): return (1 << w) - 1
def sgn(x, w): return x - (1 << w) if x >> (w - 1) else x
def width(x): return x.size()
def b2z(c): return z3.BoolVal(c) if isinstance(c, bool) else c
def Not(c): return (not c) if isinstance(c, bool) else z3.Not(c)
def And(*cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def Or(*cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def Implies(a, b): return Or(Not(a), b)
def eq(a, b, w=None):
    if isc(a) and isc(b): return a == b
    if isc(a): a, b = b, a
    if isc(b): return a == z3.BitVecVal(b, a.size())
    if a.eq(b): return True
    if a.size() != b.size(): raise Unsupported("eq width %d %d" % (a.size(), b.size()))
    return a == b
def ite(c, a, b, w=None):
    if c is True: return a
    if c is False: return b
    if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)): return pite(c, a, b)
    if isinstance(a, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else Not(c))
        return z3.If(c, b2z(a), b2z(b))
    if isinstance(a, tuple): return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isc(a) and isc(b):
        if a == b: return a
        if w is None: raise Unsupported("ite width")
        return z3.If(c, bvv(a, w), bvv(b, w))
    if type(a) is PI or type(b) is PI:
        if type(a) is PI and type(b) is PI: return PI(pite(c, a.p, b.p))
        raise Unsupported("ite of pointer-int")
    if isc(a): return z3.If(c, z3.BitVecVal(a, b.size()), b)
    if isc(b): return z3.If(c, a, z3.BitVecVal(b, a.size()))
    if a.eq(b): return a
    return z3.If(c, a, b)
def add(a, b, w):
    if isc(a) and isc(b): return (a + b) & M(w)
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return bvv(a, w) + bvv(b, w)
def sub(a, b, w):
    if isc(a) and isc(b): return (a - b) & M(w)
    if isc(b) and b == 0: return a
    if not isc(a) and not isc(b) and a.eq(b): return 0
    return bvv(a, w) - bvv(b, w)
def mul(a, b, w):
    if isc(a) and isc(b): return (a * b) & M(w)
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return a << (b.bit_length() - 1)
    return bvv(a, w) * bvv(b, w)
def ult(a, b, w):
    if isc(a) and isc(b): return a < b
    if isc(b) and b == 0: return False
    return z3.ULT(bvv(a, w), bvv(b, w))
def ule(a, b, w): return Not(ult(b, a, w))
def slt(a, b, w):
    if isc(a) and isc(b): return sgn(a, w) < sgn(b, w)
    return bvv(a, w) < bvv(b, w)
def extract(hi, lo, x, w):
    if isc(x): return (x >> lo) & M(hi - lo + 1)
    if lo == 0 and hi == w - 1: return x
    return z3.simplify(z3.Extract(hi, lo, x)) if x.num_args() <= 2 else z3.Extract(hi, lo, x)
def zext(x, w, to):
    if isc(x) or w == to: return x
    return z3.ZeroExt(to - w, x)
def sext(x, w, to):
    if w == to: return x
    if isc(x): return sgn(x, w) & M(to)
    return z3.SignExt(to - w, x)
def trunc(x, w, to):
    if w == to: return x
    return extract(to - 1, 0, x, w)
def concat_bytes(bs):
    """little endian list of byte terms -> value of 8*len bits"""
    n = len(bs)
    if n == 1: return bs[0]
    if all(isc(b) for b in bs):
        r = 0
        for i, b in enumerate(bs): r |= b << (8 * i)
        return r
    return z3.simplify(z3.Concat(*[bvv(b, 8) for b in reversed(bs)]))
_diff_cache = {}
def diff(a, b, w=64):
    """a-b as int if syntactically constant, else None"""
    if isc(a) and isc(b): return (a - b) & M(w)
    if not isc(a) and not isc(b) and a.eq(b): return 0
    k = (a if isc(a) else ("t", a.get_id()), b if isc(b) else ("t", b.get_id()))
    r = _diff_cache.get(k)
    if r is None:
        s = z3.simplify(bvv(a, w) - bvv(b, w))
        r = (s.as_long() if z3.is_bv_value(s) else None, a, b)
        _diff_cache[k] = r
    return r[0]
_fresh = itertools.count()
def fresh(name, w): return z3.BitVec("%s!%d" % (name, next(_fresh)), w)
def freshb(name): return z3.Bool("%s!%d" % (name, next(_fresh)))

# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ("r", "off", "inst")
    def __init__(self, r, off=0, inst=0): self.r = r; self.off = off; self.inst = inst
    def __repr__(self): return "Ptr(%s,%s,%s)" % (self.r.name if self.r else None, self.inst, self.off)
NULL = Ptr(None, 0)
class FnP:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return "Fn(%s)" % self.name
class PIte:
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return "PIte(%s,%s,%s)" % (self.c, self.a, self.b)
class PI:
    """pointer value held in an integer"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
class Undef: pass
UNDEF = Undef()

def pite(c, a, b):
    if c is True: return a
    if c is False: return b
    if type(a) is PI: a = a.p
    if type(b) is PI: b = b.p
    if isc(a): a = Ptr(None, a)
    if isc(b): b = Ptr(None, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return Ptr(a.r, ite(c, a.off, b.off, 64), ite(c, a.inst, b.inst, 64))
    return PIte(c, a, b)
def pmap(p, f):
    if isinstance(p, PIte): return pite(p.c, pmap(p.a, f), pmap(p.b, f))
    return f(p)
def pgep(p, d):
    if isc(d) and d == 0: return p
    return pmap(p, lambda q: Ptr(q.r, add(q.off, d, 64), q.inst))
def peq(p, q):
    if isinstance(p, PIte): return bite(p.c, peq(p.a, q), peq(p.b, q))
    if isinstance(q, PIte): return bite(q.c, peq(p, q.a), peq(p, q.b))
    if isinstance(p, FnP) or isinstance(q, FnP):
        return isinstance(p, FnP) and isinstance(q, FnP) and p.name == q.name
    if p.r is q.r: return And(eq(p.inst, q.inst), eq(p.off, q.off))
    return False
def bite(c, a, b):
    if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b): return a
    return ite(c, a, b)

# ---------------------------------------------------------------- regions
class Region:
    """mode 'byte': flat bytes; mode 'cell': typed cells (same-size accesses at an offset, or disjoint).
    fam=True: a family of objects indexed by inst (inst 0 = null)."""
    n = itertools.count()
    def __init__(self, name, mode="cell", fam=False, size=None, schema=None, uninit=False, const=None, local=False):
        self.name = name; self.mode = mode; self.fam = fam; self.size = size
        self.schema = schema or {}      # off -> fn(E, inst) -> value  | value
        self.schemafn = None
        self.uninit = uninit; self.const = const; self.local = local
        self.base = {}; self.id = next(Region.n); self.stride = None
        self.uf = None; self.freed = None
    def __repr__(self): return "<%s>" % self.name
    def byte0(self, inst, off):
        if self.const is not None and isc(off):
            return self.const[off] if 0 <= off < len(self.const) else 0
        if self.uf is None:
            if self.fam: self.uf = z3.Function("mem_%s" % self.name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8))
            else: self.uf = z3.Function("mem_%s" % self.name, z3.BitVecSort(64), z3.BitVecSort(8))
        if self.fam: return self.uf(bvv(inst, 64), bvv(off, 64))
        return self.uf(bvv(off, 64))

class Node:
    __slots__ = ("k", "prev", "inst", "off", "n", "v", "x")
    def __init__(self, k, prev, inst=0, off=0, n=0, v=None, x=None):
        self.k = k; self.prev = prev; self.inst = inst; self.off = off; self.n = n; self.v = v; self.x = x

class State:
    __slots__ = ("mem", "pc", "ghost", "imprecise")
    def __init__(self):
        self.mem = {}; self.pc = []; self.ghost = {}; self.imprecise = None
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost); s.imprecise = self.imprecise
        return s
    def assume(self, c):
        if c is True: return self
        self.pc.append(b2z(c)); return self
    # ---- memory
    def node(self, r): return self.mem.get(r)
    def load(self, E, p, n, ty=None):
        """n bytes at p; returns BV (8n bits) / int / Ptr / PIte / PI"""
        if isinstance(p, PIte): return ite(p.c, self.load(E, p.a, n, ty), self.load(E, p.b, n, ty), 8 * n)
        if type(p) is not Ptr or p.r is None: raise Unsupported("load through null/opaque pointer %r" % (p,))
        return E.mload(p.r, self.mem.get(p.r), p.inst, p.off, n, ty)
    def store(self, E, p, n, v):
        if type(p) is not Ptr or p.r is None: raise Unsupported("store through null/opaque %r" % (p,))
        if type(v) is Undef: v = fresh("undef", 8 * n)
        self.mem[p.r] = Node("St", self.mem.get(p.r), p.inst, p.off, n, v)
    def byte(self, E, r, inst, off): return E.mload(r, self.mem.get(r), inst, off, 1, None)
    def log(self, key, item):
        self.ghost[key] = self.ghost.get(key, ()) + (item,)

class Outcome:
    __slots__ = ("kind", "st", "val", "blk", "prev", "env")
    def __init__(self, kind, st, val=None, blk=None, prev=None, env=None):
        self.kind = kind; self.st = st; self.val = val; self.blk = blk; self.prev = prev; self.env = env

FP = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}
RNE = z3.RNE()
RMS = {0: z3.RNE(), 0x400: z3.RTN(), 0x800: z3.RTP(), 0xc00: z3.RTZ()}     # <fenv.h> rounding modes on x86-64
def fp(x, w):
    if w == 80: return z3.fpBVToFP(z3.Extract(78, 0, bvv(x, 80)), FP[80])      # held without the explicit integer bit
    x = bvv(x, w)
    if z3.is_app_of(x, z3.Z3_OP_FPA_TO_IEEE_BV): return x.arg(0)
    return z3.fpBVToFP(x, FP[w])
def fpbits(f): return z3.fpToIEEEBV(f) if f.sort() != FP[80] else z3.Concat(z3.BitVecVal(0, 1), z3.fpToIEEEBV(f))

class Obl:
    __slots__ = ("name", "ok", "time", "backend", "model", "loc", "imprecise", "detail")
    def __init__(self, name, ok, t, be, model, loc, imp, detail=None):
        self.name = name; self.ok = ok; self.time = t; self.backend = be; self.model = model; self.loc = loc; self.imprecise = imp; self.detail = detail

def opdiv(op, X, Y):
    """division as an uninterpreted function (what is proved holds for every function, so for division)"""
    return z3.Function("%s%d" % (op, X.size()), X.sort(), X.sort(), X.sort())(X, Y)
class Engine:
    def __init__(self, mod, fn_label="", timeout=20000, loop_mode="inv", max_unroll=80):
        self.mod = mod; self.label = fn_label
        self.models = {}          # exact name (mangled / demangled / demangled-without-args) -> handler
        self.rmodels = []         # (regex, handler)
        self.mcache = {}
        self.obls = []; self.suppress = 0; self.absregion = None; self.modcache = {}; self.follow_throw = False; self.lpad = (NULL, 0); self.satcache = {}; self._ab = Abstractor(); self.opaque_div = False; self.cut_nested = False; self.cut_first = False; self.coarse_sat = False
        self.inputs = {}          # name -> term, for counterexamples
        self.timeout = timeout; self.loop_mode = loop_mode; self.max_unroll = max_unroll
        self.gregions = {}
        self.used_contracts = set(); self.used_models = set(); self.inlined = set(); self.bounded_loops = 0
        self.inv_loops = 0; self.inv_used = []
        self.axioms = []
        self.discovering = 0
        self.only_hints = False   # no generic candidates
        self.try_unroll = 0       # loops that end within this many iterations on all paths are unrolled
        self.cut_at = None        # cut loops at this iteration even if they cannot exit there
        self.hints = []           # extra invariant candidate generators
        self.lane = {}            # region -> (base, elemsize)
        self.spec_final = None; self.ghosts = {}
        self.lanes = {}           # region -> (ghost lane, lane size, specified lane value or None): element-wise loops
        self.solver_time = 0.0; self.queries = 0
        self.depth = 0; self.cur = ""
        self.fpdef = {}
        self.mulhook = None
        self.rm = RNE; self.fenvr = None      # current rounding mode; ghost region holding it where <fenv.h> is used
        self.safety = True
        self.deadline = None
        self.noinline = None
        self.skip_summary = None
        self.divs = True
        self.watch = None
        self.cmplog = None
    # ------------------------------------------------------------ solving
    def _solver(self, timeout):
        s = z3.Solver(); s.set("timeout", timeout)
        for a in self.axioms: s.add(a)
        return s
    def sat(self, pc, extra=None, timeout=3000):
        """may return True when unknown"""
        self.queries += 1
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget")
        t = time.time()
        s = self._solver(timeout)
        if self.coarse_sat:
            # products and quotients as uninterpreted functions: unsatisfiable there => infeasible
            cs = [b2z(c) for c in list(pc) + ([extra] if extra is not None else [])]
            key = frozenset(c.get_id() for c in cs)
            if key in self.satcache: return self.satcache[key][0]
            for c in cs: s.add(self._ab.rw(c))
            r = s.check(); self.satcache[key] = (r != z3.unsat, cs); self.solver_time += time.time() - t
            return r != z3.unsat
        else:
            for c in pc: s.add(c)
            if extra is not None: s.add(extra)
        r = s.check()
        self.solver_time += time.time() - t
        return r != z3.unsat
    def prove_raw(self, pc, goal, timeout=None):
        """-> (status, backend, model, time)"""
        if goal is True: return ("valid", "const", None, 0.0)
        timeout = timeout or self.timeout
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget")
        t = time.time(); self.queries += 1
        g = z3.Not(b2z(goal))
        def run(s):
            for a in self.axioms: s.add(a)
            for c in pc: s.add(c)
            s.add(g)
            return s.check()
        ab = Abstractor(); hard = False
        try:
            apc = [ab.rw(b2z(c)) for c in self.axioms + list(pc)] + [ab.rw(g)]
            hard = ab.hit
        except (z3.Z3Exception, RecursionError): pass
        plan = ([("z3-abstract", min(4000, timeout))] if hard else []) + [("z3", min(3000, timeout))] + ([] if ab.fp else [("z3-qfufbv", timeout)]) + [("z3", timeout)]
        if hard and self.coarse_sat and self.suppress: plan = plan[:1]      # candidate invariants: cheap attempts only
        for be, to in plan:
            s = z3.SolverFor("QF_UFBV") if be == "z3-qfufbv" else z3.Solver()
            s.set("timeout", to)
            try:
                if be == "z3-abstract":
                    # division, multiplication and floating-point islands as uninterpreted functions: valid there => valid
                    for c in apc: s.add(c)
                    r = s.check()
                    if r != z3.unsat: continue
                else: r = run(s)
            except z3.Z3Exception: continue
            if r == z3.unsat:
                dt = time.time() - t; self.solver_time += dt
                return ("valid", be, None, dt)
            if r == z3.sat:
                dt = time.time() - t; self.solver_time += dt
                return ("invalid", be, s.model(), dt)
        r = None if hard and self.coarse_sat and self.suppress else self._cvc5(pc, g, timeout)
        dt = time.time() - t; self.solver_time += dt
        if r == "unsat": return ("valid", "cvc5", None, dt)
        return ("unknown", "z3+cvc5", None, dt)
    def _cvc5(self, pc, g, timeout):
        try:
            import subprocess
            s = z3.Solver()
            for a in self.axioms: s.add(a)
            for c in pc: s.add(c)
            s.add(g)
            txt = "(set-logic ALL)\n" + s.to_smt2()
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
            return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
        except Exception: return "unknown"
    def oblige(self, st, goal, name, loc=None, detail=None):
        if self.suppress: return
        if goal is True: pass
        status, be, m, dt = self.prove_raw(st.pc, goal)
        model = None
        if status == "invalid":
            model = {}
            for k, v in self.inputs.items():
                try:
                    x = m.eval(v, model_completion=True)
                    model[k] = x.as_long() if z3.is_bv_value(x) else (z3.is_true(x) if z3.is_bool(x) else str(x))
                except Exception: pass
            if callable(detail):
                try: detail = detail(m)
                except Exception as e: detail = "detail failed: %s" % e
        self.obls.append(Obl(name, {"valid": True, "invalid": False}.get(status), dt, be, model, loc or self.cur, st.imprecise, detail if not callable(detail) else None))
        return status
    # ------------------------------------------------------------ memory
    def mload(self, r, node, inst, off, n, ty):
        w = 8 * n
        if r.mode == "byte" and n > 1 and ty != "ptr":
            # whole-access fast path only for an identical most recent store; otherwise bytewise
            nd = node
            while nd is not None and nd.k == "St" :
                d = diff(off, nd.off); same = diff(inst, nd.inst) if r.fam else 0
                if same is None or d is None: break
                if same != 0: nd = nd.prev; continue
                if d == 0 and nd.n == n: return nd.v
                if d >= nd.n and (1 << 64) - d >= n: nd = nd.prev; continue
                break
            return concat_bytes([self.mbyte(r, node, inst, add(off, i, 64)) for i in range(n)])
        if n == 1 and r.mode == "byte": return self.mbyte(r, node, inst, off)
        nd = node; acc = []      # acc: pending (cond, value)
        def done(v):
            for c, x in reversed(acc): v = ite(c, x, v, w)
            return v
        while nd is not None:
            if nd.k == "St":
                ci = True if not r.fam else eq(inst, nd.inst)
                if ci is False: nd = nd.prev; continue
                d = diff(off, nd.off)
                if d is not None:
                    if d == 0 and nd.n == n:
                        if ci is True: return done(self.coerce(nd.v, n, ty))
                        acc.append((ci, self.coerce(nd.v, n, ty))); nd = nd.prev; continue
                    if d >= nd.n and (1 << 64) - d >= n: nd = nd.prev; continue
                    # partial overlap
                    if ci is not True: raise Unsupported("partial overlap in family cell %s" % r.name)
                    return done(concat_bytes([self.mbyte(r, nd, inst, add(off, i, 64)) for i in range(n)]))
                if r.stride:
                    # cells of an array of records: different fields never alias
                    fa, fb = self.fieldof(r, off), self.fieldof(r, nd.off)
                    if fa is not None and fb is not None and fa != fb: nd = nd.prev; continue
                if nd.n == n:
                    c = And(ci, eq(off, nd.off))
                    if c is not False: acc.append((c, self.coerce(nd.v, n, ty)))
                    nd = nd.prev; continue
                return done(concat_bytes([self.mbyte(r, nd, inst, add(off, i, 64)) for i in range(n)]))
            elif nd.k == "Cp":
                ci = True if not r.fam else eq(inst, nd.inst)
                if ci is False: nd = nd.prev; continue
                d = diff(off, nd.off)
                if d is not None and isc(nd.n):
                    if d + n <= nd.n:
                        sr, sn, si, so = nd.x
                        v = self.mload(sr, sn, si, add(so, d, 64), n, ty)
                        if ci is True: return done(v)
                        acc.append((ci, v)); nd = nd.prev; continue
                    if d >= nd.n and (1 << 64) - d >= n: nd = nd.prev; continue
                return done(concat_bytes([self.mbyte(r, nd, inst, add(off, i, 64)) for i in range(n)]))
            elif nd.k == "Hv":
                if nd.v is None or nd.v(inst, off, n):
                    return done(self.hvcell(r, nd, inst, off, n, ty))
                nd = nd.prev
            elif nd.k == "Fn":
                v = nd.v(self, inst, off, n, ty, nd.prev)
                if v is not NotImplemented: return done(v)
                return done(concat_bytes([self.mbyte(r, nd, inst, add(off, i, 64)) for i in range(n)]))
            else: raise Unsupported("node " + nd.k)
        return done(self.base(r, inst, off, n, ty))
    def fieldof(self, r, off):
        if isc(off): return off % r.stride
        s = z3.simplify(off)
        if s.decl().kind() == z3.Z3_OP_BADD:
            for i in range(s.num_args()):
                a = s.arg(i)
                if z3.is_bv_value(a): return a.as_long() % r.stride
        return 0
    def hvcell(self, r, nd, inst, off, n, ty):
        key = (nd.x, off if isc(off) else None, n, ty == "ptr")
        if ty == "ptr":
            sch = self.schema_at(r, off)
            if sch is None: raise Unsupported("havocked pointer cell %s" % r.name)
            return sch(self, inst, off, "h%s" % nd.x)
        if r.fam:
            if isc(off):
                f = z3.Function("hv%s_%s_%s_%d" % (nd.x, r.name, off, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
                return f(bvv(inst, 64))
            f = z3.Function("hv%s_%s_%d" % (nd.x, r.name, n), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            return f(bvv(inst, 64), bvv(off, 64))
        f = z3.Function("hv%s_%s_%d" % (nd.x, r.name, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
        return f(bvv(off, 64))
    def schema_at(self, r, off):
        if r.schemafn: return r.schemafn(off)
        if isc(off): return r.schema.get(off)
        return r.schema.get("*")
    def coerce(self, v, n, ty):
        if ty == "ptr":
            if type(v) is PI: return v.p
            if isc(v): return Ptr(None, v)
        elif isinstance(v, (Ptr, PIte, FnP)): return PI(v)
        return v
    def base(self, r, inst, off, n, ty):
        if r.const is not None and isc(off):
            rel = r.base.get(off)
            if rel is not None: return self.coerce(rel, n, ty)
            v = 0
            for i in range(n): v |= (r.const[off + i] if 0 <= off + i < len(r.const) else 0) << (8 * i)
            return self.coerce(v, n, ty)
        sch = self.schema_at(r, off)
        if sch is not None:
            v = sch(self, inst, off, "0") if callable(sch) else sch
            return self.coerce(v, n, ty)
        if r.mode == "byte":
            if ty == "ptr": raise Unsupported("pointer load from raw bytes %s" % r.name)
            return concat_bytes([r.byte0(inst, add(off, i, 64)) for i in range(n)])
        if r.fam:
            if not isc(off): raise Unsupported("symbolic offset in family cell %s" % r.name)
            if ty == "ptr": raise Unsupported("no schema for pointer field %s+%s" % (r.name, off))
            k = ("f", off, n)
            f = r.base.get(k)
            if f is None:
                self.check_overlap(r, off, n)
                f = r.base[k] = z3.Function("%s_f%d_%d" % (r.name, off, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            return f(bvv(inst, 64))
        if not isc(off):
            if ty == "ptr": raise Unsupported("pointer at symbolic offset in %s" % r.name)
            f = z3.Function("%s_c%d" % (r.name, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            return f(bvv(off, 64))
        k = ("c", off, n)
        v = r.base.get(k)
        if v is None:
            if ty == "ptr":
                v = self.lazy_ptr(r, off)
            else:
                self.check_overlap(r, off, n)
                v = z3.BitVec("%s.%d_%d" % (r.name, off, n), 8 * n)
            r.base[k] = v
        return self.coerce(v, n, ty)
    def check_overlap(self, r, off, n):
        for k in r.base:
            if isinstance(k, tuple) and k[0] in "cf" and k[1] < off + n and off < k[1] + k[2]:
                raise Unsupported("overlapping initial cells in %s at %d" % (r.name, off))
    def lazy_ptr(self, r, off):
        if r.uninit: return Ptr(Region("uninitptr"))
        return Ptr(Region("%s.%d" % (r.name, off)))
    def mbyte(self, r, node, inst, off):
        nd = node; acc = []
        def done(v):
            for c, x in reversed(acc): v = ite(c, x, v, 8)
            return v
        while nd is not None:
            if nd.k == "St":
                ci = True if not r.fam else eq(inst, nd.inst)
                if ci is False: nd = nd.prev; continue
                d = diff(off, nd.off)
                v = nd.v
                if isinstance(v, Ptr) and v.r is None: v = bvv(v.off, 64)
                if isinstance(v, (Ptr, PIte, FnP, PI)):
                    if d is not None and d >= nd.n: nd = nd.prev; continue
                    raise Unsupported("byte access to stored pointer")
                if d is not None:
                    if d < nd.n:
                        b = extract(8 * d + 7, 8 * d, v, 8 * nd.n)
                        if ci is True: return done(b)
                        acc.append((ci, b))
                    nd = nd.prev; continue
                dd = sub(off, nd.off, 64)
                for i in range(nd.n):
                    acc.append((And(ci, eq(dd, i)), extract(8 * i + 7, 8 * i, v, 8 * nd.n)))
                nd = nd.prev
            elif nd.k == "Cp":
                ci = True if not r.fam else eq(inst, nd.inst)
                if ci is False: nd = nd.prev; continue
                dd = sub(off, nd.off, 64)
                inr = And(ci, ult(dd, nd.n, 64))
                if inr is False: nd = nd.prev; continue
                sr, sn, si, so = nd.x
                v = self.mbyte(sr, sn, si, add(so, dd, 64))
                if inr is True: return done(v)
                acc.append((inr, v)); nd = nd.prev
            elif nd.k == "Fl":
                ci = True if not r.fam else eq(inst, nd.inst)
                if ci is False: nd = nd.prev; continue
                inr = And(ci, ult(sub(off, nd.off, 64), nd.n, 64))
                if inr is True: return done(nd.v)
                if inr is not False: acc.append((inr, nd.v))
                nd = nd.prev
            elif nd.k == "Hv":
                if nd.v is None or nd.v(inst, off, 1):
                    if r.mode != "byte" and not isc(off): raise Unsupported("byte of havocked cell")
                    if r.fam: f = z3.Function("hvb%s_%s" % (nd.x, r.name), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8)); v = f(bvv(inst, 64), bvv(off, 64))
                    else: f = z3.Function("hvb%s_%s" % (nd.x, r.name), z3.BitVecSort(64), z3.BitVecSort(8)); v = f(bvv(off, 64))
                    return done(v)
                nd = nd.prev
            elif nd.k == "Fn":
                return done(nd.v(self, inst, off, 1, None, nd.prev))
            else: raise Unsupported("node " + nd.k)
        if r.mode == "byte": return done(r.byte0(inst, off) if not (r.const is not None and not isc(off)) else self.constbyte(r, off))
        # byte of a typed initial cell
        if isc(off):
            if r.const is not None: return done(self.base(r, inst, off, 1, None))
            for k, v in r.base.items():
                if isinstance(k, tuple) and k[0] == "c" and k[1] <= off < k[1] + k[2]:
                    if isinstance(v, (Ptr, PIte, FnP)): raise Unsupported("byte of pointer cell")
                    return done(extract(8 * (off - k[1]) + 7, 8 * (off - k[1]), v, 8 * k[2]))
            return done(self.base(r, inst, off, 1, None))
        return done(self.constbyte(r, off) if r.const is not None else self.base(r, inst, off, 1, None))
    def constbyte(self, r, off):
        v = 0
        for i, b in enumerate(r.const):
            v = ite(eq(off, i), b, v, 8)
        return v
    def memcpy(self, st, d, s, n, loc=None):
        if isc(n) and n == 0: return
        if type(d) is not Ptr or type(s) is not Ptr or d.r is None or s.r is None: raise Unsupported("memcpy through %r <- %r" % (d, s))
        st.mem[d.r] = Node("Cp", st.mem.get(d.r), d.inst, d.off, n, None, (s.r, st.mem.get(s.r), s.inst, s.off))
    def memset(self, st, d, v, n):
        if isc(n) and n == 0: return
        if type(d) is not Ptr or d.r is None: raise Unsupported("memset through %r" % (d,))
        if isc(n) and n <= 64 and d.r.mode == "cell":
            # typed cells: split to the largest naturally aligned pieces is unknowable; keep bytewise fill
            pass
        node = Node("Fl", st.mem.get(d.r), d.inst, d.off, n, v)
        if d.r.mode == "cell":
            def f(E, inst, off, k, ty, prev, node=node, r=d.r):
                c = True if not r.fam else eq(inst, node.inst)
                dd = diff(off, node.off)
                if dd is not None and isc(node.n):
                    if dd + k <= node.n:
                        if isc(node.v): val = int.from_bytes(bytes([node.v]) * k, "little")
                        else: val = concat_bytes([node.v] * k)
                        val = E.coerce(val, k, ty)
                        if c is True: return val
                        return ite(c, val, E.mload(r, prev, inst, off, k, ty), 8 * k)
                    if dd >= node.n and (1 << 64) - dd >= k: return E.mload(r, prev, inst, off, k, ty)
                if k == 1: return ite(And(c, ult(sub(off, node.off, 64), node.n, 64)), node.v, E.mbyte(r, prev, inst, off), 8)
                return NotImplemented
            node = Node("Fn", st.mem.get(d.r), v=f)
        st.mem[d.r] = node
    def writefn(self, st, r, f):
        """f(inst, off, prevbyte) -> byte"""
        def g(E, inst, off, n, ty, prev):
            if n != 1: return NotImplemented
            return f(inst, off, lambda: E.mbyte(r, prev, inst, off))
        st.mem[r] = Node("Fn", st.mem.get(r), v=g)
    def zero_from(self, st, r, base, old, new):
        """vector resize: elements [old,new) (bytes relative to base) become zero/null"""
        if r.mode == "byte": self.memset(st, pgep(base, old), 0, sub(new, old, 64)); return
        node = st.mem.get(r)
        def f(E, inst, off, n, ty, prev, base=base, old=old, new=new):
            d = sub(off, base.off, 64)
            c = And(ule(old, d, 64), ult(d, new, 64))
            z = NULL if ty == "ptr" else 0
            if c is True: return z
            try: p = E.mload(r, prev, inst, off, n, ty)
            except Unsupported:
                p = z if r.local else None
                if p is None: raise
            return ite(c, z, p, 8 * n)
        st.mem[r] = Node("Fn", node, v=f)
    # bounds check of a raw access
    def access_ok(self, st, p, n, what, loc):
        if p.r is None:
            if isc(n) and n == 0: return
            self.oblige(st, False, "no-null-dereference(%s)" % what, loc); return
        if not self.safety or p.r.size is None: return
        size = p.r.size(p.inst) if callable(p.r.size) else p.r.size
        if isc(p.off) and isc(n) and isc(size) and p.off + n <= size: return
        g = And(ule(p.off, size, 64), ule(n, sub(size, p.off, 64), 64))
        if isc(n) and n == 0: return
        if not isc(n): g = Or(eq(n, 0), g)
        self.oblige(st, g, "in-bounds(%s of %s)" % (what, p.r.name), loc)
    def resolve(self, st, p):
        """fork on multi-target pointers -> [(st, Ptr)]"""
        if type(p) is PI: p = p.p
        if isinstance(p, PIte):
            out = []
            for c, q in ((p.c, p.a), (Not(p.c), p.b)):
                if self.feasible(st, c):
                    s = st.fork(); s.assume(c); out += self.resolve(s, q)
            return out
        if isinstance(p, (Ptr, FnP)): return [(st, p)]
        if isc(p): return [(st, Ptr(None, p))]
        raise Unsupported("pointer value %r" % (p,))
    def feasible(self, st, c):
        if c is True: return True
        if c is False: return False
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.sat(st.pc, c)
    # ------------------------------------------------------------ globals
    def gptr(self, name):
        if name in self.mod.fns: return FnP(name)
        r = self.gregions.get(name)
        if r is None:
            g = self.mod.globals.get(name)
            if g is None:
                if name.startswith("_ZN") and name[-1] == "v": return FnP(name)     # alias of a destructor
                f2 = self.mod.fns.get(re.sub(r"([CD])1E", r"\g<1>2E", name)) if re.search(r"C1E|D1E", name) else None
                if f2 is not None: return FnP(f2.name)
                raise Unsupported("global " + name)
            r = Region("G:" + name)
            if g["const"] and "hex" in g:
                r.const = bytes.fromhex(g["hex"]); r.base = {}
                if all(True for _ in ()) : pass
                for off, o in g["rel"]:
                    r.base[off] = self.const_op(o)
                if not g["rel"]: r.mode = "byte" if False else "cell"
            if "size" in g: r.size = g["size"]
            self.gregions[name] = r
        return Ptr(r)
    def const_op(self, o):
        k = o[0]
        if k == "i":
            return bool(int(o[2])) if o[1] == 1 else int(o[2])
        if k == "f": return int(o[2])
        if k == "null": return NULL
        if k == "g": return self.gptr(o[1])
        if k == "gep": return pgep(self.const_op(o[1]), o[2] & M(64))
        if k == "undef": return UNDEF if not isinstance(o[1], dict) else self.undef_agg(o[1])
        if k == "zero": return self.zero(o[1])
        if k == "agg": return tuple(self.const_op(x) for x in o[2])
        if k == "ce" and o[1] == "inttoptr":
            v = self.const_op(o[3]); return Ptr(None, v)
        if k == "ce" and o[1] == "ptrtoint":
            return PI(self.const_op(o[3]))
        raise Unsupported("constant %r" % (o,))
    def undef_agg(self, t):
        if isinstance(t, dict):
            if t["k"] == "struct": return tuple(self.undef_agg(e[1]) for e in t["e"])
            return tuple(self.undef_agg(t["e"]) for _ in range(t["n"]))
        return UNDEF
    def zero(self, t):
        if isinstance(t, dict):
            if t["k"] == "struct": return tuple(self.zero(e[1]) for e in t["e"])
            return tuple(self.zero(t["e"]) for _ in range(t["n"]))
        if t == "ptr": return NULL
        if t == "i1": return False
        return 0
    # ------------------------------------------------------------ execution
    def call(self, name, st, args, inst=None):
        """call by mangled name -> outcomes (ret/throw)"""
        h = self.mcache.get(name)
        fn = self.mod.fns.get(name)
        if h is None:
            h = self.lookup(name, fn); self.mcache[name] = h
        if h != "inline":
            self.used_models.add(fn.dem if fn else name)
            r = h(self, st, args, inst)
            return self.norm(r, st)
        if (fn is None or fn.decl) and re.search(r"C1E|D1E", name):      # the complete constructor is an alias of the base one
            f2 = self.mod.fns.get(re.sub(r"([CD])1E", r"\g<1>2E", name))
            if f2 is not None and not f2.decl: fn = f2
        if fn is None or fn.decl: raise Unsupported("call to %s (no contract, no body)" % (fn.dem if fn else name))
        if self.depth > 60: raise Unsupported("inline depth (%s)" % fn.dem)
        self.inlined.add(fn.dem)
        return self.exec_fn(fn, args, st)
    def norm(self, r, st):
        if isinstance(r, list):
            out = []
            for x in r:
                if isinstance(x, Outcome): out.append(x)
                else: out.append(Outcome("ret", x[0], x[1]))
            return out
        if isinstance(r, Outcome): return [r]
        return [Outcome("ret", st, r)]
    def lookup(self, name, fn):
        if name in self.models: return self.models[name]
        if fn is not None:
            d = fn.dem
            if d in self.models: return self.models[d]
            b = d.split("(")[0]
            if b in self.models and "operator" not in b: return self.models[b]
            for rx, h in self.rmodels:
                if rx.search(d): return h
            import models as MD
            h = MD.default(name, d, fn)
            if h is not None: return h
        return "inline"
    def exec_fn(self, fn, args, st):
        env = {}
        if len(args) < len(fn.args): raise Unsupported("arity %s" % fn.dem)
        for a, v in zip(fn.args, args): env[a["id"]] = v
        self.depth += 1
        try:
            outs = self.exec_blocks(fn, 0, None, env, st)
        finally: self.depth -= 1
        return [o for o in outs if o.kind in ("ret", "throw")]
    def exec_blocks(self, fn, b0, prev0, env0, st0, region=None, stop=None):
        outs = []
        work = [(b0, prev0, env0, st0, True)]
        loops = fn.loops()
        while work:
            b, prev, env, st, first = work.pop()
            if not first:
                if b == stop: outs.append(Outcome("back", st, None, b, prev, env)); continue
            if region is not None and b not in region:
                outs.append(Outcome("exit", st, None, b, prev, env)); continue
            if b in loops and not (first and b == stop):
                for o in self.loop(fn, b, prev, env, st, loops[b]):
                    if o.kind == "exit": work.append((o.blk, o.prev, o.env, o.st, False))
                    else: outs.append(o)
                continue
            for o in self.block(fn, b, prev, env, st):
                if o.kind == "goto": work.append((o.blk, b, o.env, o.st, False))
                else: outs.append(o)
            if len(work) + len(outs) > 3000: raise Unsupported("path explosion in %s" % fn.dem)
        return outs
    # ---- loops
    def loop(self, fn, h, prev, env, st, body):
        outs = []
        if self.cut_nested and self.loop_mode == "inv" and any(x != h and x in fn.loops() for x in body): return self.inv_loop(fn, h, prev, env, st, body)
        if self.cut_first and self.loop_mode == "inv": return self.inv_loop(fn, h, prev, env, st, body)
        if self.try_unroll:
            fr = [(prev, dict(env), st.fork())]; n0 = len(self.obls)
            for it in range(self.try_unroll + 1):
                nxt = []
                for pv, en, s in fr:
                    for o in self.exec_blocks(fn, h, pv, en, s, region=body, stop=h):
                        if o.kind == "back": nxt.append((o.prev, o.env, o.st))
                        else: outs.append(o)
                fr = nxt
                if not fr: return outs
                if len(fr) > 200: break
            del self.obls[n0:]; outs = []
        frontier = [(prev, env, st)]
        start = (prev, dict(env), st.fork(), len(self.obls))
        for it in range(self.max_unroll + 1):
            nxt = []
            if it == self.cut_at: cut = ([(p, dict(e), s.fork()) for p, e, s in frontier], len(self.obls), len(outs))
            for pv, en, s in frontier:
                snap = len(self.obls)
                s0 = s.fork(); e0 = dict(en)
                res = self.exec_blocks(fn, h, pv, dict(en), s.fork(), region=body, stop=h)
                backs = [o for o in res if o.kind == "back"]
                exits = [o for o in res if o.kind != "back"]
                if backs and exits and any(o.kind == "exit" for o in exits) and self.loop_mode == "inv":
                    # (symbolic number of iterations): cut with an invariant
                    if self.lanes and it:
                        # element-wise loop: cut at the first iteration rather than after the concrete prefix
                        del self.obls[start[3]:]
                        return self.inv_loop(fn, h, start[0], start[1], start[2], body)
                    if self.cut_at is not None and it > self.cut_at:
                        fr, no, nn = cut
                        del self.obls[no:]; del outs[nn:]
                        for p, e, s1 in fr: outs += self.inv_loop(fn, h, p, e, s1, body)
                        return outs
                    del self.obls[snap:]
                    outs += self.inv_loop(fn, h, pv, e0, s0, body)
                    continue
                outs += exits
                for o in backs: nxt.append((o.prev, o.env, o.st))
            frontier = nxt
            if not frontier: return outs
            if len(frontier) > 400: raise LoopBound("too many loop states in %s" % fn.dem)
        raise LoopBound("loop bound in %s block %d" % (fn.dem, h))
    def phis(self, fn, b):
        r = []
        for i in fn.blocks[b]:
            if i["op"] != "phi": break
            r.append(i)
        return r
    def inv_loop(self, fn, h, prev, env, st, body):
        unknown = set(); no = len(self.obls)
        for _ in range(8):
            try: return self.inv_loop1(fn, h, prev, env, st.fork(), body, unknown)
            except Havocked as x: unknown.add(x.args[0]); del self.obls[no:]
        raise Unsupported("a pointer carried around the loop changes its object")
    def inv_loop1(self, fn, h, prev, env, st, body, unknown):
        self.unknown = unknown
        self.inv_loops += 1
        tag = next(_fresh)
        phis = self.phis(fn, h)
        entry = {}
        for p in phis:
            for o, pb in p["in"]:
                if pb == prev: entry[p["id"]] = self.opval(o, env, p["ty"])
        self.suppress += 1; disc0 = self.discovering
        try:
            mods = {r: (set(c) if c is not None else None) for r, c in self.modcache.get((fn.name, h), {}).items() if r in st.mem or r.base} if self.cut_nested else {}      # region -> set of (off,n,isptr) concrete cells or None (whole)
            # ---- discover what changes
            self.discovering += 1
            keep = set()   # phi ids that are loop invariant (pointer phis)
            for rnd in range(8):
                self.unknown = unknown; hst, henv, vars_ = self.havoc(fn, phis, entry, env, st, mods, tag, h)
                backs, others = self.iterate(fn, h, henv, hst, body)
                changed = False
                for o in backs:
                    for r, nd in o.st.mem.items():
                        if nd is hst.mem.get(r) : continue
                        if r not in st.mem and r.local: continue   # allocated inside the iteration
                        cur = mods.get(r, set())
                        x = nd; stopn = hst.mem.get(r)
                        if cur is None: continue
                        while x is not None and x is not stopn:
                            if x.k == "St" and isc(x.off) and not r.fam and r.mode != "byte":
                                key = (x.off, x.n, isinstance(x.v, (Ptr, PIte, FnP, PI)))
                                if key not in cur: cur = cur | {key}; changed = True
                            elif x.k == "Cp" and isc(x.off) and isc(x.n) and not r.fam and r.mode != "byte" and self._cp_cells(o.st, r, x) is not None:
                                for key in self._cp_cells(o.st, r, x):
                                    if key not in cur: cur = cur | {key}; changed = True
                            else:
                                cur = None; changed = True; break
                            x = x.prev
                        mods[r] = cur
                if not changed: break
            else: raise Unsupported("loop modification discovery in %s" % fn.dem)
            if self.cut_nested: self.modcache[(fn.name, h)] = mods
            if self.discovering > 1 and self.cut_nested: return self.after_loop(fn, h, phis, entry, env, st, mods, tag, body, unknown, [])
            # ---- candidates
            oldlog = self.cmplog; self.cmplog = []
            try:
                self.iterate(fn, h, henv, hst, body)
                cands = self.candidates(fn, h, body, phis, entry, st, hst, henv, vars_, backs, mods)
            finally: self.cmplog = oldlog
            self.discovering -= 1
            if self.discovering: cands = []      # an enclosing loop only looks for what changes: no facts needed yet
            # entry filter
            ev = self.entry_vars(vars_, entry, st)
            live = []
            for nm, c in cands:
                try: e = c(st, ev)
                except Unsupported: continue
                if e is True or self.prove_raw(st.pc, e, 4000)[0] == "valid": live.append((nm, c))
            if os.environ.get("VC_DEBUG"): print("cands", [n for n, _ in cands], "live", [n for n, _ in live], "mods", mods, flush=True)
            # induction filter
            while True:
                self.unknown = unknown; hst, henv, vars_ = self.havoc(fn, phis, entry, env, st, mods, tag, h)
                cv = {k: v[0] for k, v in vars_.items()}
                for nm, c in live: hst.assume(c(hst, cv))
                backs, others = self.iterate(fn, h, henv, hst, body)
                drop = set()
                for o in backs:
                    bvars = self.back_vars(fn, phis, vars_, o)
                    self.same_objects(fn, phis, vars_, o, henv, hst)
                    goals = []
                    for i, (nm, c) in enumerate(live):
                        if i in drop: continue
                        try: g = c(o.st, bvars)
                        except Unsupported: drop.add(i); continue
                        if g is True: continue
                        pv = getattr(c, "pivot", None)
                        if pv is not None:
                            if self.prove_pivot(o.st.pc, g, pv) != "valid": drop.add(i)
                            continue
                        goals.append((i, g))
                    # joint check first, then split
                    rest = [g for i, g in goals if i not in drop]
                    if rest and self.prove_raw(o.st.pc, And(*rest), 6000)[0] == "valid": continue
                    for i, g in goals:
                        rr = self.prove_raw(o.st.pc, g, 6000)
                        if rr[0] != "valid":
                            drop.add(i)
                            if os.environ.get("VC_DEBUG"): print("drop", live[i][0], rr[0], rr[1], rr[3], z3.simplify(g), flush=True)
                if not drop: break
                live = [x for i, x in enumerate(live) if i not in drop]
        finally: self.suppress -= 1; self.discovering = disc0
        self.inv_used.append((fn.dem.split("(")[0], [nm for nm, _ in live]))
        return self.after_loop(fn, h, phis, entry, env, st, mods, tag, body, unknown, live)
    def after_loop(self, fn, h, phis, entry, env, st, mods, tag, body, unknown, live):
        # ---- final run under the surviving invariant: body obligations + exits
        self.unknown = unknown; hst, henv, vars_ = self.havoc(fn, phis, entry, env, st, mods, tag, h)
        cv = {k: v[0] for k, v in vars_.items()}
        for nm, c in live: hst.assume(c(hst, cv))
        hst.imprecise = "after a loop cut by an inferred invariant (%s)" % fn.dem.split("(")[0]
        res = self.exec_blocks(fn, h, "HAVOC", henv, hst, region=body, stop=h)
        if not self.suppress:
            self.obls.append(Obl("loop-invariant(%s: %d facts initial and preserved)" % (fn.dem.split("(")[0], len(live)), True, 0.0, "z3", None, self.cur, None))
        return [o for o in res if o.kind != "back"]
    def prove_pivot(self, pc, goal, pv):
        """case split on ghost lane == loop counter, substituting in the equal case"""
        gl, i = pv
        sub1 = lambda t: z3.simplify(z3.substitute(b2z(t), (gl, i)))
        r = self.prove_raw([sub1(c) for c in pc], sub1(goal), 8000)[0]
        if r != "valid": return r
        return self.prove_raw(list(pc) + [gl != i], goal, 8000)[0]
    def _cp_cells(self, st, r, x):
        return None
    def iterate(self, fn, h, henv, hst, body):
        res = self.exec_blocks(fn, h, "HAVOC", dict(henv), hst.fork(), region=body, stop=h)
        return [o for o in res if o.kind == "back"], [o for o in res if o.kind != "back"]
    def havoc(self, fn, phis, entry, env, st, mods, tag, h):
        hst = st.fork(); henv = dict(env); vars_ = {}
        for p in phis:
            e = entry[p["id"]]; nm = "L%s_%d" % (tag, p["id"])
            if p["ty"] == "ptr":
                if isinstance(e, Ptr) and e.r is not None:
                    o = z3.BitVec(nm + "o", 64)
                    v = Ptr(e.r, o, e.inst); vars_[("po", p["id"])] = (o, 64)
                else: raise Unsupported("pointer phi %r" % (e,))
            elif p["ty"] == "i1": v = z3.Bool(nm)
            elif p["ty"] in ("f32", "f64"): v = z3.BitVec(nm, int(p["ty"][1:]))
            elif isinstance(p["ty"], str) and p["ty"][0] == "i":
                w = int(p["ty"][1:]); v = z3.BitVec(nm, w)
                if type(e) is not Undef: vars_[("p", p["id"])] = (v, w)
            else: raise Unsupported("phi type")
            henv[("hv", p["id"])] = v
            henv[p["id"]] = v
        henv["HAVOC"] = True
        for r, cells in mods.items():
            if r.local == "iter": continue
            if cells is None:
                hst.mem[r] = Node("Hv", hst.mem.get(r), x="%s_%d" % (tag, r.id))
            else:
                for (off, n, isp) in sorted(cells):
                    nm = "L%s_r%d_%d_%d" % (tag, r.id, off, n)
                    if isp and (r, off, n) in self.unknown: v = None
                    elif isp:
                        ev = st.load(self, Ptr(r, off), n, "ptr") if r in st.mem or r.base else None
                        if isinstance(ev, Ptr) and ev.r is not None:
                            o = z3.BitVec(nm + "o", 64); v = Ptr(ev.r, o, ev.inst); vars_[("mo", r, off, n)] = (o, 64)
                        else: v = UNDEF
                    else:
                        v = z3.BitVec(nm, 8 * n); vars_[("m", r, off, n)] = (v, 8 * n)
                    if v is None: hst.mem[r] = Node("St", hst.mem.get(r), 0, off, n, UNDEF)
                    elif v is UNDEF: hst.mem[r] = Node("Hv", hst.mem.get(r), x="%s_%d" % (tag, r.id))
                    else: hst.mem[r] = Node("St", hst.mem.get(r), 0, off, n, v)
        return hst, henv, vars_
    def entry_vars(self, vars_, entry, st):
        r = {}
        for k in vars_:
            if k[0] == "p": r[k] = entry[k[1]]
            elif k[0] == "po": r[k] = entry[k[1]].off
            elif k[0] == "m": r[k] = st.load(self, Ptr(k[1], k[2]), k[3])
            elif k[0] == "mo": r[k] = st.load(self, Ptr(k[1], k[2]), k[3], "ptr").off
        return r
    def back_vars(self, fn, phis, vars_, o):
        r = {}; bp = {}
        for p in phis:
            for x, pb in p["in"]:
                if pb == o.prev: bp[p["id"]] = self.opval(x, o.env, p["ty"])
        for k in vars_:
            if k[0] == "p": r[k] = bp[k[1]]
            elif k[0] == "po": r[k] = bp[k[1]].off
            elif k[0] == "m": r[k] = o.st.load(self, Ptr(k[1], k[2]), k[3])
            elif k[0] == "mo": r[k] = o.st.load(self, Ptr(k[1], k[2]), k[3], "ptr").off
        return r
    def same_objects(self, fn, phis, vars_, o, henv, hst):
        """a havocked pointer keeps its object and varies only in its offset: every back edge must agree"""
        for k in vars_:
            if k[0] == "po":
                p = next(x for x in phis if x["id"] == k[1]); a = henv[("hv", k[1])]
                b = next(self.opval(x, o.env, "ptr") for x, pb in p["in"] if pb == o.prev)
            elif k[0] == "mo": a = hst.load(self, Ptr(k[1], k[2]), k[3], "ptr"); b = o.st.load(self, Ptr(k[1], k[2]), k[3], "ptr")
            else: continue
            if type(a) is PI: a = a.p
            if type(b) is PI: b = b.p
            if isinstance(b, Ptr) and b.r is a.r:
                e = eq(bvv(a.inst, 64), bvv(b.inst, 64))
                if e is True or self.prove_raw(o.st.pc, e, 6000)[0] == "valid": continue
            if k[0] == "mo": raise Havocked(k[1:4])      # nothing is known about the cell at the loop head
            raise Unsupported("a pointer carried around the loop changes its object")
    def candidates(self, fn, h, body, phis, entry, st, hst, henv, vars_, backs, mods):
        C = []
        ev = self.entry_vars(vars_, entry, st)
        step = {}
        for k, (v, w) in vars_.items():
            cs = set()
            for o in backs:
                try: bv_ = self.back_vars(fn, phis, vars_, o)[k]
                except Unsupported: cs.add(None); continue
                if isinstance(bv_, (PI, Undef)): cs.add(None); continue
                s = z3.simplify(bvv(bv_, w) - v)
                cs.add(s.as_long() if z3.is_bv_value(s) else None)
            if len(cs) == 1 and None not in cs: step[k] = cs.pop()
        keys = list(vars_)
        lin = [k for k in keys if step.get(k)]
        # limits: operands of comparisons inside the loop
        limits = {}
        hvnames = set(str(v[0]) for v in vars_.values())
        for x, y, oty in (self.cmplog or []):
            for t in (x, y):
                if type(t) is PI: t = t.p
                if isinstance(t, Ptr):
                    if t.r is None: continue
                    t = t.off; w = 64
                elif isinstance(t, (PIte, FnP, Undef, bool, z3.BoolRef)): continue
                elif oty == "ptr": continue
                else: w = int(oty[1:])
                if w == 1: continue
                if not isc(t):
                    t = z3.simplify(t)
                    if any(str(n) in hvnames for n in z3util_vars(t)): continue
                    if z3.is_bv_value(t): t = t.as_long()
                limits.setdefault(w, []).append(t)
        for w in limits:
            seen = []; ids = set()
            for t in limits[w]:
                k = t if isc(t) else ("t", t.get_id())
                if k not in ids: ids.add(k); seen.append(t)
            limits[w] = seen[:10]
        for k in lin:
            w = vars_[k][1]; c = step[k]
            # relation between linear variables
            for k2 in lin:
                if k2 == k: continue
                c2 = step[k2]; w2 = vars_[k2][1]
                s1 = sgn(c, w); s2 = sgn(c2, w2)
                if s1 and s2 % s1 == 0:
                    q = s2 // s1
                    def f(s, v, k=k, k2=k2, q=q, w=w, w2=w2):
                        d1 = sub(v[k], ev[k], w)
                        d1 = sext(d1, w, w2) if w2 > w else trunc(d1, w, w2)
                        if w2 > w and not isc(d1):
                            # index differences are taken as unsigned when counting up
                            d1 = zext(sub(v[k], ev[k], w), w, w2) if s1 > 0 else d1
                        return eq(bvv(sub(v[k2], ev[k2], w2), w2), bvv(mul(d1, q & M(w2), w2), w2))
                    C.append(("linear", f))
            for X in limits.get(w, []):
                C.append(("<=u", lambda s, v, k=k, X=X, w=w: ule(v[k], X, w)))
                C.append(("<=s", lambda s, v, k=k, X=X, w=w: Not(slt(X, v[k], w))))
                C.append((">=u", lambda s, v, k=k, X=X, w=w: ule(X, v[k], w)))
                C.append((">=s-1", lambda s, v, k=k, X=X, w=w: Not(slt(v[k], sub(X, 1, w), w))))
                C.append((">=s", lambda s, v, k=k, X=X, w=w: Not(slt(v[k], X, w))))
            if abs(sgn(c, w)) > 1 and not isc(ev[k]) or abs(sgn(c, w)) > 1:
                cc = abs(sgn(c, w))
                if cc & (cc - 1) == 0:
                    C.append(("aligned", lambda s, v, k=k, w=w, cc=cc: eq(bvv(sub(v[k], ev[k], w), w) & (cc - 1), 0)))
            C.append((">=entry", lambda s, v, k=k, w=w: ule(ev[k], v[k], w)))
            C.append(("<=entry", lambda s, v, k=k, w=w: ule(v[k], ev[k], w)))
            C.append(("<=s entry", lambda s, v, k=k, w=w: Not(slt(ev[k], v[k], w))))
        # memory contents against the function's specified final state
        if self.spec_final is not None:
            for r, cells in mods.items():
                if r not in self.ghosts: continue
                gi, go = self.ghosts[r]
                try: T = self.spec_final.byte(self, r, gi, go)
                except Unsupported: continue
                I = st.byte(self, r, gi, go)
                base, size = self.lane.get(r, (0, 1))
                rel = sub(go, base, 64)
                sh = size.bit_length() - 1
                kk = rel if size == 1 else (z3.LShR(bvv(rel, 64), sh))
                cur = lambda s, r=r: s.byte(self, r, gi, go)
                C.append(("frame-or-done", lambda s, v, cur=cur: Or(eq(cur(s), I), eq(cur(s), T))))
                if z3.is_bv(T) or isc(T):
                    C.append(("outside-unchanged", lambda s, v, cur=cur: Implies(eq(T, I), eq(cur(s), I))))
                for k in list(vars_):
                    v0, w = vars_[k]
                    if k not in lin: continue
                    for dv in ({1} | {abs(sgn(step[k], w))}):
                        if dv & (dv - 1): continue
                        ds = dv.bit_length() - 1
                        for b0 in ((0, None) if isc(ev[k]) and ev[k] == 0 else (None, 0)):
                            def proc(v, k=k, w=w, ds=ds, b0=b0):
                                x = v[k] if b0 == 0 else sub(v[k], ev[k], w)
                                x = zext(x, w, 64)
                                if ds: x = x >> ds if isc(x) else z3.LShR(x, ds)
                                return x
                            C.append(("done-below", lambda s, v, cur=cur, proc=proc: Implies(ult(kk, proc(v), 64), eq(cur(s), T))))
                            C.append(("todo-above", lambda s, v, cur=cur, proc=proc: Implies(ule(proc(v), kk, 64), eq(cur(s), I))))
                    def sproc(v, k=k, w=w): return sext(v[k], w, 64)
                    C.append(("done-above", lambda s, v, cur=cur, sp=sproc: Implies(And(slt(sp(v), kk, 64), Not(slt(kk, 0, 64))), eq(cur(s), T))))
                    C.append(("todo-below", lambda s, v, cur=cur, sp=sproc: Implies(And(Not(slt(sp(v), kk, 64)), Not(slt(kk, 0, 64))), eq(cur(s), I))))
                    C.append(("done-from", lambda s, v, cur=cur, sp=sproc: Implies(And(Not(slt(kk, sp(v), 64)), Not(slt(kk, 0, 64))), eq(cur(s), T))))
                    C.append(("todo-upto", lambda s, v, cur=cur, sp=sproc: Implies(And(slt(kk, sp(v), 64), Not(slt(kk, 0, 64))), eq(cur(s), I))))
        for r, (gl, size, T, D) in self.lanes.items():
            if r not in mods: continue
            off = mul(gl, size, 64)
            I = st.load(self, Ptr(r, off), size)
            cur = lambda s, r=r, off=off, size=size: s.load(self, Ptr(r, off), size)
            for k in lin:
                if step[k] != 1: continue
                w = vars_[k][1]; piv = (gl, zext(vars_[k][0], w, 64))
                below = lambda s, v, k=k, w=w, cur=cur, T=T, D=D: Implies(And(D, ult(gl, zext(v[k], w, 64), 64)), eq(bvv(cur(s), 8 * size), bvv(T, 8 * size)))
                above = lambda s, v, k=k, w=w, cur=cur, I=I: Implies(ule(zext(v[k], w, 64), gl, 64), eq(bvv(cur(s), 8 * size), bvv(I, 8 * size)))
                below.pivot = above.pivot = piv
                if T is not None: C.append(("lanes below the counter hold the specified value", below))
                C.append(("lanes from the counter on are unchanged", above))
        if self.only_hints: C = []
        for hnt in self.hints:
            try: C += hnt(self, dict(fn=fn, vars=vars_, entry=ev, st=st, mods=mods, step=step, limits=limits)) or []
            except Unsupported: pass
        return C
    # ---- blocks
    def opval(self, o, env, ty=None):
        if o[0] == "v":
            if o[1] not in env: raise Unsupported("undefined ssa value")
            return env[o[1]]
        return self.const_op(o)
    def block(self, fn, b, prev, env, st):
        insts = fn.blocks[b]
        i = 0
        if prev == "HAVOC":
            for p in self.phis(fn, b): env[p["id"]] = env[("hv", p["id"])]
            i = len(self.phis(fn, b))
        else:
            vals = []
            while insts[i]["op"] == "phi":
                p = insts[i]
                for o, pb in p["in"]:
                    if pb == prev: vals.append((p["id"], self.opval(o, env, p["ty"]))); break
                else: raise Unsupported("phi edge")
                i += 1
            for k, v in vals: env[k] = v
        return self.run(fn, b, i, env, st)
    def run(self, fn, b, i, env, st):
        insts = fn.blocks[b]
        while True:
            I = insts[i]; op = I["op"]
            if "ln" in I: self.cur = "%s:%d" % (fn.file.split("/")[-1], I["ln"])
            # terminators
            if op == "br":
                if "cond" not in I: return [Outcome("goto", st, None, I["t"], b, env)]
                c = self.opval(I["cond"], env)
                if isinstance(c, Undef): raise Unsupported("branch on undef")
                outs = []
                if not isinstance(c, bool):
                    cs = z3.simplify(c)
                    if z3.is_true(cs): c = True
                    elif z3.is_false(cs): c = False
                if isinstance(c, bool): return [Outcome("goto", st, None, I["t"] if c else I["f"], b, env)]
                ft = self.sat(st.pc, c); ff = self.sat(st.pc, z3.Not(c)) if ft else True
                if ft and ff:
                    s2 = st.fork(); s2.assume(z3.Not(c)); st.assume(c)
                    return [Outcome("goto", s2, None, I["f"], b, dict(env)), Outcome("goto", st, None, I["t"], b, env)]
                if ft: st.assume(c); return [Outcome("goto", st, None, I["t"], b, env)]
                st.assume(z3.Not(c)); return [Outcome("goto", st, None, I["f"], b, env)]
            if op == "switch":
                c = self.opval(I["cond"], env); w = int(I["cty"][1:])
                outs = []
                if isc(c) or isinstance(c, bool):
                    for o, t in I["cases"]:
                        if self.const_op(o) == c: return [Outcome("goto", st, None, t, b, env)]
                    return [Outcome("goto", st, None, I["def"], b, env)]
                rest = []
                bycase = {}
                for o, t in I["cases"]: bycase.setdefault(t, []).append(self.const_op(o))
                for t, vs in bycase.items():
                    cnd = Or(*[eq(c, v) for v in vs]); rest.append(Not(cnd))
                    if self.sat(st.pc, cnd):
                        s2 = st.fork(); s2.assume(cnd); outs.append(Outcome("goto", s2, None, t, b, dict(env)))
                d = And(*rest)
                if d is True or self.sat(st.pc, d):
                    s2 = st.fork(); s2.assume(d); outs.append(Outcome("goto", s2, None, I["def"], b, dict(env)))
                return outs
            if op == "ret":
                ops = I["ops"]
                return [Outcome("ret", st, self.opval(ops[0], env) if ops else None)]
            if op == "unreachable": return [Outcome("unreach", st)]
            if op == "resume": return [Outcome("throw", st, "resume")]
            if op in ("call", "invoke"):
                outs = self.do_call(fn, I, env, st)
                if op == "call":
                    if len(outs) == 1 and outs[0].kind == "ret":
                        st = outs[0].st
                        if "id" in I: env[I["id"]] = outs[0].val
                        i += 1; continue
                    res = []
                    for o in outs:
                        if o.kind == "ret":
                            e2 = dict(env)
                            if "id" in I: e2[I["id"]] = o.val
                            res += self.run(fn, b, i + 1, e2, o.st)
                        else: res.append(o)
                    return res
                res = []
                for o in outs:
                    if o.kind == "ret":
                        e2 = dict(env)
                        if "id" in I: e2[I["id"]] = o.val
                        res.append(Outcome("goto", o.st, None, I["normal"], b, e2))
                    elif o.kind == "throw" and self.follow_throw: res.append(Outcome("goto", o.st, None, I["unwind"], b, dict(env)))
                    else: res.append(o)
                return res
            # instructions that may fork on pointers
            if op in ("load", "store", "atomicrmw", "cmpxchg"):
                p = self.opval(I.get("ptr") or I["ops"][0], env)
                if isinstance(p, PIte) or type(p) is PI:
                    rs = self.resolve(st, p)
                    if len(rs) == 1: st, p = rs[0]
                    else:
                        res = []
                        for s, q in rs:
                            e2 = dict(env)
                            self.memop(I, q, e2, s)
                            if q.r is None if isinstance(q, Ptr) else False: continue
                            res += self.run(fn, b, i + 1, e2, s)
                        return res
                if not isinstance(p, Ptr): raise Unsupported("deref of %r at %s" % (p, self.cur))
                if p.r is None and self.absregion is not None and not isc(p.off):      # objects known by address only
                    self.oblige(st, p.off != 0, "no-null-dereference", self.cur); p = Ptr(self.absregion, 0, p.off)
                self.memop(I, p, env, st)
                if p.r is None: return [Outcome("unreach", st)]
                i += 1; continue
            self.simple(fn, I, env, st)
            i += 1
    def memop(self, I, p, env, st):
        op = I["op"]
        if op == "load":
            self.access_ok(st, p, I["size"], "load", self.cur)
            if p.r is None: return
            if self.watch: self.watch(st, "load", p, I["size"])
            env[I["id"]] = self.typed_load(st, p, I["ty"])
        elif op == "store":
            self.access_ok(st, p, I["size"], "store", self.cur)
            if p.r is None: return
            if self.watch: self.watch(st, "store", p, I["size"])
            self.typed_store(st, p, I["vty"], self.opval(I["val"], env))
        elif op == "atomicrmw":
            w = int(I["ty"][1:]); old = self.typed_load(st, p, I["ty"]); v = self.opval(I["ops"][1], env)
            new = {"add": add, "sub": sub}[I["rmw"]](old, v, w)
            self.typed_store(st, p, I["ty"], new); env[I["id"]] = old
        else: raise Unsupported(op)
    def typed_load(self, st, p, ty):
        if isinstance(ty, dict):
            if ty["k"] == "struct": return tuple(self.typed_load(st, pgep(p, off), t) for off, t in ty["e"])
            if ty["k"] == "array": return tuple(self.typed_load(st, pgep(p, i * ty["es"]), ty["e"]) for i in range(ty["n"]))
            raise Unsupported("vector load")
        if ty == "ptr": return st.load(self, p, 8, "ptr")
        w = int(ty[1:]) if ty[0] == "i" else {"f32": 32, "f64": 64}.get(ty)
        if w is None: raise Unsupported("load type %s" % ty)
        n = (w + 7) // 8
        v = st.load(self, p, n)
        if w == 1: return (v & 1 == 1) if isc(v) else (z3.Extract(0, 0, v) == 1)
        if w != 8 * n: v = trunc(v, 8 * n, w)
        return v
    def typed_store(self, st, p, ty, v):
        if isinstance(ty, dict):
            if isinstance(v, Undef): return
            if ty["k"] == "struct":
                for (off, t), x in zip(ty["e"], v): self.typed_store(st, pgep(p, off), t, x)
                return
            if ty["k"] == "array":
                for i, x in enumerate(v): self.typed_store(st, pgep(p, i * ty["es"]), ty["e"], x)
                return
            raise Unsupported("vector store")
        if isinstance(v, Undef): v = fresh("undef", 64 if ty == "ptr" else max(8, int(ty[1:])))
        if ty == "ptr":
            if type(v) is z3.BitVecRef: v = PI(NULL)
            st.store(self, p, 8, v); return
        if ty == "i1": v = ite(v, 1, 0, 8); st.store(self, p, 1, v); return
        w = int(ty[1:]); n = (w + 7) // 8
        if w != 8 * n: v = zext(v, w, 8 * n)
        st.store(self, p, n, v)
    def do_call(self, fn, I, env, st):
        args = [self.opval(a, env, t) for a, t in zip(I["args"], I["aty"])]
        if "byval" in I:
            for k, n in I["byval"]:
                r = Region("byval%d" % next(_fresh), local=True); r.size = n
                for s, q in self.resolve(st, args[k])[:1]: self.memcpy(st, Ptr(r), q, n)
                args[k] = Ptr(r)
        if "fn" in I: return self.call(I["fn"], st, args, I)
        c = self.opval(I["callee"], env)
        outs = []
        for s, q in self.resolve(st, c):
            if isinstance(q, FnP): outs += self.call(q.name, s, args, I)
            else: outs += self.icall(s, q, args, I)
        return outs
    def icall(self, st, q, args, I):
        h = getattr(q.r, "fnptr", None) if isinstance(q, Ptr) and q.r is not None else None
        if h: return self.norm(h(self, st, args, I), st)
        raise Unsupported("indirect call at %s" % self.cur)
    # ---- straight-line instructions
    def simple(self, fn, I, env, st):
        op = I["op"]
        if op == "getelementptr":
            p = self.opval(I["ptr"], env); d = I["off"] & M(64)
            for sc, o, t in I["idx"]:
                x = self.opval(o, env); w = int(t[1:])
                if isinstance(x, Undef): raise Unsupported("gep undef")
                d = add(d, mul(sext(x, w, 64), sc & M(64), 64), 64)
            if isinstance(p, Undef): env[I["id"]] = UNDEF; return
            if type(p) is PI: p = p.p
            if isinstance(p, FnP): raise Unsupported("gep fn")
            env[I["id"]] = pgep(p, d); return
        if op == "alloca":
            c = self.opval(I["cnt"], env)
            r = Region("%s#%d" % ("loc", next(_fresh)), local=True, uninit=True)
            r.size = I["size"] * c if isc(c) else None
            aty = I.get("aty")
            if isinstance(aty, dict) and aty["k"] == "array" and aty["e"] == "i8": r.mode = "byte"
            env[I["id"]] = Ptr(r); return
        if op == "select":
            c, a, x = [self.opval(o, env) for o in I["ops"]]
            if isinstance(c, Undef) : raise Unsupported("select undef")
            if isinstance(a, Undef) or isinstance(x, Undef):
                env[I["id"]] = x if isinstance(a, Undef) else a; return
            t = I["ty"]; w = None
            if isinstance(t, str) and t[0] in "if" and t != "i1": w = int(t[1:])
            env[I["id"]] = ite(c, a, x, w); return
        if op == "icmp": env[I["id"]] = self.icmp(I["pred"], self.opval(I["ops"][0], env), self.opval(I["ops"][1], env), I["oty"]); return
        if op == "fcmp": env[I["id"]] = self.fcmp(I["pred"], self.opval(I["ops"][0], env), self.opval(I["ops"][1], env), int(I["oty"][1:])); return
        if op == "extractvalue":
            v = self.opval(I["agg"], env)
            for k in I["idx"]: v = v[k]
            env[I["id"]] = v; return
        if op == "insertvalue":
            def ins(a, idx, v):
                if not idx: return v
                a = list(a); a[idx[0]] = ins(a[idx[0]], idx[1:], v); return tuple(a)
            env[I["id"]] = ins(self.opval(I["agg"], env), I["idx"], self.opval(I["val"], env)); return
        if op in ("fence",): return
        if op == "landingpad": env[I["id"]] = self.lpad; return
        ops = [self.opval(o, env) for o in I["ops"]]
        t = I["ty"]
        if any(isinstance(o, Undef) for o in ops):
            if op == "freeze": env[I["id"]] = fresh("frz", int(t[1:])) if t != "i1" else freshb("frz"); return
            env[I["id"]] = UNDEF; return
        env[I["id"]] = self.unop(op, ops, t, I, st)
    def setrm(self, st):
        if self.fenvr is None: return RNE
        m = st.load(self, Ptr(self.fenvr), 4)
        if not isc(m) or m not in RMS: raise Unsupported("symbolic rounding mode")
        self.rm = RMS[m]; return self.rm
    def unop(self, op, a, t, I, st):
        oty = I["oty"]
        if self.fenvr is not None and op in ("fptrunc", "fpext", "sitofp", "uitofp", "fadd", "fsub", "fmul", "fdiv"): self.setrm(st)
        if op == "freeze": return a[0]
        if op in ("zext", "sext", "trunc"):
            x = a[0]; w = int(oty[1:]); to = int(t[1:])
            if type(x) is PI: 
                if op == "trunc": raise Unsupported("trunc of pointer int")
                return x
            if w == 1:
                if op == "trunc": raise Unsupported("trunc i1")
                return ite(x, 1 if op == "zext" else M(to), 0, to)
            if op == "trunc":
                if to == 1: return bool(x & 1) if isc(x) else (z3.Extract(0, 0, x) == 1)
                return trunc(x, w, to)
            return (zext if op == "zext" else sext)(x, w, to)
        if op == "ptrtoint": return PI(a[0]) if not (isinstance(a[0], Ptr) and a[0].r is None) else a[0].off
        if op == "inttoptr":
            if type(a[0]) is PI: return a[0].p
            if isc(a[0]): return Ptr(None, a[0])
            return Ptr(None, a[0])
        if op in ("bitcast",): return a[0]
        if op == "fpext":
            w, to = int(oty[1:]), int(t[1:])
            return self.fpconv(a[0], w, to)
        if op == "fptrunc":
            w, to = int(oty[1:]), int(t[1:])
            return self.fpconv(a[0], w, to)
        if op == "fneg":
            w = int(t[1:]); d = self.fdefof(a[0]) if not isc(a[0]) else None
            if d and d[0] == "ext": return self.fpconv(d[1] ^ z3.BitVecVal(1 << (d[2] - 1), d[2]), d[2], w)
            return a[0] ^ (1 << (w - 1)) if isc(a[0]) else a[0] ^ z3.BitVecVal(1 << (w - 1), w)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"): return self.farith(op, a[0], a[1], int(t[1:]))
        if op in ("sitofp", "uitofp"): return self.itofp(a[0], int(oty[1:]), int(t[1:]), op == "sitofp")
        if op in ("fptosi", "fptoui"): return self.fptoi(a[0], int(oty[1:]), int(t[1:]), op == "fptosi")
        x, y = a[0], a[1]
        if t == "i1":
            if op == "and": return And(x, y)
            if op == "or": return Or(x, y)
            if op == "xor":
                if isinstance(x, bool): x, y = y, x
                if isinstance(y, bool): return Not(x) if y else x
                return z3.Xor(x, y)
            raise Unsupported("i1 " + op)
        w = int(t[1:])
        if type(x) is PI or type(y) is PI:
            if op == "sub" and type(x) is PI and type(y) is PI:
                return self.pdiff(x.p, y.p)
            if op in ("add", "sub") and type(x) is PI and type(y) is not PI:
                return PI(pgep(x.p, y if op == "add" else sub(0, y, 64)))
            if op == "add" and type(y) is PI: return PI(pgep(y.p, x))
            raise Unsupported("pointer arithmetic %s" % op)
        if op == "add": return add(x, y, w)
        if op == "sub": return sub(x, y, w)
        if op == "mul":
            if self.mulhook is not None and w == 64:
                r = self.mulhook.mul64(x, y)
                self.mulhook.assume(st)
                if r is not None: return r
            return mul(x, y, w)
        cc = isc(x) and isc(y)
        if op == "and":
            if cc: return x & y
            if (isc(x) and x == 0) or (isc(y) and y == 0): return 0
            if isc(x) and x == M(w): return y
            if isc(y) and y == M(w): return x
            return bvv(x, w) & bvv(y, w)
        if op == "or":
            if cc: return x | y
            if isc(x) and x == 0: return y
            if isc(y) and y == 0: return x
            return bvv(x, w) | bvv(y, w)
        if op == "xor":
            if cc: return x ^ y
            return bvv(x, w) ^ bvv(y, w)
        if op in ("shl", "lshr", "ashr"):
            if isc(y):
                if y >= w: return fresh("shiftpoison", w)
                if y == 0: return x
                if isc(x):
                    return {"shl": (x << y) & M(w), "lshr": x >> y, "ashr": (sgn(x, w) >> y) & M(w)}[op]
                return {"shl": x << y, "lshr": z3.LShR(x, y), "ashr": x >> y}[op] if True else None
            X, Y = bvv(x, w), bvv(y, w)
            r = {"shl": X << Y, "lshr": z3.LShR(X, Y), "ashr": X >> Y}[op]
            c = z3.ULT(Y, w)
            if self.prove_raw(st.pc, c, 2000)[0] == "valid": return r
            return z3.If(c, r, fresh("shiftpoison", w))
        if op in ("udiv", "sdiv", "urem", "srem"):
            if isc(y) and y and y & (y - 1) == 0:
                sh = y.bit_length() - 1
                if op == "udiv": return x >> sh if isc(x) else (z3.LShR(x, sh) if sh else x)
                if op == "urem": return x & (y - 1) if isc(x) else (x & (y - 1))
                if op == "sdiv" and I.get("exact") and not isc(x) : return x >> sh if sh else x
                if op == "sdiv" and y == 1: return x
            if self.divs:
                if not (isc(y) and y): self.oblige(st, Not(eq(y, 0)) if not isc(y) else y != 0, "no-division-by-zero", self.cur)
                if op in ("sdiv", "srem") and not (isc(y) and y != M(w)):
                    self.oblige(st, Not(And(eq(x, 1 << (w - 1)), eq(y, M(w)))), "no-signed-division-overflow", self.cur)
            if cc:
                if y == 0: return 0
                if op == "udiv": return x // y
                if op == "urem": return x % y
                sx, sy = sgn(x, w), sgn(y, w)
                q = abs(sx) // abs(sy); q = q if (sx < 0) == (sy < 0) else -q
                return (q if op == "sdiv" else sx - q * sy) & M(w)
            nr = self.narrowdiv(op, x, y, w)
            if nr is not None: return nr
            X, Y = bvv(x, w), bvv(y, w)
            if op[0] == "u" and self.opaque_div: return opdiv(op, X, Y)
            return {"udiv": z3.UDiv(X, Y), "sdiv": X / Y, "urem": z3.URem(X, Y), "srem": z3.SRem(X, Y)}[op]
        raise Unsupported("instruction " + op)
    def narrowdiv(self, op, x, y, w):
        """division of extended operands done at the operands' own width (exact identities)"""
        kind = z3.Z3_OP_ZERO_EXT if op[0] == "u" else z3.Z3_OP_SIGN_EXT
        def nar(t):
            if isc(t): return None
            return t.arg(0) if z3.is_app_of(t, kind) else None
        a, b = nar(x), nar(y)
        k = a.size() if a is not None else b.size() if b is not None else None
        if k is None: return None
        def cn(t, n):
            if n is not None: return n if n.size() == k else None
            if not isc(t): return None
            if op[0] == "u": return z3.BitVecVal(t, k) if t < 1 << k else None
            s = sgn(t, w); return z3.BitVecVal(s, k) if -(1 << (k - 1)) <= s < 1 << (k - 1) else None
        a, b = cn(x, a), cn(y, b)
        if a is None or b is None: return None
        if op == "udiv": return z3.If(b == 0, z3.BitVecVal(M(w), w), z3.ZeroExt(w - k, z3.UDiv(a, b)))
        if op == "urem": return z3.ZeroExt(w - k, z3.URem(a, b))
        ovf = z3.And(a == 1 << (k - 1), b == M(k))
        if op == "srem": return z3.If(ovf, z3.BitVecVal(0, w), z3.SignExt(w - k, z3.SRem(a, b)))
        return z3.If(z3.Or(ovf, b == 0), z3.If(b == 0, bvv(x, w) / bvv(y, w), z3.BitVecVal(1 << (k - 1), w)), z3.SignExt(w - k, a / b))
    def pdiff(self, p, q):
        if isinstance(p, PIte): return ite(p.c, self.pdiff(p.a, q), self.pdiff(p.b, q), 64)
        if isinstance(q, PIte): return ite(q.c, self.pdiff(p, q.a), self.pdiff(p, q.b), 64)
        if p.r is q.r:
            d = diff(p.off, q.off)
            if d is not None: return d
            return z3.simplify(bvv(sub(p.off, q.off, 64), 64))
        raise Unsupported("difference of unrelated pointers %r %r" % (p, q))
    def icmp(self, pred, x, y, oty):
        if isinstance(x, Undef) or isinstance(y, Undef): return UNDEF
        if self.cmplog is not None and len(self.cmplog) < 400: self.cmplog.append((x, y, oty))
        if oty == "ptr" or type(x) is PI or type(y) is PI:
            if type(x) is PI: x = x.p
            if type(y) is PI: y = y.p
            if isc(x): x = Ptr(None, x)
            if isc(y): y = Ptr(None, y)
            if pred in ("eq", "ne"):
                e = peq(x, y); return e if pred == "eq" else Not(e)
            if isinstance(x, PIte): return bite(x.c, self.icmp(pred, x.a, y, oty), self.icmp(pred, x.b, y, oty))
            if isinstance(y, PIte): return bite(y.c, self.icmp(pred, x, y.a, oty), self.icmp(pred, x, y.b, oty))
            if x.r is not y.r: raise Unsupported("pointer order")
            return self.icmp(pred, x.off, y.off, "i64")
        if oty == "i1":
            x = ite(x, 1, 0, 1); y = ite(y, 1, 0, 1)
        w = int(oty[1:])
        if pred == "eq": return eq(x, y)
        if pred == "ne": return Not(eq(x, y))
        if pred == "ult": return ult(x, y, w)
        if pred == "ugt": return ult(y, x, w)
        if pred == "ule": return Not(ult(y, x, w))
        if pred == "uge": return Not(ult(x, y, w))
        if pred == "slt": return slt(x, y, w)
        if pred == "sgt": return slt(y, x, w)
        if pred == "sle": return Not(slt(y, x, w))
        if pred == "sge": return Not(slt(x, y, w))
        raise Unsupported(pred)
    # ---- floating point: bits; conversions and comparisons by the SMT FP theory, arithmetic as functions
    def fcmp(self, pred, x, y, w):
        if w in (64, 80):
            # exactly extended operands compare as at their own width
            a = self.fdefof(x); b = self.fdefof(y); ax = a is not None and a[0] == "ext"; bx = b is not None and b[0] == "ext"
            nw = a[2] if ax else b[2] if bx else 32
            if not ax: a = self.cext(x, w, nw)
            if not bx: b = self.cext(y, w, nw)
            if a and b and a[0] == "ext" and b[0] == "ext" and a[2] == b[2]: return self.fcmp(pred, a[1], b[1], a[2])
        X, Y = fp(x, w), fp(y, w)
        un = z3.Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
        base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        if pred == "true": return True
        if pred == "false": return False
        if pred == "ord": return z3.Not(un)
        if pred == "uno": return un
        k = pred[1:]
        b = base[k](X, Y) if k != "ne" else z3.And(z3.Not(un), z3.Not(z3.fpEQ(X, Y)))
        r = b if pred[0] == "o" else z3.Or(un, b)
        r = z3.simplify(r)
        return True if z3.is_true(r) else False if z3.is_false(r) else r
    def _def(self, t, d): self.fpdef[t.get_id()] = (d, t); return t
    def fdefof(self, t):
        if isc(t): return None
        d = self.fpdef.get(t.get_id()); return d[0] if d else None
    def fpconv(self, x, w, to):
        if w == to: return x
        rne = self.rm.eq(RNE)
        if not isc(x) and z3.is_app_of(x, z3.Z3_OP_ITE) and self.fdefof(x) is None:
            c, a, b = x.children()
            return ite(c, self.fpconv(self.cst(a), w, to), self.fpconv(self.cst(b), w, to), to)
        d = self.fdefof(x)
        if d and d[0] == "ext" and (d[2] == to or d[2] < to): return d[1] if d[2] == to else self.fpconv(d[1], d[2], to)
        if to < w and d and d[0] == "itofp" and d[2] <= 53 and w >= 64: return self.itofp(d[1], d[2], to, d[3])     # the wide value is exact
        if to < w and d and rne:
            if d[0] == "arith" and d[1] in ("fadd", "fsub", "fmul", "fdiv"):
                a, b = self.fdefof(d[2]), self.fdefof(d[3])
                a = a or self.cext(d[2], w, to); b = b or self.cext(d[3], w, to)
                if a and b and a[0] == "ext" and b[0] == "ext" and a[2] == to and b[2] == to:
                    # innocuous double rounding (Figueroa): p=53 >= 2*24+2
                    return self.farith(d[1], a[1], b[1], to)
            if d[0] == "fn1" and d[1] == "sqrt":
                a = self.fdefof(d[2])
                if a and a[0] == "ext" and a[2] == to: return self.fn1("sqrt", a[1], to)
            if d[0] == "arith" and d[1] == "frem":
                a = self.fdefof(d[2]) or self.cext(d[2], w, to); b = self.fdefof(d[3]) or self.cext(d[3], w, to)
                # the remainder of two numbers representable in the narrow format is representable in it
                if a and b and a[0] == "ext" and b[0] == "ext" and a[2] == to and b[2] == to: return self.farith("frem", a[1], b[1], to)
        if isc(x):
            import struct
            f = {32: "<f", 64: "<d", 16: "<e"}
            try:
                v = struct.unpack(f[w], x.to_bytes(w // 8, "little"))[0]; y = struct.pack(f[to], v)
                if rne or struct.unpack(f[to], y)[0] == v: return int.from_bytes(y, "little")
            except (OverflowError, KeyError): pass
        if to < w and d and d[0] == "arith" and rne:
            f = z3.Function("fptrunc%d_%d" % (w, to), z3.BitVecSort(w), z3.BitVecSort(to))
            return self._def(f(bvv(x, w)), ("truncuf", x, w))
        if isc(x) and 80 in (w, to): return z3.simplify(fpbits(z3.fpFPToFP(self.rm if to < w else RNE, fp(x, w), FP[to]))).as_long()
        r = fpbits(z3.fpFPToFP(self.rm if to < w else RNE, fp(x, w), FP[to]))
        return self._def(r, ("ext" if to > w else "trunc", x, w))
    def cst(self, x): return x.as_long() if z3.is_bv_value(x) else x
    def cext(self, x, w, to):
        """constant w-bit float exactly representable in `to` bits"""
        if not isc(x): return None
        y = self.fpconv(x, w, to)
        if isc(y) and self.fpconv(y, to, w) == x: return ("ext", y, to)
    def farith(self, op, x, y, w):
        x, y = bvv(x, w), bvv(y, w)
        if op in ("fadd", "fmul") and x.sexpr() > y.sexpr(): x, y = y, x
        f = z3.Function("%s%d%s" % (op, w, "" if self.rm.eq(RNE) else str(self.rm)), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return self._def(f(x, y), ("arith", op, x, y))
    def fn1(self, name, x, w):
        f = z3.Function("fn_%s%d" % (name, w), z3.BitVecSort(w), z3.BitVecSort(w))
        return self._def(f(bvv(x, w)), ("fn1", name, x))
    def fnn(self, name, xs, ws, rw):
        f = z3.Function("fn_%s" % name, *([z3.BitVecSort(w) for w in ws] + [z3.BitVecSort(rw)]))
        t = f(*[bvv(x, w) for x, w in zip(xs, ws)])
        return self._def(t, ("fnn", name, xs))
    def itofp(self, x, w, to, signed):
        if not isc(x) and z3.is_app(x):
            # the value of an extended integer is the value of the integer
            k = x.decl().kind(); c = x.children()
            if signed and k == z3.Z3_OP_SIGN_EXT: return self.itofp(c[0], c[0].size(), to, True)
            if k == z3.Z3_OP_ZERO_EXT and c[0].size() < w: return self.itofp(c[0], c[0].size(), to, False)
            if k == z3.Z3_OP_CONCAT and z3.is_bv_value(c[0]) and c[0].as_long() == 0 and len(c) == 2: return self.itofp(c[1], c[1].size(), to, False)
        if isc(x):
            import struct
            v = sgn(x, w) if signed else x
            if to == 64 and abs(v) <= 1 << 53: return int.from_bytes(struct.pack("<d", float(v)), "little")
            if to == 80: return z3.simplify(fpbits(z3.FPVal(v, FP[80]))).as_long()
        X = bvv(x, w)
        f = z3.fpSignedToFP(self.rm, X, FP[to]) if signed else z3.fpUnsignedToFP(self.rm, X, FP[to])
        return self._def(fpbits(f), ("itofp", x, w, signed))
    def rint(self, st, x, w):
        """x rounded to an integral value in the current rounding mode (exact: the result is representable in x's own format)"""
        if not isc(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, a, b = x.children(); return ite(c, self.rint(st, self.cst(a), w), self.rint(st, self.cst(b), w), w)
        if isc(x): return z3.simplify(fpbits(z3.fpRoundToIntegral(self.setrm(st), fp(x, w)))).as_long()
        d = self.fdefof(x)
        if d and d[0] == "ext": return self.fpconv(self.rint(st, d[1], d[2]), d[2], w)
        return self._def(fpbits(z3.fpRoundToIntegral(self.setrm(st), fp(x, w))), ("rint", x, w))
    def fptoi(self, x, w, to, signed):
        if not isc(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, p, q = x.children(); return ite(c, self.fptoi(self.cst(p), w, to, signed), self.fptoi(self.cst(q), w, to, signed), to)
        d = self.fdefof(x)
        if d and d[0] == "ext": return self.fptoi(d[1], d[2], to, signed)   # widening is exact
        if isc(x):
            v = z3.simplify(z3.fpToReal(fp(x, w)))
            if z3.is_rational_value(v):
                n = v.numerator_as_long(); k = abs(n) // v.denominator_as_long() * (1 if n >= 0 else -1)
                if (-(1 << to - 1) if signed else 0) <= k < (1 << to - 1 if signed else 1 << to): return k & M(to)
        X = fp(x, w)
        r = z3.fpToSBV(z3.RTZ(), X, z3.BitVecSort(to)) if signed else z3.fpToUBV(z3.RTZ(), X, z3.BitVecSort(to))
        lo = -(1 << (to - 1)) if signed else 0
        hi = (1 << (to - 1)) if signed else (1 << to)
        T = X if d and d[0] == "rint" else z3.fpRoundToIntegral(z3.RTZ(), X)
        inr = z3.And(z3.Not(z3.fpIsNaN(X)), z3.fpGEQ(T, z3.FPVal(float(lo), FP[w])), z3.fpLT(T, z3.FPVal(float(hi), FP[w])))
        if not signed: inr = z3.And(z3.Not(z3.fpIsNaN(X)), z3.Or(z3.fpIsZero(T), z3.And(z3.fpGEQ(T, z3.FPVal(0.0, FP[w])), z3.fpLT(T, z3.FPVal(float(hi), FP[w])))))
        return z3.If(inr, r, fresh("fptoipoison", to))

class Abstractor:
    """replaces hard arithmetic by uninterpreted functions of the same arguments"""
    HARD = {z3.Z3_OP_BUDIV, z3.Z3_OP_BSDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSREM, z3.Z3_OP_BSMOD, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSMOD_I}
    def __init__(self): self.memo = {}; self.hit = False; self.fp = False; self.keep = []
    def isfp(self, t): return z3.is_fp(t) or z3.is_fprm(t)
    def rw(self, t):
        stack = [t]
        while stack:
            x = stack[-1]; k = x.get_id()
            if k in self.memo: stack.pop(); continue
            if z3.is_quantifier(x) or z3.is_var(x): self.memo[k] = x; self.keep.append(x); stack.pop(); continue
            ch = x.children()
            if ch and not self.isfp(x) and any(self.isfp(c) for c in ch):
                self.fp = True
                leaves = []; sig = self.island(x, leaves)
                todo = [l for l in leaves if l.get_id() not in self.memo]
                if todo: stack += todo; continue
                if leaves:
                    f = z3.Function("isl:" + sig, *([l.sort() for l in leaves] + [x.sort()]))
                    r = f(*[self.memo[l.get_id()] for l in leaves]); self.hit = True
                else: r = x
            elif self.isfp(x): self.fp = True; r = x
            else:
                todo = [c for c in ch if c.get_id() not in self.memo]
                if todo: stack += todo; continue
                n = [self.memo[c.get_id()] for c in ch]
                kd = x.decl().kind() if z3.is_app(x) else None
                if kd in self.HARD or (kd == z3.Z3_OP_BMUL and sum(0 if z3.is_bv_value(c) else 1 for c in ch) >= 2 and len(ch) == 2):
                    if kd == z3.Z3_OP_BMUL and (n[0].decl().name(), n[0].get_id()) > (n[1].decl().name(), n[1].get_id()): n = n[::-1]     # commutative
                    f = z3.Function("abs:%s:%d" % (x.decl().name(), x.size()), *([c.sort() for c in n] + [x.sort()])); r = f(*n); self.hit = True
                elif n and any(a is not b and a.get_id() != b.get_id() for a, b in zip(n, ch)):
                    r = x.decl()(*n)
                else: r = x
            self.memo[k] = r; self.keep += [x, r]; stack.pop()
        return self.memo[t.get_id()]
    def island(self, x, leaves):
        """structure of the term, cut at non-FP arguments (collected in leaves)"""
        out = []
        for c in x.children():
            if self.isfp(c): out.append(self.island(c, leaves) if c.children() else c.sexpr())
            elif z3.is_bool(c) or z3.is_bv(c):
                for i, l in enumerate(leaves):
                    if l.get_id() == c.get_id(): out.append("#%d" % i); break
                else: leaves.append(c); out.append("#%d" % (len(leaves) - 1))
            else: out.append(c.sexpr())
        d = x.decl()
        try: ps = [str(p) for p in d.params()]
        except Exception: ps = []
        return "%s%s:%s(%s)" % (d.name(), ps or "", x.sort().sexpr(), ",".join(out))

def z3util_vars(t, lim=200):
    seen = set(); out = []; stack = [t]
    while stack and len(seen) < 2000:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        else: stack.extend(x.children())
    return out
