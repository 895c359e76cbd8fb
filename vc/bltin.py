"""OpenCL C builtin functions (oclgrind::WorkItemBuiltins) against the OpenCL C specification.

Each builtin is checked through the simulator's own dispatch table: initBuiltins is executed symbolically to find the
handler (and its operation argument) registered under the builtin's name, and that handler is proved against the
contract of the *name*.  All lanes: the loop over the lanes is cut by an inferred invariant for an arbitrary lane."""
import re, z3
from engine import *
from lworld import *
from run import Task
import strs
from insttasks import vecsetup, elementwise, wf

W = "oclgrind::WorkItemBuiltins::"
from mangle import *
def signed(c): return c in STY
_tables = {}
def table(mod):
    """names -> (handler, op) as registered by initBuiltins; prefixes -> ordered list"""
    if id(mod) in _tables: return _tables[id(mod)]
    E = Engine(mod, "initBuiltins"); E.suppress = 1; strs.install(E)
    names = {}; prefixes = []; slots = {}
    def sub(E, st, a, I):
        s = strs.sget(E, st, a[1]); r = slots.get(s)
        if r is None: r = slots[s] = Region("slot:" + s); r.size = 16
        return Ptr(r)
    U = r"^std::unordered_map<std::__cxx11::basic_string<char.*oclgrind::BuiltinFunction"
    E.rmodels.insert(0, (re.compile(U + r".*::operator\[\]\("), sub))
    E.rmodels.insert(0, (re.compile(U + r".*::~?unordered_map\(\)$"), lambda E, st, a, I: 0))
    def push(E, st, a, I):
        p = a[1]; prefixes.append((strs.sget(E, st, p), st.load(E, pgep(p, 32), 8, "ptr"), st.load(E, pgep(p, 40), 8, "ptr"))); return 0
    E.rmodels.insert(0, (re.compile(r"^std::.*list<std::pair<std::__cxx11::basic_string<char.*oclgrind::BuiltinFunction>.*::(push_back|emplace_back)"), push))
    fn = [f for f in mod.fns.values() if not f.decl and f.dem.startswith(W + "initBuiltins")]
    if len(fn) != 1: raise Unsupported("initBuiltins")
    outs = [o for o in E.exec_fn(fn[0], [Ptr(Region("builtins"))], State()) if o.kind == "ret"]
    if len(outs) != 1: raise Unsupported("initBuiltins: %d outcomes" % len(outs))
    st = outs[0].st
    for s, r in slots.items(): names[s] = (st.load(E, Ptr(r), 8, "ptr"), st.load(E, Ptr(r, 8), 8, "ptr"))
    _tables[id(mod)] = (names, prefixes)
    return names, prefixes
def handler(mod, name):
    names, pre = table(mod)
    if name in names: return names[name]
    for p, f, o in pre:
        if name.startswith(p): return f, o
    raise Unsupported("builtin %s is not registered" % name)
def builtin_world(E, inst, name, ovl, nsym=None):
    """-> call(st) running the registered handler"""
    strs.install(E)
    def argop(E, st, a, I):
        if isc(a[1]): return Ptr(inst.ops[a[1]].r) if a[1] < len(inst.ops) else unsup("argument index")
        out = []
        for k in range(len(inst.ops)):
            s = st.fork(); s.assume(a[1] == k)
            if E.sat(s.pc): out.append((s, Ptr(inst.ops[k].r)))
        s = st.fork(); E.oblige(s, z3.ULT(a[1], len(inst.ops)), "argument index in range")
        return out
    E.models["llvm::CallBase::getArgOperand"] = argop
    h, op = handler(E.mod, name)
    if not isinstance(h, FnP): raise Unsupported("handler of " + name)
    E.used_contracts.add("dispatch table: %s -> %s" % (name, E.mod.fns[h.name].dem.split("(")[0]))
    fnp = strs.mkstr(E, name, "fnName"); ov = strs.mkstr(E, ovl, "overload")
    return lambda st: E.call(h.name, st, [Ptr(inst.this), Ptr(inst.r), fnp, ov, Ptr(inst.res), op])
def unsup(x): raise Unsupported(x)
def lanewise(name, rc, args, spec, uf=False, widths=None, rsize=None):
    """task body: builtin `name` with argument type chars args (or ('scalar', c)) and result type char rc; spec(E, lanes) -> (defined, value)"""
    def run(t):
        def conv(c): return ("scalar", ty(c[1])) if isinstance(c, tuple) else ty(c)
        def ty(c): return F(16) if c == "e" else F(FT[c]) if c in FT else I(IT[c]) if c in IT else P()
        def disp(n):
            def d(E, st, inst): return builtin_world(E, inst, name, overload(args, 4 if n is None else n))(st)
            return d
        ns = t.params if t.params else widths if widths else (1, None)
        for n in ns:
            sc = any(isinstance(a, tuple) for a in args)
            tt = t.params; t.params = [n]
            try: elementwise(t, "Call", ty(rc), [conv(a) for a in args], spec, disp=disp(n))
            finally: t.params = tt
    return run
def X(v, c, to):
    """exact value of lane v of type c in `to` bits"""
    w = IT[c]; return (sext if signed(c) else zext)(bvv(v, w), w, to)
def rng(c):
    w = IT[c]; return (-(1 << w - 1), (1 << w - 1) - 1) if signed(c) else (0, (1 << w) - 1)
def satz(x, W_, c):
    """signed W_-bit exact value saturated to the range of type c -> IT[c] bits"""
    lo, hi = rng(c); w = IT[c]
    L = z3.BitVecVal(lo, W_); Hh = z3.BitVecVal(hi, W_)
    return z3.Extract(w - 1, 0, z3.If(x < L, L, z3.If(x > Hh, Hh, x)))
# ---- exact products: the halves of a 128-bit product share the 32x32 partial products of the code (distributivity, see lemma task)
class Products:
    def __init__(self, E): self.E = E; self.memo = {}; self.facts = []
    def rangeof(self, x):
        """'u': 0..2^32-1, 's': -2^31..2^31-1, None"""
        x = z3.simplify(bvv(x, 64))
        s = z3.Solver(); s.set("timeout", 3000)
        for k, c in (("u", z3.ULT(x, 1 << 32)), ("s", z3.And(x >= z3.BitVecVal(-(1 << 31), 64), x <= z3.BitVecVal((1 << 31) - 1, 64)))):
            s.push(); s.add(z3.Not(c)); r = s.check(); s.pop()
            if r == z3.unsat: return k
        return None
    def small(self, x, y, kx, ky):
        x = z3.simplify(bvv(x, 64)); y = z3.simplify(bvv(y, 64))
        k = (x.get_id(), y.get_id())
        if k in self.memo: return self.memo[k][0]
        f = z3.Function("product", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
        p = f(x, y); self.memo[k] = (p, x, y)
        B = 1 << 32
        def ext(k): return (0, B - 1) if k == "u" else (-(1 << 31), (1 << 31) - 1)
        (a, b), (c, d) = ext(kx), ext(ky)
        vs = [a * c, a * d, b * c, b * d]; lo, hi = min(vs), max(vs)
        P_ = z3.SignExt(64, p) if "s" in (kx, ky) else z3.ZeroExt(64, p)
        self.facts.append(z3.And(P_ >= z3.BitVecVal(lo, 128), P_ <= z3.BitVecVal(hi, 128)))
        self.facts.append(z3.Implies(z3.Or(x == 0, y == 0), p == 0))
        self.facts.append(p == f(y, x))
        return p
    def mul64(self, x, y):
        """hook for 64-bit multiplications in the code"""
        if isc(x) or isc(y): return None
        kx, ky = self.rangeof(x), self.rangeof(y)
        if kx and ky: return self.small(x, y, kx, ky)
        if kx or ky: return None
        r = z3.Extract(63, 0, self.full(x, y, False))
        x = bvv(x, 64); y = bvv(y, 64); m = z3.BitVecVal(0xffffffff, 64)
        for p, q in ((x, y), (y, x)):   # signed and unsigned high halves are congruent modulo 2^32, and so are their products
            self.facts.append(z3.Extract(31, 0, self.small(p & m, q >> 32, "u", "s")) == z3.Extract(31, 0, self.small(p & m, z3.LShR(q, 32), "u", "u")))
        return r
    def full(self, x, y, sg):
        """exact 128-bit product of two 64-bit values"""
        x = bvv(x, 64); y = bvv(y, 64); m = z3.BitVecVal(0xffffffff, 64)
        xl, yl = x & m, y & m
        xh, yh = (x >> 32, y >> 32) if sg else (z3.LShR(x, 32), z3.LShR(y, 32))
        k = "s" if sg else "u"; e = (lambda p: z3.SignExt(64, p)) if sg else (lambda p: z3.ZeroExt(64, p))
        ll = self.small(xl, yl, "u", "u"); lh = self.small(xl, yh, "u", k); hl = self.small(xh, yl, k, "u"); hh = self.small(xh, yh, k, k)
        return (e(hh) << 64) + ((e(lh) + e(hl)) << 32) + z3.ZeroExt(64, ll)
    def assume(self, st):
        for f in self.facts: st.assume(f)
def lemma_products(t):
    """(h*B+l)*(k*B+m) = hk*B^2 + (hm+lk)*B + lm over the integers, and hence for the exact halves used by the mul_hi/mad contracts"""
    E = t.engine(); st = State()
    a, b, c, d = z3.Ints("xh xl yh yl"); B = z3.IntVal(1 << 32)
    E.oblige(st, (a * B + b) * (c * B + d) == a * c * B * B + (a * d + b * c) * B + b * d, "partial products sum to the product")
    t.paths = 1
def mulhi_value(E, st, x, y, bits, sg):
    """contract of _smul_hi_/_umul_hi_: bits of the exact product from `bits` on (64: of the 128-bit product)"""
    if not isc(bits) or bits not in (8, 16, 32, 64): raise Unsupported("mul_hi width")
    if bits == 64: v = z3.Extract(127, 64, E.mulhook.full(x, y, sg))
    else:
        p = E.mulhook.mul64(x, y)
        if p is None: p = bvv(x, 64) * bvv(y, 64)
        v = bvv(p, 64) >> bits if sg else z3.LShR(bvv(p, 64), bits)
    E.mulhook.assume(st); return v
MULHI = (("_smul_hi_", True), ("_umul_hi_", False))
def has(mod, f): return bool([g for g in mod.fns.values() if g.dem.startswith(W + f + "(") and not g.decl])
def mulhi_contracts(E):
    for f, sg in MULHI:
        if has(E.mod, f): E.models[W + f] = lambda E, st, a, I, sg=sg: mulhi_value(E, st, a[0], a[1], a[2], sg)
def task_mulhi(f, sg):
    def run(t):
        for bits in (8, 16, 32, 64):
            E = t.engine(); E.mulhook = Products(E); st = State(); x, y = fresh("x", 64), fresh("y", 64)
            for oc in t.reached(E.call(E.mod.fn(W + f).name, st, [x, y, bits])):
                E.oblige(oc.st, oc.kind == "ret" and bvv(oc.val, 64) == mulhi_value(E, oc.st, x, y, bits, sg), "bits %d and up of the exact product" % bits)
    return Task("contract: " + f, W + f, run, uf=True)
# ================================================================ B01
def popc(x, w):
    """number of one bits: right-nested, so that popc(x) and bit 0 + popc(x >> 1) are the same sum"""
    r = z3.BitVecVal(0, w)
    for i in reversed(range(x.size())):
        b = z3.Extract(i, i, x); b = z3.simplify(b); r = (z3.ZeroExt(w - 1, b) if w > 1 else b) + r
    return r
def count_hints(kind):
    """invariants for bit-counting loops: x is shifted right once per step; clz counts the steps, popcount the ones"""
    def hint(E, d):
        out = []; ks = [k for k in d["vars"] if k[0] == "p"]
        for kx in ks:
            wx = d["vars"][kx][1]; e = d["entry"][kx]
            if wx not in (32, 64) or (isc(e) and kind == "clz"): continue
            for kc in ks:
                if kc == kx or not isc(d["entry"][kc]) or d["entry"][kc] != 0: continue
                wc = d["vars"][kc][1]
                if wc not in (32, 64): continue
                cx = lambda v, kc=kc, wc=wc, wx=wx: z3.ZeroExt(wx - wc, bvv(v[kc], wc)) if wc < wx else z3.Extract(wx - 1, 0, bvv(v[kc], wc))
                if kind == "clz":
                    out.append(("value shifted right by the count", lambda s, v, kx=kx, wx=wx, cx=cx, e=e: z3.And(bvv(v[kx], wx) == z3.LShR(bvv(e, wx), cx(v)), z3.ULE(cx(v), wx))))
                    out.append(("the last bit shifted out was set or ones remain", lambda s, v, kx=kx, wx=wx, cx=cx, e=e: z3.Or(cx(v) == 0, z3.LShR(bvv(e, wx), cx(v) - 1) != 0)))
                else:
                    out.append(("bits counted so far", lambda s, v, kx=kx, wx=wx, kc=kc, wc=wc, e=e: bvv(v[kc], wc) + popc(bvv(v[kx], wx), wc) == popc(bvv(e, wx), wc)))
        return out
    return hint
def popcount_contract(E):
    """_popcount_(x) == number of one bits of x (proved by its own task)"""
    E.models[W + "_popcount_"] = lambda E, st, a, I: popc(bvv(a[0], 64), 64)
def task_popcount(t):
    E = t.engine(); E.hints.append(count_hints("popcount")); st = State(); x = fresh("x", 64)
    for oc in t.reached(E.call(E.mod.fn(W + "_popcount_").name, st, [x])):
        E.oblige(oc.st, oc.kind == "ret" and bvv(oc.val, 64) == popc(x, 64), "number of one bits")
def mulspec(E, a, b, c):
    """exact product of two lanes as a 128-bit value"""
    w = IT[c]
    if w == 64: return E.mulhook.full(a, b, signed(c))
    e = sext if signed(c) else zext; k = "s" if signed(c) else "u"
    a, b = bvv(e(bvv(a, w), w, 64), 64), bvv(e(bvv(b, w), w, 64), 64)
    p = E.mulhook.small(a, b, k, k) if getattr(E, "mulhook", None) else a * b
    return e(p, 64, 128)
def spec_b01(name, c):
    w = IT[c]; sg = signed(c)
    uc = {"c": "h", "s": "t", "i": "j", "l": "m"}.get(c, c)
    lowbits = lambda x: z3.Extract(w - 1, 0, x)
    def f(E, l):
        if name == "abs":
            x = X(l[0], c, w + 2); return True, lowbits(z3.If(x < 0, -x, x))
        if name == "abs_diff":
            d = X(l[0], c, w + 2) - X(l[1], c, w + 2); return True, lowbits(z3.If(d < 0, -d, d))
        if name == "add_sat": return True, satz(X(l[0], c, w + 2) + X(l[1], c, w + 2), w + 2, c)
        if name == "sub_sat": return True, satz(X(l[0], c, w + 2) - X(l[1], c, w + 2), w + 2, c)
        if name == "hadd": return True, lowbits((X(l[0], c, w + 2) + X(l[1], c, w + 2)) >> 1)
        if name == "rhadd": return True, lowbits((X(l[0], c, w + 2) + X(l[1], c, w + 2) + 1) >> 1)
        if name in ("min", "max", "clamp"):
            a = [bvv(x, w) for x in l]; L = (lambda x, y: x < y) if sg else z3.ULT
            mn = lambda x, y: z3.If(L(y, x), y, x); mx = lambda x, y: z3.If(L(x, y), y, x)
            if name == "min": return True, mn(a[0], a[1])
            if name == "max": return True, mx(a[0], a[1])
            return z3.Not(L(a[2], a[1])), mn(mx(a[0], a[1]), a[2])
        if name == "rotate":
            x = bvv(l[0], w); s = bvv(l[1], w) & z3.BitVecVal(w - 1, w); return True, z3.RotateLeft(x, s)
        if name == "upsample":
            h = {"s": 8, "t": 8, "i": 16, "j": 16, "l": 32, "m": 32}[c]; return True, z3.Concat(bvv(l[0], h), bvv(l[1], h))
        if name == "clz":
            x = bvv(l[0], w); r = z3.BitVecVal(w, w)
            for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return True, r
        if name == "popcount": return True, popc(bvv(l[0], w), w)
        if name in ("mul24", "mad24"):
            lo, hi = (-(1 << 23), (1 << 23) - 1) if sg else (0, (1 << 24) - 1)
            ok = And(*[z3.And(X(x, c, 34) >= lo, X(x, c, 34) <= hi) for x in l[:2]])
            e = sext if sg else zext
            p = z3.Extract(31, 0, bvv(e(bvv(l[0], 32), 32, 64), 64) * bvv(e(bvv(l[1], 32), 32, 64), 64))
            if name == "mad24": p = p + bvv(l[2], 32)
            return ok, p
        if name in ("mul_hi", "mad_hi", "mad_sat"):
            p = mulspec(E, l[0], l[1], c)
            if name == "mad_sat":
                q = z3.SignExt(8, p) if sg else z3.ZeroExt(8, p)
                return True, satz(q + X(l[2], c, 136), 136, c)
            h = z3.Extract(2 * w - 1, w, p)
            return True, h + bvv(l[2], w) if name == "mad_hi" else h
        raise Unsupported(name)
    return f
B01_NAMES = {"abs": 1, "abs_diff": 2, "add_sat": 2, "sub_sat": 2, "hadd": 2, "rhadd": 2, "min": 2, "max": 2, "clamp": 3, "rotate": 2, "clz": 1, "popcount": 1, "mul_hi": 2, "mad_hi": 3, "mad_sat": 3}
def with_hooks(kind, body):
    def run(t):
        eng = t.engine
        def engine(**kw):
            E = eng(**kw); 
            if kind == "mul": E.mulhook = Products(E); mulhi_contracts(E)
            else:
                E.hints.append(count_hints(kind))
                if kind == "popcount" and [f for f in E.mod.fns.values() if f.dem.startswith(W + "_popcount_(")]: popcount_contract(E)
            return E
        t.engine = engine
        try: body(t)
        finally: t.engine = eng
    return run
def tasks_B01(mod):
    out = []
    def add(name, rc, args, spec, hooks=False, sc=""):
        body = lanewise(name, rc, args, spec)
        def pre(t, body=body, hooks=hooks): (with_hooks(hooks, body) if hooks else body)(t)
        try: fn = mod.fns[handler(mod, name)[0].name].dem.split("(")[0]
        except (Unsupported, AttributeError, KeyError): fn = "initBuiltins"
        out.append(Task("%s(%s)%s" % (name, ",".join(a if isinstance(a, str) else a[1] + " scalar" for a in args), sc), fn, pre, fallback=[1, 2, 4], uf=hooks == "mul"))
    for name, k in B01_NAMES.items():
        for c in IT:
            rc = {"c": "h", "s": "t", "i": "j", "l": "m"}.get(c, c) if name in ("abs", "abs_diff") else c
            hooks = "mul" if name in ("mul_hi", "mad_hi", "mad_sat") and IT[c] >= 32 else name if name in ("clz", "popcount") else ""
            add(name, rc, [c] * k, spec_b01(name, c), hooks)
            if name in ("min", "max", "clamp"): add(name, rc, [c] + [("scalar", c)] * (k - 1), spec_b01(name, c))
    for c, (h, l) in {"s": ("c", "h"), "t": ("h", "h"), "i": ("s", "t"), "j": ("t", "t"), "l": ("i", "j"), "m": ("j", "j")}.items():
        add("upsample", c, [h, l], spec_b01("upsample", c))
    for c in "ij":
        add("mul24", c, [c, c], spec_b01("mul24", c)); add("mad24", c, [c, c, c], spec_b01("mad24", c))
    out.append(Task("lemma: partial products", W + "_umul_hi_", lemma_products))
    if [f for f in mod.fns.values() if f.dem.startswith(W + "_popcount_(")]: out.append(Task("contract: _popcount_", W + "_popcount_", task_popcount))
    out += [task_mulhi(f, sg) for f, sg in MULHI if has(mod, f)]
    out += tasks_types(mod)
    return out
def tasks_types(mod):
    """getOverloadArgType on every mangled first parameter"""
    if not [f for f in mod.fns.values() if f.dem.startswith(W + "getOverloadArgType(")]: return []
    def run(t):
        for c in list(IT) + list(FT):
            for n in (1, 2, 3, 4, 8, 16):
                for rest in ("", "i", "S_"):
                    if n == 1 and rest == "S_": continue
                    E = t.engine(); strs.install(E); st = State()
                    ov = strs.mkstr(E, overload([c], n) + rest, "overload")
                    for oc in t.reached(E.call(E.mod.fn(W + "getOverloadArgType").name, st, [ov])):
                        E.oblige(oc.st, oc.kind == "ret" and eq(bvv(oc.val, 8), ord(c)), "element type of %s" % (overload([c], n) + rest))
    return [Task("getOverloadArgType", W + "getOverloadArgType", run)]

# ================================================================ B02
REL2 = {"isequal": "oeq", "isnotequal": "une", "isgreater": "ogt", "isgreaterequal": "oge", "isless": "olt", "islessequal": "ole", "islessgreater": "one", "isordered": "ord", "isunordered": "uno"}
REL1 = ("isfinite", "isinf", "isnan", "isnormal", "signbit")
def fcls(name, x, w):
    """classification of a floating-point bit pattern"""
    m = 23 if w == 32 else 52
    e = z3.Extract(w - 2, m, x); f = z3.Extract(m - 1, 0, x); ones = (1 << (w - 1 - m)) - 1
    if name == "isfinite": return e != ones
    if name == "isinf": return z3.And(e == ones, f == 0)
    if name == "isnan": return z3.And(e == ones, f != 0)
    if name == "isnormal": return z3.And(e != ones, e != 0)
    if name == "signbit": return z3.Extract(w - 1, w - 1, x) == 1
    raise Unsupported(name)
def tasks_B02(mod):
    out = []
    def fnof(name):
        try: return mod.fns[handler(mod, name)[0].name].dem.split("(")[0]
        except (Unsupported, AttributeError, KeyError): return W + "initBuiltins"
    def add(name, rc, args, spec, sfx="", widths=None, fallback=[1, 2, 4]):
        out.append(Task("%s(%s)%s" % (name, ",".join(a if isinstance(a, str) else a[1] + " scalar" for a in args), sfx), fnof(name), lanewise(name, rc, args, spec, widths=widths), fallback=fallback))
    for fc, w in FT.items():
        for name, p in REL2.items():
            # scalars: int 1/0; vectors: lanes of the operand's width, all ones for true
            for sfx, rc, ws, tv in ((" scalar", "i", (1,), 1), (" vector", "i" if w == 32 else "l", (None,), M(w))):
                rw = IT[rc]
                add(name, rc, [fc, fc], lambda E, l, p=p, w=w, tv=tv, rw=rw: (True, ite(E.fcmp(p, bvv(l[0], w), bvv(l[1], w), w), tv, 0, rw)), sfx, ws, [1] if ws == (1,) else [2, 4])
        for name in REL1:
            for sfx, rc, ws, tv in ((" scalar", "i", (1,), 1), (" vector", "i" if w == 32 else "l", (None,), M(w))):
                rw = IT[rc]
                # the sign of a NaN is not preserved by IEEE 754 format conversions: signbit is specified for numbers
                add(name, rc, [fc], lambda E, l, name=name, w=w, tv=tv, rw=rw: (True if name != "signbit" else z3.Not(fcls("isnan", bvv(l[0], w), w)), ite(fcls(name, bvv(l[0], w), w), tv, 0, rw)), sfx, ws, [1] if ws == (1,) else [2, 4])
    for c, w in TW.items():
        add("bitselect", c, [c, c, c], lambda E, l, w=w: (True, (bvv(l[0], w) & ~bvv(l[2], w)) | (bvv(l[1], w) & bvv(l[2], w))))
        for k in [k for k in IT if IT[k] == w]:
            nn = (lambda x, w=w: z3.Not(fcls("isnan", x, w))) if c in FT else (lambda x: z3.BoolVal(True))
            def sp(vec, w=w, nn=nn):
                def f(E, l):
                    m = bvv(l[2], w); cnd = z3.Extract(w - 1, w - 1, m) == 1 if vec else m != 0
                    r = z3.If(cnd, bvv(l[1], w), bvv(l[0], w)); return nn(r), r
                return f
            add("select", c, [c, c, k], sp(False), " scalar", (1,), [1]); add("select", c, [c, c, k], sp(True), " vector", (None,), [2, 4])
    def anyall(name, c):
        def run(t):
            w = IT[c]
            for n in (1, 2, 3, 4, 8, 16):
                E = t.engine(loop_mode="unroll") if False else t.engine(); E.loop_mode = "unroll"; st = State()
                v = LVal(E, "op0", I(w) if n == 1 else LT("vec", elt=I(w), n=n)); inst = LInst(E, st, "Call", I(32), [v])
                bits = [z3.Extract(w - 1, w - 1, bvv(v.lane(k), w)) == 1 for k in range(n)]
                for k in range(n): E.inputs["op0[%d]" % k] = bvv(v.lane(k), w)
                sp = z3.If(z3.Or(*bits) if name == "any" else z3.And(*bits), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
                for oc in t.reached(builtin_world(E, inst, name, overload([c], n))(st)):
                    E.oblige(oc.st, oc.kind == "ret" and eq(bvv(oc.st.load(E, Ptr(inst.resd), 4), 32), sp), "%s over %d lanes" % (name, n))
        return run
    for c in "csil":
        for name in ("any", "all"): out.append(Task("%s(%s)" % (name, c), fnof(name), anyall(name, c)))
    def astype(sz):
        def run(t):
            for n in (1, 2, 3, 4, 8, 16):
                for rs in (1, 2, 4, 8):
                    for rn in (1, 2, 3, 4, 8, 16):
                        if not (sz * (4 if n == 3 else n) == rs * (4 if rn == 3 else rn)): continue
                        if sz * n != rs * rn and not ({n, rn} == {3, 4} and sz == rs): continue
                        E = t.engine(); st = State(); T = lambda b, k: I(8 * b) if k == 1 else LT("vec", elt=I(8 * b), n=k)
                        v = LVal(E, "op0", T(sz, n)); inst = LInst(E, st, "Call", T(rs, rn), [v])
                        name = "as_%s%s" % ({1: "char", 2: "short", 4: "int", 8: "long"}[rs], "" if rn == 1 else rn)
                        k = min(sz * n, rs * rn)
                        for oc in t.reached(builtin_world(E, inst, name, overload([{1: "c", 2: "s", 4: "i", 8: "l"}[sz]], n))(st)):
                            E.oblige(oc.st, oc.kind == "ret" and And(*[eq(bvv(oc.st.load(E, Ptr(inst.resd, i), 1), 8), bvv(v.data.byte0(0, i), 8)) for i in range(k)]), "bytes of %s from %d x %d-byte lanes" % (name, n, sz))
        return run
    for sz in (1, 2, 4, 8): out.append(Task("as_type from %d-byte lanes" % sz, fnof("as_int"), astype(sz)))
    def shuf(name, m, c, ns):
        w = TW[c]; k = {8: "h", 16: "t", 32: "j", 64: "m"}[w]; two = name == "shuffle2"
        vm = LT("vec", elt=(F(w) if c in FT else I(w)), n=m)
        def body(t):
            def spec(E, l):
                i = bvv(l[-1], w) & z3.BitVecVal((2 * m if two else m) - 1, w)
                i64 = zext(i, w, 64) if w < 64 else i
                a = bvv(E.ops[0].lane(i64), w)
                return True, z3.If(z3.ULT(i64, m), a, bvv(E.ops[1].lane(i64 - m), w)) if two else a
            vec = lambda n: "Dv%d_%s" % (m, c) + ("S_" if two else "") + ("Dv%d_%s" % (n, k) if n != 1 else k)
            for n in ([x for x in t.params if x in ns] or ns[:1]) if t.params else [None]:
                tt = t.params; t.params = None if n is None else [n]
                def d(E, st, inst): return builtin_world(E, inst, name, vec(8 if n is None else n))(st)
                try:
                    if n is None: t.params = [None]
                    elementwise(t, "Call", F(w) if c in FT else I(w), [("scalar", vm)] * (2 if two else 1) + [I(w)], spec, disp=d)
                finally: t.params = tt
        out.append(Task("%s(%d x %s)" % (name, m, c), fnof(name), body, fallback=[2, 4]))
    for m in (2, 4, 8, 16):
        for c in TW:
            shuf("shuffle", m, c, (2, 4, 8, 16)); shuf("shuffle2", m, c, (2, 4, 8, 16))
    return out
