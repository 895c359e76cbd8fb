"""Assumed contracts on code outside /repo: LLVM intrinsics, the C/C++ runtime, libstdc++ containers, streams.
Each handler used during a check is listed in that check's evidence as an assumption (trusted external function).
Handler signature: h(E, st, args, inst) -> value | [(st, val)] | Outcome."""
import re
import z3
from engine import *

def nop(E, st, a, I): return 0
def ret_arg0(E, st, a, I): return a[0]

# ---------------------------------------------------------------- heap
def op_new(E, st, a, I):
    n = a[0]
    r = Region("heap%d" % next(fresh_n), local=True, uninit=True)
    r.size = n; r.heap = True
    if not isc(n): r.mode = "byte"
    st.log("alloc", r)
    return Ptr(r)
def op_new_array(E, st, a, I):
    p = op_new(E, st, a, I)
    p.r.mode = E.newarray_mode if hasattr(E, "newarray_mode") else "byte"
    p.r.array = True
    return p
def op_delete(E, st, a, I):
    out = []
    for s, p in E.resolve(st, a[0]):
        if isinstance(p, Ptr) and p.r is not None:
            s.log("free", (p.r, p.inst, p.off))
        out.append((s, None))
    return out
import itertools
fresh_n = itertools.count()

# ---------------------------------------------------------------- mem*
def h_memcpy(E, st, a, I):
    outs = []
    for s1, d in E.resolve(st, a[0]):
        for s2, p in E.resolve(s1, a[1]):
            n = a[2]
            E.access_ok(s2, p, n, "memcpy source", E.cur)
            E.access_ok(s2, d, n, "memcpy destination", E.cur)
            if d.r is None or p.r is None:
                if isc(n) and n == 0: outs.append((s2, a[0]))
                elif not isc(n):
                    s2.assume(eq(n, 0)); outs.append((s2, a[0]))
                else: outs.append(Outcome("unreach", s2))
                continue
            E.memcpy(s2, d, p, n)
            outs.append((s2, a[0]))
    return outs
def h_memset(E, st, a, I):
    outs = []
    for s, d in E.resolve(st, a[0]):
        n = a[2]
        E.access_ok(s, d, n, "memset", E.cur)
        if d.r is None:
            if isc(n) and n == 0: outs.append((s, a[0]))
            else: outs.append(Outcome("unreach", s))
            continue
        v = a[1]
        if isinstance(v, Undef): v = fresh("undef", 8)
        if not isc(v) and v.size() != 8: v = trunc(v, v.size(), 8)
        if isc(v): v &= 255
        E.memset(s, d, v, n)
        outs.append((s, a[0]))
    return outs
def h_memcmp(E, st, a, I):
    n = a[2]
    (s, p), = E.resolve(st, a[0])[:1]; (s, q), = E.resolve(s, a[1])[:1]
    if not isc(n): raise Unsupported("memcmp of symbolic length")
    e = And(*[eq(bvv(s.byte(E, p.r, p.inst, add(p.off, i, 64)), 8), bvv(s.byte(E, q.r, q.inst, add(q.off, i, 64)), 8)) for i in range(n)])
    f = fresh("memcmp", 32); s.assume(f != 0)
    return [(s, ite(e, 0, f, 32))]

# ---------------------------------------------------------------- integer intrinsics
def minmax(kind):
    def h(E, st, a, I):
        w = int(I["ty"][1:]); x, y = a[0], a[1]
        lt = ult if kind[0] == "u" else slt
        c = lt(x, y, w)
        return ite(c, x, y, w) if kind[1:] == "min" else ite(c, y, x, w)
    return h
def h_abs(E, st, a, I):
    w = int(I["ty"][1:]); x = a[0]
    return ite(slt(x, 0, w), sub(0, x, w), x, w)
def h_fabs(E, st, a, I):
    w = int(I["ty"][1:])
    return a[0] & M(w - 1) if isc(a[0]) else a[0] & z3.BitVecVal(M(w - 1), w)
def h_bswap(E, st, a, I):
    w = int(I["ty"][1:]); x = a[0]
    return concat_bytes([extract(8 * i + 7, 8 * i, x, w) for i in reversed(range(w // 8))])
def h_ovf(kind):
    def h(E, st, a, I):
        op, sg = kind[1:4], kind[0] == "s"
        x = a[0]; y = a[1]
        w = x.size() if not isc(x) else y.size() if not isc(y) else int(I["ty"]["e"][0][1][1:])
        ex = (lambda v: sext(v, w, 2 * w)) if sg else (lambda v: zext(v, w, 2 * w))
        f = {"add": add, "sub": sub, "mul": mul}[op]
        full = f(bvv(ex(x), 2 * w), bvv(ex(y), 2 * w), 2 * w)
        r = f(x, y, w)
        return (r, Not(eq(full, bvv(ex(r), 2 * w))))
    return h
def h_ctlz(E, st, a, I):
    w = int(I["ty"][1:]); x = bvv(a[0], w); r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r
def h_cttz(E, st, a, I):
    w = int(I["ty"][1:]); x = bvv(a[0], w); r = z3.BitVecVal(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
    return r
def h_ctpop(E, st, a, I):
    w = int(I["ty"][1:]); x = bvv(a[0], w)
    return z3.simplify(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)], z3.BitVecVal(0, w)))
def h_fsh(kind):
    def h(E, st, a, I):
        w = int(I["ty"][1:]); x, y, s = [bvv(v, w) for v in a[:3]]
        s = z3.URem(s, z3.BitVecVal(w, w)); c = z3.Concat(x, y); s2 = z3.ZeroExt(w, s)
        if kind == "l": return z3.Extract(2 * w - 1, w, c << s2)
        return z3.Extract(w - 1, 0, z3.LShR(c, s2))
    return h
def h_assume(E, st, a, I):
    return 0
def h_throw(kind):
    def h(E, st, a, I): return Outcome("throw", st, kind)
    return h
def h_unreach(E, st, a, I): return Outcome("unreach", st)
def h_fmuladd(E, st, a, I):
    w = int(I["ty"][1:]); return E.farith("fadd", E.farith("fmul", a[0], a[1], w), a[2], w)
def h_fpclass(E, st, a, I):
    w = int(I["aty"][0][1:]); m = a[1]; x = bvv(a[0], w); X = fp(x, w)
    d = E.fdefof(a[0]) if not isc(a[0]) else None
    if m == 3: return E.fcmp("uno", a[0], a[0], w)
    neg = z3.Extract(w - 1, w - 1, x) == 1; ex = {32: 23, 64: 52, 16: 10}[w]
    cl = [z3.And(z3.fpIsNaN(X), z3.Extract(ex - 1, ex - 1, x) == 0), z3.And(z3.fpIsNaN(X), z3.Extract(ex - 1, ex - 1, x) == 1),
          z3.And(z3.fpIsInf(X), neg), z3.And(z3.fpIsNormal(X), neg), z3.And(z3.fpIsSubnormal(X), neg), z3.And(z3.fpIsZero(X), neg),
          z3.And(z3.fpIsZero(X), z3.Not(neg)), z3.And(z3.fpIsSubnormal(X), z3.Not(neg)), z3.And(z3.fpIsNormal(X), z3.Not(neg)), z3.And(z3.fpIsInf(X), z3.Not(neg))]
    if m & 3 == 3: r = [z3.fpIsNaN(X)]
    else: r = [cl[i] for i in (0, 1) if m >> i & 1]
    return Or(*(r + [cl[i] for i in range(2, 10) if m >> i & 1]))
def fnn(name):
    def h(E, st, a, I):
        ws = [int(t[1:]) for t in I["aty"]]; t = I["ty"]
        rw = int(t[1:])
        if rw == 1: raise Unsupported("bool libm")
        return E.fnn("%s_%s" % (name, "_".join(map(str, ws))), a, ws, rw)
    return h

# ---------------------------------------------------------------- std::vector<pointer or scalar>
def tmpl_arg(dem):
    """first template argument of std::vector<...>"""
    i = dem.index("vector<") + 7; d = 0; s = ""
    for c in dem[i:]:
        if c == "<": d += 1
        if c == ">":
            if d == 0: break
            d -= 1
        if c == "," and d == 0: break
        s += c
    return s.strip()
SCALARS = {"int": 4, "unsigned int": 4, "unsigned long": 8, "long": 8, "char": 1, "unsigned char": 1, "bool": None, "short": 2, "unsigned short": 2, "float": 4, "double": 8}
def elemsize(E, t):
    if t.endswith("*"): return 8
    if t in SCALARS: return SCALARS[t]
    for k in (t, t.split("::")[-1]):
        if k in E.mod.types: return E.mod.types[k]["size"]
    raise Unsupported("vector of " + t)

def vec_begin(E, st, v):
    p = st.load(E, v, 8, "ptr"); q = st.load(E, pgep(v, 8), 8, "ptr")
    return p, q
def vec_fix(E, st, v):
    """make sure a vector has a data region; returns (begin,end)"""
    b, e = vec_begin(E, st, v)
    if isinstance(b, Ptr) and b.r is None:
        r = Region("vecdata%d" % next(fresh_n), local=True, uninit=True)
        r.vec = True
        b = Ptr(r); e = Ptr(r)
        st.store(E, v, 8, b); st.store(E, pgep(v, 8), 8, e); st.store(E, pgep(v, 16), 8, e)
    return b, e
def h_vec_push_back(dem):
    def h(E, st, a, I):
        es = elemsize(E, tmpl_arg(dem))
        out = []
        for s, v in E.resolve(st, a[0]):
            b, e = vec_fix(E, s, v)
            t = tmpl_arg(dem)
            for s2, e2 in E.resolve(s, e):
                if t.endswith("*"):
                    x = s2.load(E, a[1], 8, "ptr"); s2.store(E, e2, 8, x)
                elif es in (1, 2, 4, 8) and t in SCALARS:
                    s2.store(E, e2, es, s2.load(E, a[1], es))
                else:
                    for s3, q in E.resolve(s2, a[1])[:1]: E.memcpy(s2, e2, q, es)
                s2.store(E, pgep(v, 8), 8, pgep(e2, es))
                out.append((s2, pgep(e2, 0)))
        return out
    return h
def h_vec_resize(dem):
    def h(E, st, a, I):
        es = elemsize(E, tmpl_arg(dem))
        b, e = vec_fix(E, st, a[0])
        n = a[1]
        if isinstance(b, PIte): raise Unsupported("vector resize")
        old = E.pdiff(e, b)
        newsz = mul(n, es, 64)
        # elements beyond the old size are value-initialised
        r = b.r
        E.zero_from(st, r, b, old, newsz)
        st.store(E, pgep(a[0], 8), 8, pgep(b, newsz))
        return 0
    return h
def h_vec_clear(E, st, a, I):
    b, e = vec_begin(E, st, a[0])
    st.store(E, pgep(a[0], 8), 8, b)
    return 0
def h_vec_zero(E, st, a, I):
    for i in range(3): st.store(E, pgep(a[0], 8 * i), 8, NULL)
    return 0

# ---------------------------------------------------------------- std::queue / std::deque / std::list of scalars
# abstract representation: cell 0 = head index, cell 8 = tail index; elements in a companion region
def seq_region(E, st, p):
    (s, q), = E.resolve(st, p)[:1]
    k = ("seq", q.r.id, str(q.inst), q.off if isc(q.off) else str(q.off))
    r = E.seqs.get(k) if hasattr(E, "seqs") else None
    if not hasattr(E, "seqs"): E.seqs = {}
    if r is None:
        r = Region("seq_%s_%s" % (q.r.name, q.off)); r.stride = None
        E.seqs[k] = r
    return r
def seq_es(dem):
    m = re.match(r".*?(?:queue|deque|list)<([^,<>]*(?:<[^<>]*>)?[^,<>]*)", dem)
    t = m.group(1).strip()
    return 8 if t.endswith("*") else SCALARS.get(t), t
def q_head(E, st, p): return st.load(E, p, 8)
def q_tail(E, st, p): return st.load(E, pgep(p, 8), 8)
def h_q_empty(dem):
    return lambda E, st, a, I: eq(q_head(E, st, a[0]), q_tail(E, st, a[0]))
def h_q_size(dem):
    return lambda E, st, a, I: sub(q_tail(E, st, a[0]), q_head(E, st, a[0]), 64)
def h_q_front(dem):
    es, t = seq_es(dem)
    def h(E, st, a, I):
        E.oblige(st, Not(eq(q_head(E, st, a[0]), q_tail(E, st, a[0]))), "no-front-of-empty-queue", E.cur)
        return Ptr(seq_region(E, st, a[0]), mul(q_head(E, st, a[0]), es, 64))
    return h
def h_q_back(dem):
    es, t = seq_es(dem)
    def h(E, st, a, I):
        return Ptr(seq_region(E, st, a[0]), mul(sub(q_tail(E, st, a[0]), 1, 64), es, 64))
    return h
def h_q_pop(dem):
    def h(E, st, a, I):
        E.oblige(st, Not(eq(q_head(E, st, a[0]), q_tail(E, st, a[0]))), "no-pop-of-empty-queue", E.cur)
        st.store(E, a[0], 8, add(q_head(E, st, a[0]), 1, 64)); return 0
    return h
def h_q_push(dem):
    es, t = seq_es(dem)
    def h(E, st, a, I):
        tl = q_tail(E, st, a[0]); r = seq_region(E, st, a[0])
        if t.endswith("*"): st.store(E, Ptr(r, mul(tl, es, 64)), 8, st.load(E, a[1], 8, "ptr"))
        else: st.store(E, Ptr(r, mul(tl, es, 64)), es, st.load(E, a[1], es))
        st.store(E, pgep(a[0], 8), 8, add(tl, 1, 64)); return 0
    return h
def h_q_ctor(dem):
    def h(E, st, a, I):
        st.store(E, a[0], 8, 0); st.store(E, pgep(a[0], 8), 8, 0); return 0
    return h
def h_q_assign(dem):
    def h(E, st, a, I):
        # only assignment from an empty temporary
        hd, tl = q_head(E, st, a[1]), q_tail(E, st, a[1])
        if not (isc(hd) and isc(tl) and hd == tl): raise Unsupported("queue assignment from non-empty queue")
        st.store(E, a[0], 8, 0); st.store(E, pgep(a[0], 8), 8, 0); return a[0]
    return h

# ---------------------------------------------------------------- default table
EXACT = {
    "operator new(unsigned long)": op_new, "operator new[](unsigned long)": op_new_array,
    "operator new(unsigned long, std::nothrow_t const&)": op_new,
    "operator delete(void*)": op_delete, "operator delete(void*, unsigned long)": op_delete,
    "operator delete[](void*)": op_delete, "operator delete[](void*, unsigned long)": op_delete,
    "malloc": op_new_array, "free": op_delete,
    "memcpy": h_memcpy, "memmove": h_memcpy, "memset": h_memset, "memcmp": h_memcmp, "bcmp": h_memcmp,
    "llvm.assume": h_assume, "llvm.trap": h_unreach, "abort": h_unreach, "__clang_call_terminate": h_unreach,
    "__cxa_throw": h_throw("exception"), "__cxa_rethrow": h_throw("exception"), "_Unwind_Resume": h_throw("exception"),
    "snprintf": nop, "printf": nop, "fprintf": nop, "puts": nop,
    "pthread_mutex_lock": nop, "pthread_mutex_unlock": nop,
    "__cxa_guard_acquire": lambda E, st, a, I: 0, "__cxa_guard_release": nop, "__cxa_atexit": nop,
    "std::chrono::_V2::system_clock::now()": lambda E, st, a, I: fresh("clock", 64),
    "std::chrono::_V2::steady_clock::now()": lambda E, st, a, I: fresh("clock", 64),
}
def cxa_alloc(E, st, a, I):
    r = Region("exc%d" % next(fresh_n), local=True, uninit=True); r.size = a[0]; return Ptr(r)
EXACT["__cxa_allocate_exception"] = cxa_alloc
EXACT["__cxa_free_exception"] = nop
EXACT["__cxa_begin_catch"] = lambda E, st, a, I: NULL
EXACT["__cxa_end_catch"] = nop

PREFIX = [
    ("llvm.lifetime.", nop), ("llvm.dbg.", nop), ("llvm.experimental.noalias", nop), ("llvm.stacksave", lambda E, st, a, I: NULL), ("llvm.stackrestore", nop),
    ("llvm.memcpy.", h_memcpy), ("llvm.memmove.", h_memcpy), ("llvm.memset.", h_memset),
    ("llvm.expect.", ret_arg0), ("llvm.umin.", minmax("umin")), ("llvm.umax.", minmax("umax")),
    ("llvm.smin.", minmax("smin")), ("llvm.smax.", minmax("smax")), ("llvm.abs.", h_abs), ("llvm.fabs.", h_fabs),
    ("llvm.bswap.", h_bswap), ("llvm.ctlz.", h_ctlz), ("llvm.cttz.", h_cttz), ("llvm.ctpop.", h_ctpop),
    ("llvm.fshl.", h_fsh("l")), ("llvm.fshr.", h_fsh("r")), ("llvm.fmuladd.", h_fmuladd), ("llvm.is.fpclass.", h_fpclass),
    ("llvm.sadd.with.overflow", h_ovf("sadd")), ("llvm.uadd.with.overflow", h_ovf("uadd")),
    ("llvm.ssub.with.overflow", h_ovf("ssub")), ("llvm.usub.with.overflow", h_ovf("usub")),
    ("llvm.smul.with.overflow", h_ovf("smul")), ("llvm.umul.with.overflow", h_ovf("umul")),
    ("std::__throw_", h_throw("exception")),
]
LIBM1 = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10", "expm1", "log", "log2", "log10",
         "log1p", "logb", "sqrt", "cbrt", "erf", "erfc", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "lgamma", "tgamma",
         "pow", "atan2", "fmod", "remainder", "hypot", "fdim", "fma", "fmax", "fmin", "nextafter", "copysign", "ldexp", "ilogb", "lgamma_r", "frexp", "modf", "remquo"}
def default(name, dem, fn):
    if dem in EXACT: return EXACT[dem]
    if name in EXACT: return EXACT[name]
    for p, h in PREFIX:
        if dem.startswith(p): return h
    b = dem.split("(")[0]
    if fn.decl:
        if name in ("fmod", "fmodf"): return lambda E, st, a, I: E.farith("frem", a[0], a[1], int(I["ty"][1:]))
        n = name[:-1] if name.endswith("f") and name[:-1] in LIBM1 else name
        if n in LIBM1: return fnn(n)
        m = re.match(r"llvm\.(\w+)\.f(32|64|80)$", name)
        if m and m.group(1) in LIBM1 | {"powi", "maxnum", "minnum"}: return fnn(m.group(1))
    if re.match(r"std::(__cxx11::)?basic_string<char.*>::basic_string", dem) or re.match(r"std::(__cxx11::)?basic_string<char.*~basic_string", dem): return nop
    if re.match(r"std::(__new_allocator|allocator)<.*>::(~)?(__new_allocator|allocator)\(", dem): return nop
    if dem.startswith("std::mutex::"): return h_mutex(b.split("::")[-1])
    if dem.startswith("std::ostream") or dem.startswith("std::basic_ostream") or re.match(r"std::(__cxx11::)?basic_[io]?stringstream|std::(__cxx11::)?basic_string<char|std::set(w|fill|precision)|std::ios_base|std::basic_ios", dem): 
        return stream_ret
    if re.match(r"std::basic_ostream<.*& std::operator<<", dem): return stream_ret
    if dem.startswith("std::vector<") :
        m = dem[_tmpl_end(dem):]
        if m.startswith("::push_back("): return h_vec_push_back(dem)
        if m.startswith("::resize(unsigned long)"): return h_vec_resize(dem)
        if m.startswith("::clear()"): return h_vec_clear
        if m.startswith("::vector()"): return h_vec_zero
        if m.startswith("::~vector()"): return nop
    if dem.startswith("std::queue<"):
        m = dem[_tmpl_end(dem):]
        for k, f in (("::empty()", h_q_empty), ("::size()", h_q_size), ("::front()", h_q_front), ("::back()", h_q_back), ("::pop()", h_q_pop), ("::push(", h_q_push),
                     ("::queue<", h_q_ctor), ("::queue()", h_q_ctor), ("::operator=(", h_q_assign)):
            if m.startswith(k): return f(dem)
        if m.startswith("::~queue()"): return nop
    if re.search(r"oclgrind::Context::notify\w+\(|oclgrind::Context::logError", dem) and fn.decl: return nop
    if dem.startswith("oclgrind::FatalError::FatalError"): return nop
    return None
def _tmpl_end(dem):
    i = dem.index("<"); d = 0
    for k in range(i, len(dem)):
        if dem[k] == "<": d += 1
        elif dem[k] == ">":
            d -= 1
            if d == 0: return k + 1
    return len(dem)
def stream_ret(E, st, a, I):
    if I is not None and I.get("ty") == "ptr": return a[0] if a else NULL
    if I is not None and isinstance(I.get("ty"), str) and I["ty"].startswith("i") and I["ty"][1:].isdigit():
        return fresh("stream", int(I["ty"][1:])) if I["ty"] != "i1" else freshb("stream")
    return 0
def h_mutex(m):
    def h(E, st, a, I):
        st.log("mutex", (m, a[0]))
        return 0
    return h
