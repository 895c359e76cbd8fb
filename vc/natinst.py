"""Independent oracle for LLVM instructions, executed on the real simulator (used to replay failed obligations on the
real code and as the thorough tier's bounded cross-check of the proof's assumptions)."""
import random, struct, math, re
import numpy as np
import nat
from insttasks import SHAPES, paths, target, valsize
from lworld import FP_PRED, I_PRED
np.seterr(all="ignore")
HDR = 'target datalayout = "e-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-G1"\ntarget triple = "spir64-unknown-unknown"\ndeclare spir_func i64 @_Z13get_global_idj(i32)\n'
def ityp(b): return "half" if b == "f16" else "float" if b == "f32" else "double" if b == "f64" else "i%d" % b
def bits(b): return int(b[1:]) if isinstance(b, str) else b
def nbytes(b): return (bits(b) + 7) // 8
def M(w): return (1 << w) - 1
def S(x, w): x &= M(w); return x - (1 << w) if x >> (w - 1) else x
def f2b(v, b): return int.from_bytes(struct.pack("<f" if b == "f32" else "<d", v), "little") if not isinstance(v, np.floating) else int.from_bytes(v.tobytes(), "little")
def b2f(x, b): return np.frombuffer(int(x).to_bytes(nbytes(b), "little"), dtype=np.float32 if b == "f32" else np.float64)[0]
def isnan(x, b):
    if b == "f16": return x & 0x7c00 == 0x7c00 and x & 1023 != 0
    e = (x >> 23 & 255) if b == "f32" else (x >> 52 & 2047); m = x & (M(23) if b == "f32" else M(52)); return e == (255 if b == "f32" else 2047) and m != 0
def pool(b, extra, rnd):
    if b == 1: return [0, 1]
    if isinstance(b, str):
        base = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 0.1, 1e10, -1e10, 127.5, 128.0, -128.9, 255.9, 32767.4, 65535.9, 2147483520.0, -2147483648.0, 4294967040.0, 9.2e18, 1.8e19, float("inf"), -float("inf"), float("nan"), 1e-40, 16777217.0, 1.0000001, 3.3333333]
        r = [f2b(np.float32(v) if b == "f32" else np.float64(v), b) for v in base] + ([1, 0x007fffff, 0x00800000, 0x7f7fffff] if b == "f32" else [1, M(52), 1 << 52, 0x7fefffffffffffff, 0x3ff0000010000000, 0x3ff0000030000000, 0x36a0000000000000, 0x47efffffefffffff, 0x47effffff0000000])
        r += [rnd.getrandbits(bits(b)) for _ in range(12)]
    else:
        r = [0, 1, 2, 3, 5, M(b), M(b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << (b - 1)) + 1, b - 1, b // 2, 0x55 & M(b), 100] + [rnd.getrandbits(b) for _ in range(8)]
        if b == 64: r += [0x4000004000000001, 0x100000001, 0xffffffff, 0x80000000, 0x7fffff4000000001, 0x8000004000000001, (1 << 53) + 1, (1 << 63) - 513]
        if b == 32: r += [0xff, 0x100, 0xffff, 0x10000, 0x80, 0x8000, 16777217]
    return [x & M(bits(b)) for x in r + [e for e in extra if e <= M(bits(b))]]
class Case:
    def __init__(self, key, ops, rty, ir, oracle, scal=(), widths=(1, 2, 3, 4, 8, 16), same=None):
        """ir(T): list of lines computing %r from %a0.. ; T(b) is the (vector) type"""
        self.key = key; self.ops = ops; self.rty = rty; self.ir = ir; self.oracle = oracle; self.scal = set(scal); self.widths = widths; self.same = same
def vt(b, n): return ityp(b) if n == 1 else "<%d x %s>" % (n, ityp(b))
def kernel(name, c, n):
    L = []
    ps = ", ".join("ptr addrspace(1) %%p%d" % i for i in range(len(c.ops) + 1))
    na = len(c.ops) + 1
    L.append("define spir_kernel void @%s(%s) !kernel_arg_addr_space !{%s} !kernel_arg_type !{%s} {" % (name, ps, ", ".join(["i32 1"] * na), ", ".join(['!"char*"'] * na)))
    L.append("%gid = call spir_func i64 @_Z13get_global_idj(i32 0)")
    for i, b in enumerate(c.ops):
        k = 1 if i in c.scal else n
        sb = 8 if b == 1 else b
        L.append("%%o%d = mul i64 %%gid, %d" % (i, k * nbytes(b)))
        L.append("%%q%d = getelementptr i8, ptr addrspace(1) %%p%d, i64 %%o%d" % (i, i, i))
        L.append("%%%s%d = load %s, ptr addrspace(1) %%q%d, align 1" % ("l" if b in (1, "ptr") else "a", i, vt(sb, k), i))
        if b == 1: L.append("%%a%d = icmp ne %s %%l%d, %s" % (i, vt(8, k), i, "0" if k == 1 else "zeroinitializer"))
    L += c.ir(n)
    rb = 8 if c.rty == 1 else c.rty
    if c.rty == 1: L.append("%%rz = zext %s %%r to %s" % (vt(1, n), vt(8, n)))
    i = len(c.ops)
    L.append("%%o%d = mul i64 %%gid, %d" % (i, n * nbytes(c.rty)))
    L.append("%%q%d = getelementptr i8, ptr addrspace(1) %%p%d, i64 %%o%d" % (i, i, i))
    L.append("store %s %%%s, ptr addrspace(1) %%q%d, align 1" % (vt(rb, n), "rz" if c.rty == 1 else "r", i))
    L += ["ret void", "}"]
    # metadata nodes must be numbered
    return "\n".join("  " + l if l[0] == "%" or l.startswith(("store", "ret")) else l for l in L)
def number_md(text):
    out = []; md = []
    def sub(m):
        md.append(m.group(0)[1:]); return "!%d" % (len(md) - 1)
    text = re.sub(r"!\{[^}]*\}", lambda m: sub(m), text)
    return text + "\n" + "\n".join("!%d = !%s" % (i, x) for i, x in enumerate(md)) + "\n"
def decls(chunk):
    """declarations the cases need (builtin functions), once each"""
    d = set()
    for i, c, n in chunk:
        f = getattr(c, "decl", None)
        if f: d |= set(f(n))
    return "".join(x + "\n" for x in sorted(d))
def run_cases(cases, info, prop, widths=None, limit=None):
    rnd = random.Random(info["seed"]); extra = []
    for t, r in list(info.get("failed", [])) + list(info.get("undecided", [])):
        for o in r["obls"]:
            for k, v in (o.get("model") or {}).items():
                if isinstance(v, int): extra.append(v)
    extra = extra[:40]
    fails = []; ncases = 0
    todo = [(i, c, n) for i, c in enumerate(cases) for n in c.widths if not widths or n in widths]
    for chunk in [todo[i:i + 150] for i in range(0, len(todo), 150)]:
        k = nat.Krun()
        try:
            k.module(HDR + decls(chunk) + number_md("\n".join(kernel("k%d_%d" % (i, n), c, n) for i, c, n in chunk)))
            for i, c, n in chunk:
                pools = [pool(b, extra, rnd) for b in c.ops]
                tuples = []
                if len(c.ops) == 1: tuples = [(x,) for x in pools[0]]
                else:
                    tuples = [(a, b) for a in pools[0] for b in pools[1]] if len(c.ops) == 2 else [tuple(rnd.choice(p) for p in pools) for _ in range(300)]
                    rnd.shuffle(tuples)
                    tuples = tuples[:limit or (480 if info["tier"] == "quick" else 1600)]
                while len(tuples) % n: tuples.append(rnd.choice(tuples))
                if c.scal:   # scalar operands take the value of the group's first lane
                    tuples = [tuple(tuples[j - j % n][o] if o in c.scal else tuples[j][o] for o in range(len(c.ops))) for j in range(len(tuples))]
                args = []
                for o, b in enumerate(c.ops):
                    vals = [t[o] for j, t in enumerate(tuples) if o not in c.scal or j % n == 0]
                    args.append(("B", b"".join(int(x).to_bytes(nbytes(b), "little") for x in vals)))
                rb = nbytes(c.rty)
                args.append(("B", rb * len(tuples)))
                try: outs, logs = k.run("k%d_%d" % (i, n), args, g=(len(tuples) // n,))
                except nat.KrunCrash as e:
                    fails.append(dict(prop=prop, key=c.key, kind="simulator crashed", width=n, first_inputs=tuples[:4]))
                    k = nat.Krun(); k.module(HDR + decls(chunk) + number_md("\n".join(kernel("k%d_%d" % (i, n), c, n) for i, c, n in chunk))); continue
                got = outs.get(len(c.ops), b"")
                if len(got) != rb * len(tuples): fails.append(dict(prop=prop, key=c.key, kind="no result", width=n, logs=logs[:3])); continue
                bad = 0
                for j, t in enumerate(tuples):
                    ncases += 1
                    grp = tuples[j - j % n: j - j % n + n]
                    e = c.oracle(*t) if c.same is None else c.oracle(grp, j % n)
                    if e is None: continue
                    g = int.from_bytes(got[j * rb:(j + 1) * rb], "little")
                    ok = (g in e) if isinstance(e, (set, tuple)) else (isnan(g, c.rty) if e == "nan" else g == e)
                    if not ok and not bad:
                        bad = 1; fails.append(dict(prop=prop, key=c.key, kind="wrong value", width=n, lane=j % n, operands=["0x%x" % x for x in t], got="0x%x" % g, expected=hex(e) if isinstance(e, int) else str(e)))
                if logs and not bad: fails.append(dict(prop=prop, key=c.key, kind="unexpected diagnostic", width=n, logs=logs[:2]))
        finally: k.close()
        if len(fails) > 30: break
    return dict(cases=ncases, failures=fails, harness="krun")

def op2(opname, ty): return lambda n: ["%%r = %s %s %%a0, %%a1" % (opname, vt(ty, n))]
def o_int(opc, w):
    def f(a, b):
        if opc == "add": return (a + b) & M(w)
        if opc == "sub": return (a - b) & M(w)
        if opc == "mul": return (a * b) & M(w)
        if opc == "and": return a & b
        if opc == "or": return a | b
        if opc == "xor": return a ^ b
        if opc in ("shl", "lshr", "ashr"):
            if b >= w: return None
            return (a << b) & M(w) if opc == "shl" else a >> b if opc == "lshr" else (S(a, w) >> b) & M(w)
        if b == 0: return None
        if opc == "udiv": return a // b
        if opc == "urem": return a % b
        x, y = S(a, w), S(b, w)
        if x == -(1 << (w - 1)) and y == -1: return None
        q = abs(x) // abs(y); q = -q if (x < 0) != (y < 0) else q
        return (q if opc == "sdiv" else x - q * y) & M(w)
    return f
def native_I01(info):
    cs = [Case("%s i%d" % (o, w), [w, w], w, op2(o, w), o_int(o, w)) for o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr") for w in ((8, 16, 32, 64) + ((1,) if o in ("and", "or", "xor") else ()))]
    return run_cases(cs, info, "I01")
def conv(op, a, b): return lambda n: ["%%r = %s %s %%a0 to %s" % (op, vt(a, n), vt(b, n))]
def o_itof(a, f, sg):
    def g(x):
        v = np.array([S(x, a) if sg else x], dtype=np.int64 if sg else np.uint64)
        return f2b(v.astype(np.float32 if f == "f32" else np.float64)[0], f)
    return g
def o_ftoi(f, a, sg):
    def g(x):
        v = float(b2f(x, f))
        if v != v or v in (float("inf"), -float("inf")): return None
        t = math.trunc(v)
        lo, hi = (-(1 << (a - 1)), (1 << (a - 1)) - 1) if sg else (0, M(a))
        return t & M(a) if lo <= t <= hi else None
    return g
def o_ff(a, b):
    def g(x):
        v = b2f(x, a)
        if v != v: return "nan"
        return f2b(np.array([v]).astype(np.float32 if b == "f32" else np.float64)[0], b)
    return g
def native_I02(info):
    cs = []
    for a in (1, 8, 16, 32, 64):
        for b in (1, 8, 16, 32, 64):
            if b < a: cs.append(Case("trunc i%d->i%d" % (a, b), [a], b, conv("trunc", a, b), (lambda b: lambda x: x & M(b))(b)))
            if b > a:
                cs.append(Case("zext i%d->i%d" % (a, b), [a], b, conv("zext", a, b), lambda x: x))
                cs.append(Case("sext i%d->i%d" % (a, b), [a], b, conv("sext", a, b), (lambda a, b: lambda x: S(x, a) & M(b))(a, b)))
    for a in (8, 16, 32, 64):
        for f in ("f32", "f64"):
            for sg in (0, 1):
                cs.append(Case("%sitofp i%d->%s" % ("us"[sg], a, f), [a], f, conv("us"[sg] + "itofp", a, f), o_itof(a, f, sg)))
                cs.append(Case("fpto%si %s->i%d" % ("us"[sg], f, a), [f], a, conv("fpto%si" % "us"[sg], f, a), o_ftoi(f, a, sg)))
        cs.append(Case("inttoptr/ptrtoint i%d" % a, [a], 64, (lambda a: lambda n: ["%%p = inttoptr %s %%a0 to ptr addrspace(1)" % ityp(a), "%r = ptrtoint ptr addrspace(1) %p to i64"])(a), lambda x: x, widths=(1,)))
        cs.append(Case("ptrtoint i%d" % a, [64], a, (lambda a: lambda n: ["%p = inttoptr i64 %a0 to ptr addrspace(1)", "%%r = ptrtoint ptr addrspace(1) %%p to %s" % ityp(a)])(a), (lambda a: lambda x: x & M(a))(a), widths=(1,)))
    cs.append(Case("fpext", ["f32"], "f64", conv("fpext", "f32", "f64"), o_ff("f32", "f64")))
    cs.append(Case("fptrunc", ["f64"], "f32", conv("fptrunc", "f64", "f32"), o_ff("f64", "f32")))
    for w, f in ((32, "f32"), (64, "f64")):
        cs.append(Case("bitcast i%d->%s->i%d" % (w, f, w), [w], w, (lambda w, f: lambda n: ["%%c = bitcast %s %%a0 to %s" % (vt(w, n), vt(f, n)), "%%r = bitcast %s %%c to %s" % (vt(f, n), vt(w, n))])(w, f), lambda x: x))
        cs.append(Case("freeze i%d" % w, [w], w, (lambda w: lambda n: ["%%r = freeze %s %%a0" % vt(w, n)])(w), lambda x: x))
    # reshaping bitcasts: whole-vector identity on bytes
    for (a, na), (b, nb) in (((32, 1), (8, 4)), ((64, 2), (32, 4)), ((8, 16), (64, 2)), ((16, 8), (32, 4))):
        cs.append(Case("bitcast %dxi%d->%dxi%d" % (na, a, nb, b), [a], a, (lambda a, na, b, nb: lambda n: ["%%c = bitcast %s %%a0 to %s" % (vt(a, na), vt(b, nb)), "%%d = add %s %%c, zeroinitializer" % vt(b, nb), "%%r = bitcast %s %%d to %s" % (vt(b, nb), vt(a, na))])(a, na, b, nb), lambda x: x, widths=(na,)))
    return run_cases(cs, info, "I02")
def o_icmp(p, w):
    def f(a, b):
        if p == "eq": return int(a == b)
        if p == "ne": return int(a != b)
        x, y = (S(a, w), S(b, w)) if p[0] == "s" else (a, b)
        return int({"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p[1:]])
    return f
def o_fcmp(p, w):
    def f(a, b):
        x, y = float(b2f(a, w)), float(b2f(b, w)); un = x != x or y != y
        if p == "false": return 0
        if p == "true": return 1
        if p == "ord": return int(not un)
        if p == "uno": return int(un)
        if un: return int(p[0] == "u")
        return int({"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y, "ne": x != y}[p[1:]])
    return f
def native_I03(info):
    cs = []
    for p in I_PRED:
        for w in (8, 16, 32, 64): cs.append(Case("icmp %s i%d" % (p, w), [w, w], 1, op2("icmp " + p, w), o_icmp(p, w), widths=(1, 3, 4, 16)))
        cs.append(Case("icmp %s ptr" % p, [64, 64], 1, (lambda p: lambda n: ["%x = inttoptr i64 %a0 to ptr addrspace(1)", "%y = inttoptr i64 %a1 to ptr addrspace(1)", "%%r = icmp %s ptr addrspace(1) %%x, %%y" % p])(p), o_icmp(p, 64), widths=(1,)))
        if p[0] != "s": cs.append(Case("icmp %s i1" % p, [1, 1], 1, op2("icmp " + p, 1), o_icmp(p, 1), widths=(1, 4)))
    for p in FP_PRED:
        for w in ("f32", "f64"): cs.append(Case("fcmp %s %s" % (p, w), [w, w], 1, op2("fcmp " + p, w), o_fcmp(p, w), widths=(1, 3, 4)))
    for w in (1, 8, 16, 32, 64, "f32", "f64"):
        cs.append(Case("select %s" % w, [1, w, w], w, (lambda w: lambda n: ["%%r = select %s %%a0, %s %%a1, %s %%a2" % (vt(1, n), vt(w, n), vt(w, n))])(w), lambda c, a, b: a if c else b))
        cs.append(Case("select %s scalar condition" % w, [1, w, w], w, (lambda w: lambda n: ["%%r = select i1 %%a0, %s %%a1, %s %%a2" % (vt(w, n), vt(w, n))])(w), lambda c, a, b: a if c else b, scal=[0]))
    r = run_cases(cs, info, "I03"); return r
def native_I04(info):
    cs = []
    rnd = random.Random(info["seed"])
    for w in (8, 16, 32, 64):
        for iw in (32, 64):
            def ex(n, w=w, iw=iw): return ["%%ix = urem i%d %%a1, %d" % (iw, n), "%%e = extractelement %s %%a0, i%d %%ix" % (vt(w, n), iw)] + ["%%r0 = insertelement %s undef, i%d %%e, i32 0" % (vt(w, n), w), "%%r = shufflevector %s %%r0, %s undef, <%d x i32> zeroinitializer" % (vt(w, n), vt(w, n), n)]
            cs.append(Case("extractelement i%d index i%d" % (w, iw), [w, iw], w, ex, lambda grp, j: grp[grp[0][1] % len(grp)][0], scal=[1], widths=(2, 3, 4, 8, 16), same=1))
            def ins(n, w=w, iw=iw): return ["%%ix = urem i%d %%a2, %d" % (iw, n), "%%r = insertelement %s %%a0, i%d %%a1, i%d %%ix" % (vt(w, n), w, iw)]
            cs.append(Case("insertelement i%d index i%d" % (w, iw), [w, w, iw], w, ins, lambda grp, j: grp[0][1] if grp[0][2] % len(grp) == j else grp[j][0], scal=[1, 2], widths=(2, 3, 4, 8, 16), same=1))
        for n in (2, 3, 4, 8, 16):
            for rep in range(3):
                mask = [rnd.randrange(2 * n) for _ in range(n)]
                def sh(nn, w=w, n=n, mask=mask): return ["%%r = shufflevector %s %%a0, %s %%a1, <%d x i32> <%s>" % (vt(w, n), vt(w, n), n, ", ".join("i32 %d" % m for m in mask))]
                cs.append(Case("shufflevector i%d %s" % (w, mask), [w, w], w, sh, (lambda mask: lambda grp, j: (grp[mask[j]][0] if mask[j] < len(grp) else grp[mask[j] - len(grp)][1]))(mask), widths=(n,), same=1))
            # widening and narrowing shuffles
            for m in (2, 3, 4, 8, 16):
                if m == n: continue
                mask = [rnd.randrange(2 * n) for _ in range(m)]; back = [rnd.randrange(m) for _ in range(n)]
                def sh(nn, w=w, n=n, m=m, mask=mask, back=back): return ["%%s = shufflevector %s %%a0, %s %%a1, <%d x i32> <%s>" % (vt(w, n), vt(w, n), m, ", ".join("i32 %d" % x for x in mask)), "%%r = shufflevector %s %%s, %s undef, <%d x i32> <%s>" % (vt(w, m), vt(w, m), n, ", ".join("i32 %d" % x for x in back))]
                mm = [mask[b] for b in back]
                cs.append(Case("shufflevector %dxi%d->%d %s" % (n, w, m, mask), [w, w], w, sh, (lambda mask: lambda grp, j: (grp[mask[j]][0] if mask[j] < len(grp) else grp[mask[j] - len(grp)][1]))(mm), widths=(n,), same=1))
    r = run_cases(cs, info, "I04", limit=96)
    a = aggregates(info); r["cases"] += a["cases"]; r["failures"] += a["failures"]
    return r
def lty(t):
    if t.k == "int": return "i%d" % t.bits
    if t.k == "float": return "float" if t.bits == 32 else "double"
    if t.k == "ptr": return "ptr addrspace(1)"
    if t.k == "vec": return "<%d x %s>" % (t.n, lty(t.elt))
    if t.k == "arr": return "[%d x %s]" % (t.n, lty(t.elt))
    return ("<{%s}>" if t.packed else "{%s}") % ", ".join(map(lty, t.elts))
def leaves(t, off=0):
    if t.k == "struct":
        for i, e in enumerate(t.elts): yield from leaves(e, off + t.offset(i))
    elif t.k == "arr":
        for i in range(t.n): yield from leaves(t.elt, off + i * t.elt.size())
    else: yield off, t
def aggregates(info):
    """load an aggregate, extract / insert one member, store"""
    rnd = random.Random(info["seed"]); fails = []; nc = 0; K = []; T = []
    for si, (ty, _) in enumerate(SHAPES()):
        for pi, path in enumerate(paths(ty)):
            off, et = target(ty, path); ix = ", ".join(map(str, path)); nm = "a%d_%d" % (si, pi)
            md = "!kernel_arg_addr_space !{i32 1, i32 1, i32 1, i32 1} !kernel_arg_type !{!\"char*\", !\"char*\", !\"char*\", !\"char*\"}"
            K.append("define spir_kernel void @%s(ptr addrspace(1) %%a, ptr addrspace(1) %%v, ptr addrspace(1) %%e, ptr addrspace(1) %%o) %s {\n %%A = load %s, ptr addrspace(1) %%a, align 1\n %%V = load %s, ptr addrspace(1) %%v, align 1\n %%E = extractvalue %s %%A, %s\n store %s %%E, ptr addrspace(1) %%e, align 1\n %%N = insertvalue %s %%A, %s %%V, %s\n store %s %%N, ptr addrspace(1) %%o, align 1\n ret void\n}" % (nm, md, lty(ty), lty(et), lty(ty), ix, lty(et), lty(ty), lty(et), ix, lty(ty)))
            T.append((nm, ty, path, off, et))
    k = nat.Krun()
    try:
        k.module(HDR + number_md("\n".join(K)))
        for nm, ty, path, off, et in T:
            def mk(t):
                b = bytearray(rnd.getrandbits(8) for _ in range(t.size()))
                for o, l in leaves(t):
                    if l.k == "int" and l.bits == 1: b[o] &= 1
                return bytes(b)
            A, Vv = mk(ty), mk(et); vs = valsize(et)
            outs, logs = k.run(nm, [("B", A), ("B", Vv[:vs]), ("B", vs), ("B", ty.size())]); nc += 2
            cmpb = lambda t, x, y, base=0: all(x[base + o:base + o + valsize(l)] == y[o:o + valsize(l)] for o, l in leaves(t))
            exp = bytearray(A)
            for o, l in leaves(et): exp[off + o:off + o + valsize(l)] = Vv[o:o + valsize(l)]
            if outs[2] != A[off:off + vs]: fails.append(dict(prop="I04", key="extractvalue", type=repr(ty), path=path, operand=A.hex(), got=outs[2].hex(), expected=A[off:off + vs].hex()))
            if not cmpb(ty, outs[3], bytes(exp)): fails.append(dict(prop="I04", key="insertvalue", type=repr(ty), path=path, operand=A.hex(), value=Vv.hex(), got=outs[3].hex(), expected=exp.hex()))
            if logs: fails.append(dict(prop="I04", key="aggregate diagnostics", type=repr(ty), path=path, logs=logs[:2]))
    except nat.KrunCrash as e: fails.append(dict(prop="I04", key="aggregate crash", type=repr(ty), path=path, what=str(e)))
    finally: k.close()
    return dict(cases=nc, failures=fails)
def native_I05(info):
    cs = []
    def o(opc, w):
        def f(a, b):
            x, y = b2f(a, w), b2f(b, w)
            r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y, "frem": lambda: np.fmod(x, y)}[opc]()
            return "nan" if r != r else f2b(r, w)
        return f
    for w in ("f32", "f64"):
        for opc in ("fadd", "fsub", "fmul", "fdiv", "frem"): cs.append(Case("%s %s" % (opc, w), [w, w], w, op2(opc, w), o(opc, w)))
        cs.append(Case("fneg %s" % w, [w], w, (lambda w: lambda n: ["%%r = fneg %s %%a0" % vt(w, n)])(w), (lambda w: lambda a: "nan" if isnan(a, w) else a ^ (1 << (bits(w) - 1)))(w)))
    return run_cases(cs, info, "I05")
def rand_type(rnd, d=0):
    from lworld import I, F, P, V, A as Arr, S as Str
    k = rnd.randrange(10)
    sc = lambda: rnd.choice([I(8), I(16), I(32), I(64), F(32), F(64)])
    if d >= 3 or k < 3: return sc()
    if k < 6: return V(sc(), rnd.choice([2, 3, 4, 8, 16]))
    if k < 7: return Arr(rand_type(rnd, d + 1), rnd.randrange(1, 5))
    if k < 8: return P(rnd.choice([0, 1, 3]))
    return Str(*[rand_type(rnd, d + 1) for _ in range(rnd.randrange(1, 6))], packed=rnd.random() < .2)
def lty2(t):
    if t.k == "ptr": return "ptr addrspace(%d)" % t.aspace if t.aspace else "ptr"
    if t.k == "vec": return "<%d x %s>" % (t.n, lty2(t.elt))
    if t.k == "arr": return "[%d x %s]" % (t.n, lty2(t.elt))
    if t.k == "struct": return ("<{%s}>" if t.packed else "{%s}") % ", ".join(map(lty2, t.elts))
    return lty(t)
def native_T01(info):
    """sizes, alignments and offsets as observable through address computation: &p[1], &p->member, &{i8,T}.second"""
    from lworld import S as Str, I
    from typetasks import SHAPES3
    rnd = random.Random(info["seed"]); fails = []; n = 0; K = []; T = []
    types = SHAPES3() + [rand_type(rnd) for _ in range(60 if info["tier"] == "quick" else 400)]
    for i, ty in enumerate(types):
        q = [("size", "%s, ptr addrspace(1) %%b, i64 1" % lty2(ty), ty.size())]
        w = Str(I(8), ty); q.append(("alignment", "%s, ptr addrspace(1) %%b, i64 0, i32 1" % lty2(w), ty.align()))
        if ty.k == "struct": q += [("offset of member %d" % j, "%s, ptr addrspace(1) %%b, i64 0, i32 %d" % (lty2(ty), j), ty.offset(j)) for j in range(len(ty.elts))]
        L = ["define spir_kernel void @t%d(ptr addrspace(1) %%p, ptr addrspace(1) %%o) !kernel_arg_addr_space !{i32 1, i32 1} !kernel_arg_type !{!\"char*\", !\"char*\"} {" % i, " %z = load i64, ptr addrspace(1) %p", " %b = inttoptr i64 %z to ptr addrspace(1)"]
        for j, (nm, g, e) in enumerate(q): L += [" %%g%d = getelementptr %s" % (j, g), " %%i%d = ptrtoint ptr addrspace(1) %%g%d to i64" % (j, j), " %%q%d = getelementptr i8, ptr addrspace(1) %%o, i64 %d" % (j, 8 * j), " store i64 %%i%d, ptr addrspace(1) %%q%d, align 1" % (j, j)]
        K.append("\n".join(L + [" ret void", "}"])); T.append((i, ty, q))
    k = nat.Krun()
    try:
        k.module(HDR + number_md("\n".join(K)))
        for i, ty, q in T:
            outs, logs = k.run("t%d" % i, [("B", bytes(8)), ("B", 8 * len(q))])
            for j, (nm, g, e) in enumerate(q):
                n += 1; got = int.from_bytes(outs[1][8 * j:8 * j + 8], "little")
                if got != e: fails.append(dict(prop="T01", key="layout", type=lty2(ty), what=nm, got=got, expected=e)); break
    except nat.KrunCrash as e: fails.append(dict(prop="T01", key="crash", type=lty2(ty), what=str(e)))
    finally: k.close()
    return dict(cases=n, failures=fails, harness="krun")
