"""Native oracles for memory instructions and control flow on the real simulator."""
import random, struct
import nat
from natinst import HDR, number_md, lty
from lworld import *
def mdk(n): return "!kernel_arg_addr_space !{%s} !kernel_arg_type !{%s}" % (", ".join(["i32 1"] * n), ", ".join(['!"char*"'] * n))
SC = [I(8), I(16), I(32), I(64), F(32), F(64)]
def rtype(rnd, d=0):
    k = rnd.random()
    if d >= 3 or k < .35: return rnd.choice(SC)
    if k < .5: return V(rnd.choice(SC), rnd.choice([2, 3, 4, 8, 16]))
    if k < .75: return A(rtype(rnd, d + 1), rnd.randint(1, 5))
    return S(*[rtype(rnd, d + 1) for _ in range(rnd.randint(1, 4))], packed=rnd.random() < .25)
def sx(v, w): return v - (1 << w) if v >> (w - 1) else v
def native_I06(info):
    rnd = random.Random(info["seed"]); N = 150 if info["tier"] == "quick" else 1500
    fails = []; nc = 0; K = []; T = []
    # getelementptr
    for q in range(N):
        ty = rtype(rnd); t = ty; path = []; ops = []; W = []; body = []
        first = True; nidx = 0
        def dyn():
            nonlocal nidx
            w = rnd.choice([8, 16, 32, 64]); i = nidx; nidx += 1; W.append(w)
            body.append(" %%q%d = getelementptr i8, ptr addrspace(1) %%x, i64 %d\n %%i%d = load i%d, ptr addrspace(1) %%q%d, align 1\n" % (i, 8 * i, i, w, i))
            return "i%d %%i%d" % (w, i), ("d", i)
        s, m = dyn(); ops.append(s); spec = [(m, t.size())]
        while t.k in ("arr", "struct", "vec") and rnd.random() < .85:
            if t.k == "struct":
                i = rnd.randrange(len(t.elts)); ops.append("i32 %d" % i); spec.append((None, t.offset(i))); t = t.elts[i]
            else:
                s, m = dyn(); ops.append(s); spec.append((m, t.elt.size())); t = t.elt
        K.append("define spir_kernel void @g%d(ptr addrspace(1) %%b, ptr addrspace(1) %%x, ptr addrspace(1) %%o) %s {\n%s %%p = getelementptr %s, ptr addrspace(1) %%b, %s\n %%a = ptrtoint ptr addrspace(1) %%p to i64\n %%c = ptrtoint ptr addrspace(1) %%b to i64\n %%r = sub i64 %%a, %%c\n store i64 %%r, ptr addrspace(1) %%o, align 1\n ret void\n}" % (q, mdk(3), "".join(body), lty(ty), ", ".join(ops)))
        T.append((q, ty, W, spec))
    # load / store of every kind of type at every alignment, in every address space
    LS = []
    types = SC + [V(t, n) for t in SC for n in (2, 3, 4, 8, 16)] + [P(1), A(I(16), 3), S(I(8), I(32)), S(I(8), V(I(16), 4), I(64))]
    for j, ty in enumerate(types):
        for sp in (0, 1, 3):
            nm = "l%d_%d" % (j, sp); off = rnd.randrange(0, 9); b = []
            if sp == 0: b.append(" %m = alloca [64 x i64], align 8\n")
            arg = ", ptr addrspace(3) %m" if sp == 3 else ""
            md = "!kernel_arg_addr_space !{i32 1, i32 1%s} !kernel_arg_type !{!\"char*\", !\"char*\"%s}" % ((", i32 3", ", !\"char*\"") if sp == 3 else ("", ""))
            a = "addrspace(%d) " % sp if sp else ""
            tl = lty(ty)
            b.append(" %%s = getelementptr i8, ptr addrspace(1) %%a, i64 %d\n %%v = load %s, ptr addrspace(1) %%s, align 1\n" % (off, tl))
            if sp == 1: b.append(" %%d = getelementptr i8, ptr addrspace(1) %%o, i64 %d\n store %s %%v, ptr addrspace(1) %%d, align 1\n" % (off + 3, tl))
            else: b.append(" %%d = getelementptr i8, ptr %s%%m, i64 %d\n store %s %%v, ptr %s%%d, align 1\n %%w = load %s, ptr %s%%d, align 1\n %%e = getelementptr i8, ptr addrspace(1) %%o, i64 %d\n store %s %%w, ptr addrspace(1) %%e, align 1\n" % (a, off, tl, a, tl, a, off + 3, tl))
            K.append("define spir_kernel void @%s(ptr addrspace(1) %%a, ptr addrspace(1) %%o%s) %s {\n%s ret void\n}" % (nm, arg, md, "".join(b))); LS.append((nm, ty, sp, off))
    # alloca: distinct, large enough
    AL = []
    for q in range(N // 5):
        tys = [rtype(rnd) for _ in range(rnd.randint(2, 8))]; cnt = [rnd.choice([None, None, 1, 2, 5, "d"]) for _ in tys]; b = []; dynv = rnd.randint(1, 9)
        for i, (ty, c) in enumerate(zip(tys, cnt)):
            b.append(" %%p%d = alloca %s%s\n %%a%d = ptrtoint ptr %%p%d to i64\n %%o%d = getelementptr i64, ptr addrspace(1) %%o, i64 %d\n store i64 %%a%d, ptr addrspace(1) %%o%d, align 8\n" % (i, lty(ty), "" if c is None else ", i32 %s" % ("%n" if c == "d" else c), i, i, i, i, i, i))
        for i, (ty, c) in enumerate(zip(tys, cnt)):
            n = ty.size() * (1 if c is None else dynv if c == "d" else c)
            b.append(" %%e%d = getelementptr i8, ptr %%p%d, i64 %d\n store i8 %d, ptr %%e%d, align 1\n" % (i, i, n - 1, i + 1, i))
        for i, (ty, c) in enumerate(zip(tys, cnt)): b.append(" %%l%d = load i8, ptr %%e%d, align 1\n %%x%d = getelementptr i8, ptr addrspace(1) %%r, i64 %d\n store i8 %%l%d, ptr addrspace(1) %%x%d, align 1\n" % (i, i, i, i, i, i))
        K.append("define spir_kernel void @al%d(ptr addrspace(1) %%o, ptr addrspace(1) %%r, i32 %%n) !kernel_arg_addr_space !{i32 1, i32 1, i32 0} !kernel_arg_type !{!\"char*\", !\"char*\", !\"int\"} {\n%s ret void\n}" % (q, "".join(b)))
        AL.append((q, tys, cnt, dynv))
    k = nat.Krun(); what = "module"
    try:
        k.module(HDR + number_md("\n".join(K)))
        for q, ty, W, spec in T:
            for _ in range(2):
                vals = [rnd.choice([0, 1, 2, M(w), 1 << (w - 1), M(w - 1), rnd.getrandbits(w)]) for w in W]; nc += 1; what = "gep %r" % ty
                outs, logs = k.run("g%d" % q, [("B", 8), ("B", b"".join(struct.pack("<Q", v) for v in vals)), ("B", 8)])
                exp = sum((sx(vals[m[1]], W[m[1]]) if m else 1) * s for m, s in spec) & M(64)
                got = int.from_bytes(outs[2], "little")
                if got != exp or logs: fails.append(dict(prop="I06", key="getelementptr", type=repr(ty), indices=[(hex(v), w) for v, w in zip(vals, W)], got=hex(got), expected=hex(exp), logs=logs[:2]))
        for nm, ty, sp, off in LS:
            n = ty.elt.size() * ty.n if ty.k == "vec" else ty.size(); n0 = ty.size(); what = "load/store %r in address space %d" % (ty, sp); nc += 1
            A_ = bytes(rnd.getrandbits(8) for _ in range(off + n)); size = off + 3 + n
            outs, logs = k.run(nm, [("B", A_), ("B", size + 8)] + ([("L", off + n)] if sp == 3 else []))
            exp = bytes(off + 3) + A_[off:off + n] + bytes(8)
            if outs[1] != exp or logs: fails.append(dict(prop="I06", key=what, offset=off, got=outs[1].hex(), expected=exp.hex(), logs=logs[:2]))
        for q, tys, cnt, dynv in AL:
            what = "alloca %r" % tys; nc += 1
            outs, logs = k.run("al%d" % q, [("B", 8 * len(tys)), ("B", len(tys)), ("V", struct.pack("<i", dynv))])
            ad = struct.unpack("<%dQ" % len(tys), outs[0]); sz = [ty.size() * (1 if c is None else dynv if c == "d" else c) for ty, c in zip(tys, cnt)]
            bad = logs or 0 in ad or outs[1] != bytes(range(1, len(tys) + 1)) or any(a < b + y and b < a + x for i, (a, x) in enumerate(zip(ad, sz)) for b, y in list(zip(ad, sz))[:i])
            if bad: fails.append(dict(prop="I06", key="alloca", types=repr(tys), counts=repr(cnt), n=dynv, addresses=[hex(a) for a in ad], sizes=sz, got=outs[1].hex(), logs=logs[:2]))
    except nat.KrunCrash as e: fails.append(dict(prop="I06", key="crash", what=what + ": " + str(e)))
    finally: k.close()
    return dict(cases=nc, failures=fails)
