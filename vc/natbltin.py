"""Native oracle for the OpenCL C builtins: calls on the real simulator compared with exact Python arithmetic."""
import nat
from natinst import *
from mangle import *
W_ = lambda c: IT[c]
def tb(c): return "f16" if c == "e" else "f%d" % FT[c] if c in FT else IT[c]
def bcase(name, rc, args, oracle, key=None, widths=(1, 2, 3, 4, 8, 16)):
    """call of builtin `name`: args are type characters or ('scalar', c)"""
    sc = [i for i, a in enumerate(args) if isinstance(a, tuple)]
    chars = [a[1] if isinstance(a, tuple) else a for a in args]
    fn = lambda n: mangled(name, args, n)
    ty = lambda i, n: vt(tb(chars[i]), 1 if i in sc else n)
    sig = lambda n: ["%s %%a%d" % (ty(i, n), i) for i in range(len(args))]
    c = Case(key or "%s(%s)" % (name, ",".join(a if isinstance(a, str) else "scalar " + a[1] for a in args)), [tb(x) for x in chars], tb(rc),
             lambda n: ["%%r = call spir_func %s @%s(%s)" % (vt(tb(rc), n), fn(n), ", ".join(sig(n)))], oracle, scal=sc, widths=widths)
    c.decl = lambda n: ["declare spir_func %s @%s(%s)" % (vt(tb(rc), n), fn(n), ", ".join(ty(i, n) for i in range(len(args))))]
    return c
def o_b01(name, c):
    w = IT[c]; sg = c in STY; v = (lambda x: S(x, w)) if sg else (lambda x: x)
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, M(w))
    sat = lambda x: max(lo, min(hi, x)) & M(w)
    def f(*raw):
        a = [v(x) for x in raw]
        if name == "abs": return abs(a[0]) & M(w)
        if name == "abs_diff": return abs(a[0] - a[1]) & M(w)
        if name == "add_sat": return sat(a[0] + a[1])
        if name == "sub_sat": return sat(a[0] - a[1])
        if name == "hadd": return (a[0] + a[1] >> 1) & M(w)
        if name == "rhadd": return (a[0] + a[1] + 1 >> 1) & M(w)
        if name == "min": return min(a) & M(w)
        if name == "max": return max(a) & M(w)
        if name == "clamp": return None if a[1] > a[2] else min(max(a[0], a[1]), a[2]) & M(w)
        if name == "rotate":
            s = raw[1] % w; return ((raw[0] << s) | (raw[0] >> (w - s))) & M(w)
        if name == "clz": return w - raw[0].bit_length()
        if name == "popcount": return bin(raw[0]).count("1")
        if name == "mul_hi": return (a[0] * a[1] >> w) & M(w)
        if name == "mad_hi": return ((a[0] * a[1] >> w) + a[2]) & M(w)
        if name == "mad_sat": return sat(a[0] * a[1] + a[2])
        if name in ("mul24", "mad24"):
            l, h = (-(1 << 23), (1 << 23) - 1) if sg else (0, M(24))
            if not all(l <= x <= h for x in a[:2]): return None
            return (a[0] * a[1] + (a[2] if name == "mad24" else 0)) & M(w)
        raise KeyError(name)
    return f
B01_NAMES = {"abs": 1, "abs_diff": 2, "add_sat": 2, "sub_sat": 2, "hadd": 2, "rhadd": 2, "min": 2, "max": 2, "clamp": 3, "rotate": 2, "clz": 1, "popcount": 1, "mul_hi": 2, "mad_hi": 3, "mad_sat": 3}
def native_B01(info):
    cs = []
    for name, k in B01_NAMES.items():
        for c in IT:
            rc = {"c": "h", "s": "t", "i": "j", "l": "m"}.get(c, c) if name in ("abs", "abs_diff") else c
            cs.append(bcase(name, rc, [c] * k, o_b01(name, c)))
            if name in ("min", "max", "clamp"): cs.append(bcase(name, rc, [c] + [("scalar", c)] * (k - 1), o_b01(name, c), widths=(2, 3, 4, 8, 16)))
    for c, (h, l) in {"s": ("c", "h"), "t": ("h", "h"), "i": ("s", "t"), "j": ("t", "t"), "l": ("i", "j"), "m": ("j", "j")}.items():
        cs.append(bcase("upsample", c, [h, l], lambda x, y, h=h: (x << IT[h]) | y))
    for c in "ij":
        cs.append(bcase("mul24", c, [c, c], o_b01("mul24", c))); cs.append(bcase("mad24", c, [c, c, c], o_b01("mad24", c)))
    return run_cases(cs, info, "B01")
# ---------------------------------------------------------------- B02
def fval(x, c): return float(b2f(x, tb(c)))
def o_rel2(name, c, tv):
    import operator as o
    def f(a, b):
        x, y = fval(a, c), fval(b, c); un = x != x or y != y
        r = {"isequal": x == y, "isnotequal": x != y, "isgreater": x > y, "isgreaterequal": x >= y, "isless": x < y, "islessequal": x <= y, "islessgreater": x < y or x > y, "isordered": not un, "isunordered": un}[name]
        return tv if r else 0
    return f
def o_rel1(name, c, tv):
    w = FT[c]; m = 23 if w == 32 else 52; ones = M(w - 1 - m)
    def f(x):
        e = x >> m & ones; q = x & M(m)
        r = {"isfinite": e != ones, "isinf": e == ones and q == 0, "isnan": e == ones and q != 0, "isnormal": e not in (0, ones), "signbit": x >> (w - 1)}[name]
        return tv if r else 0
    return f
def native_B02(info):
    cs = []; V_ = (2, 3, 4, 8, 16)
    for c, w in FT.items():
        for n in ("isequal", "isnotequal", "isgreater", "isgreaterequal", "isless", "islessequal", "islessgreater", "isordered", "isunordered"):
            cs.append(bcase(n, "i", [c, c], o_rel2(n, c, 1), widths=(1,))); cs.append(bcase(n, "i" if w == 32 else "l", [c, c], o_rel2(n, c, M(w)), widths=V_))
        for n in ("isfinite", "isinf", "isnan", "isnormal", "signbit"):
            cs.append(bcase(n, "i", [c], o_rel1(n, c, 1), widths=(1,))); cs.append(bcase(n, "i" if w == 32 else "l", [c], o_rel1(n, c, M(w)), widths=V_))
    for c, w in TW.items():
        cs.append(bcase("bitselect", c, [c, c, c], lambda a, b, s, w=w: (a & ~s | b & s) & M(w)))
        nan = (lambda x, c=c: isnan(x, tb(c))) if c in FT else lambda x: False
        def osel(vec, w=w, nan=nan):
            def f(a, b, s):
                r = b if (s >> (w - 1) if vec else s) else a
                return "nan" if nan(r) else r
            return f
        for k in [k for k in IT if IT[k] == w]:
            cs.append(bcase("select", c, [c, c, k], osel(False), widths=(1,))); cs.append(bcase("select", c, [c, c, k], osel(True), widths=V_))
    for c in "csil":
        w = IT[c]
        for name in ("any", "all"):
            k = Case("%s(%s)" % (name, c), [w], 32, (lambda name, c, w: lambda n: ["%%s = call spir_func i32 @%s(%s %%a0)" % (mangled(name, [c], n), vt(w, n))] + (["%r = add i32 %s, 0"] if n == 1 else ["%%t = insertelement <%d x i32> poison, i32 %%s, i32 0" % n, "%%r = shufflevector <%d x i32> %%t, <%d x i32> poison, <%d x i32> zeroinitializer" % (n, n, n)]))(name, c, w),
                     None, same=(lambda name, w: lambda grp, j: int((any if name == "any" else all)(t[0] >> (w - 1) for t in grp)))(name, w))
            k.oracle = k.same; k.decl = (lambda name, c, w: lambda n: ["declare spir_func i32 @%s(%s)" % (mangled(name, [c], n), vt(w, n))])(name, c, w)
            cs.append(k)
    for a, n in ((8, 4), (8, 8), (8, 16), (16, 2), (16, 4), (16, 8), (32, 1), (32, 2), (32, 4), (64, 1), (64, 2)):
        for b in (8, 16, 32, 64):
            q = a * n // b
            if q not in (1, 2, 4, 8, 16) or a * n % b: continue
            nm = "as_" + {8: "char", 16: "short", 32: "int", 64: "long"}[b] + ("" if q == 1 else str(q)); src = {8: "c", 16: "s", 32: "i", 64: "l"}[a]
            f = mangled(nm, [src], n)
            k = Case("%s(%d x i%d)" % (nm, n, a), [a], a, (lambda a, n, b, q, f: lambda _: ["%%c = call spir_func %s @%s(%s %%a0)" % (vt(b, q), f, vt(a, n)), "%%r = bitcast %s %%c to %s" % (vt(b, q), vt(a, n))])(a, n, b, q, f), lambda x: x, widths=(n,))
            k.decl = (lambda a, n, b, q, f: lambda _: ["declare spir_func %s @%s(%s)" % (vt(b, q), f, vt(a, n))])(a, n, b, q, f)
            cs.append(k)
    for c in IT:
        w = IT[c]; u = {8: "h", 16: "t", 32: "j", 64: "m"}[w]
        for m in (2, 4, 8, 16):
            for two in (0, 1):
                name = "shuffle2" if two else "shuffle"
                # result width = source width so that each group supplies its own sources and mask
                f = "_Z%d%sDv%d_%s%s%s" % (len(name), name, m, c, "S_" if two else "", "S_" if u == c and 0 else "Dv%d_%s" % (m, u))
                v = vt(w, m); ps = [v] * (3 if two else 2)
                def same(grp, j, m=m, two=two):
                    x = grp[j][-1] % (2 * m if two else m)
                    return grp[x][0] if x < m else grp[x - m][1]
                k = Case("%s(%d x %s)" % (name, m, c), [w] * len(ps), w, (lambda v, f, ps: lambda n: ["%%r = call spir_func %s @%s(%s)" % (v, f, ", ".join("%s %%a%d" % (p, i) for i, p in enumerate(ps)))])(v, f, ps), None, widths=(m,), same=same)
                k.oracle = same; k.decl = (lambda v, f, ps: lambda n: ["declare spir_func %s @%s(%s)" % (v, f, ", ".join(ps))])(v, f, ps)
                cs.append(k)
    return run_cases(cs, info, "B02")
