"""Native oracle for convert_*: exact rational arithmetic."""
from fractions import Fraction as Fr
from natbltin import *
from bltconv import NAMES
MODES = ("", "_rte", "_rtz", "_rtp", "_rtn")
FMT = {"f": (24, -126, 127, 32), "d": (53, -1022, 1023, 64), "e": (11, -14, 15, 16)}
def rint(q, mode):
    """rational -> integer"""
    f = q.numerator // q.denominator; d = q - f
    if d == 0: return f
    if mode == "_rte": return f if d < Fr(1, 2) else f + 1 if d > Fr(1, 2) else f + (f & 1)
    if mode == "_rtz": return f if q > 0 else f + 1
    return f + 1 if mode == "_rtp" else f
def tofloat(q, c, mode, neg=False):
    """bits of the rational q rounded to the format of c"""
    p, emin, emax, w = FMT[c]; sb = 1 << w - 1; mode = mode or "_rte"
    if q == 0: return sb if neg else 0
    s = sb if q < 0 else 0; a = abs(q)
    m = mode if not s else {"_rtp": "_rtn", "_rtn": "_rtp"}.get(mode, mode)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fr(2) ** e > a: e -= 1
    e = max(e, emin); k = rint(a / Fr(2) ** (e - p + 1), m)
    if k >> p: k >>= 1; e += 1
    inf = s | ((2 * emax + 1) << p - 1)
    if e > emax: return inf if m in ("_rte", "_rtp") else inf - 1
    return s | (((e + emax) << p - 1) + k - (1 << p - 1) if k >> p - 1 else k)
def oracle(src, dst, sat, mode):
    def f(x):
        if src in IT: v = Fr(S(x, IT[src]) if src in STY else x); neg = False
        else:
            w = FT[src]; y = float(b2f(x, tb(src))); neg = bool(x >> w - 1)
            if y != y: return "nan" if dst not in IT else 0 if sat else None
            if y in (float("inf"), -float("inf")):
                if dst not in IT: return (1 << FMT[dst][3] - 1 if neg else 0) | ((2 * FMT[dst][2] + 1) << FMT[dst][0] - 1)
                if not sat: return None
                v = Fr(-1 if neg else 1) * (1 << 200)
            else: v = Fr(y)
        if dst not in IT: return tofloat(v, dst, mode, neg)
        b = IT[dst]; lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if dst in STY else (0, M(b))
        if src in IT: n = int(v); return (max(lo, min(hi, n)) if sat else n) & M(b)
        n = rint(v, mode or "_rtz")
        if not lo <= n <= hi: return (max(lo, min(hi, n)) & M(b)) if sat else None
        return n & M(b)
    return f
def native_B05(info):
    cs = []
    for dst in list(TW) + ["e"]:
        for src in TW:
            for mode in MODES:
                for sat in ((0, 1) if dst in IT else (0,)):
                    if src in IT and dst in IT and mode: continue
                    base = "convert_" + NAMES[dst]
                    def mk(n, base=base, sat=sat, mode=mode): return base + ("" if n == 1 else str(n)) + ("_sat" if sat else "") + mode
                    c = bcase(mk(1), dst, [src], oracle(src, dst, sat, mode), key="%s(%s)" % (mk(1), NAMES[src]), widths=(1, 3) if info["tier"] == "quick" else (1, 2, 3, 4, 8, 16))
                    ti, to = tb(src), tb(dst); fn = lambda n, mk=mk, src=src: mangled(mk(n), [src], n)
                    c.ir = (lambda fn, ti, to: lambda n: ["%%r = call spir_func %s @%s(%s %%a0)" % (vt(to, n), fn(n), vt(ti, n))])(fn, ti, to)
                    c.decl = (lambda fn, ti, to: lambda n: ["declare spir_func %s @%s(%s)" % (vt(to, n), fn(n), vt(ti, n))])(fn, ti, to)
                    cs.append(c)
    return run_cases(cs, info, "B05")
