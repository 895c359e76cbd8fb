"""B05: convert_<type>[_sat][_rounding mode] against the OpenCL C specification (6.2.3)."""
import z3
from engine import *
from lworld import *
from run import Task
import strs
from bltin import *
MODES = {"": None, "_rte": z3.RNE(), "_rtz": z3.RTZ(), "_rtp": z3.RTP(), "_rtn": z3.RTN()}
import bltmem
F16 = z3.FPSort(5, 11)
NAMES = {"c": "char", "h": "uchar", "s": "short", "t": "ushort", "i": "int", "j": "uint", "l": "long", "m": "ulong", "f": "float", "d": "double", "e": "half"}
def ghost_fenv(E, st):
    """assumed contract on <fenv.h>: a rounding mode that every floating-point conversion uses; fegetround reads and fesetround sets it"""
    r = Region("rounding mode"); r.size = 4; r.base[("c", 0, 4)] = 0; r.local = True; E.fenvr = r
    E.models["fegetround"] = lambda E, st, a, I: st.load(E, Ptr(r), 4)
    def setr(E, st, a, I):
        if not isc(a[0]) or a[0] not in RMS: raise Unsupported("symbolic rounding mode")
        st.store(E, Ptr(r), 4, a[0]); return 0
    E.models["fesetround"] = setr
    def rint(w): return lambda E, st, a, I: E.rint(st, a[0], w)
    for w, ns in ((80, ("rintl", "nearbyintl", "llvm.rint.f80", "llvm.nearbyint.f80", "std::rint(long double)", "std::nearbyint(long double)")), (64, ("rint", "nearbyint", "llvm.rint.f64", "llvm.nearbyint.f64")), (32, ("rintf", "nearbyintf", "llvm.rint.f32", "llvm.nearbyint.f32", "std::rint(float)", "std::nearbyint(float)"))):
        for n in ns: E.models[n] = rint(w)
    def half(name, w):
        def f(E, st, a, I):
            E.used_contracts.add(name)
            if not isc(a[1]): raise Unsupported("symbolic half rounding mode")
            return z3.fpToIEEEBV(z3.fpFPToFP(bltmem.RM[a[1] & 255], fp(a[0], w), F16))
        E.models[name] = f
    half("cl_half_from_float", 32); half("cl_half_from_double", 64)
    E.used_contracts.add("fenv.h: one rounding mode, used by every conversion and by rint")
    return r
def spec_conv(src, dst, sat, mode, part=None):
    def f(E, l):
        if dst == "e":
            rm = MODES[mode] if MODES[mode] is not None else z3.RNE()
            if src in IT:
                # integers beyond 2^16 overflow: infinity, or the largest half (65504) where the mode rounds towards zero
                w = IT[src]; x = bvv(l[0], w); m = MODES[mode] if MODES[mode] is not None else z3.RNE(); neg = part[0] == "-"
                d = z3.Extract(w - 1, w - 1, x) == (1 if neg else 0) if signed(src) else True
                if w > 16:
                    small = z3.Extract(w - 1, 16, x) == (M(w - 16) if neg else 0)
                    if part[1] == "big":
                        big = (0x8000 if neg else 0) | (0x7c00 if m.eq(z3.RNE()) or m.eq(z3.RTN() if neg else z3.RTP()) else 0x7bff)
                        # (-2^16 itself is also covered here)
                        return And(d, z3.Not(small)), z3.BitVecVal(big, 16)
                    d = And(d, small); x = z3.Extract(15, 0, x)
                x = z3.Concat(z3.BitVecVal(1 if neg else 0, 1), x)
                return d, z3.fpToIEEEBV(z3.fpSignedToFP(rm, x, F16))
            x = fp(l[0], FT[src]); return z3.Not(z3.fpIsNaN(x)), z3.fpToIEEEBV(z3.fpFPToFP(rm, x, F16))
        if src in IT and dst in IT:
            x = X(l[0], src, 66)
            return True, satz(x, 66, dst) if sat else z3.Extract(IT[dst] - 1, 0, x)
        if src in IT:
            rm = MODES[mode] if MODES[mode] is not None else z3.RNE()
            x = bvv(l[0], IT[src]); w = FT[dst]
            return True, fpbits((z3.fpSignedToFP if signed(src) else z3.fpUnsignedToFP)(rm, x, FP[w]))
        w = FT[src]; x = fp(l[0], w)
        if dst in FT:
            rm = MODES[mode] if MODES[mode] is not None else z3.RNE()
            return z3.Not(z3.fpIsNaN(x)), (bvv(l[0], w) if FT[dst] == w else fpbits(z3.fpFPToFP(rm, x, FP[FT[dst]])))
        rm = MODES[mode] if MODES[mode] is not None else z3.RTZ()
        T = z3.fpRoundToIntegral(rm, x); b = IT[dst]; sg = signed(dst)
        lo, hi = (-(1 << b - 1), 1 << b - 1) if sg else (0, 1 << b)
        LO, HI = z3.FPVal(float(lo), FP[w]), z3.FPVal(float(hi), FP[w])
        small = z3.And(z3.fpLT(T, HI), z3.fpGEQ(T, LO)); nan = z3.fpIsNaN(x)
        v = z3.Extract(b - 1, 0, (z3.fpToSBV if sg else z3.fpToUBV)(z3.RTZ(), T, z3.BitVecSort(64)))   # exact: T is integral and in range
        if not sat: return z3.And(z3.Not(nan), small), v
        # clamped to the exact range, else rounded (which stays inside the range: its bounds are integers and rounding is monotone)
        xe = E.fpconv(bvv(l[0], w), w, 80); c = lambda k: z3.simplify(fpbits(z3.FPVal(k, FP[80]))).as_long()
        return True, z3.If(nan, z3.BitVecVal(0, b), z3.If(E.fcmp("oge", xe, c(hi - 1), 80), z3.BitVecVal(hi - 1, b), z3.If(E.fcmp("ole", xe, c(lo), 80), z3.BitVecVal(lo, b), v)))
    return f
def tasks_B05(mod):
    out = []
    def fnof(name):
        try: return mod.fns[handler(mod, name)[0].name].dem.split("(")[0]
        except (Unsupported, AttributeError, KeyError): return W + "initBuiltins"
    def body(name, dst, src, spec):
        inner = lanewise(name, dst, [src], spec)
        def setup(E, st):
            r = ghost_fenv(E, st)
            E.post = lambda E, st: E.oblige(st, eq(st.load(E, Ptr(r), 4), 0), "rounding mode restored")
        def run(t):
            t.setup = setup
            inner(t)
        return run
    for dst in TW:
        for src in TW:
            for mode in MODES:
                for sat in ((False, True) if dst in IT else (False,)):
                    if src in IT and dst in IT and mode and mode != "_rtz": continue
                    name = "convert_" + NAMES[dst] + ("_sat" if sat else "") + mode
                    out.append(Task("%s(%s)" % (name, NAMES[src]), fnof(name), body(name, dst, src, spec_conv(src, dst, sat, mode)), fallback=[1, 2, 4]))
    for src in TW:
        for mode in MODES:
            name = "convert_half" + mode
            for part in [(a, b) for a in ("+-" if signed(src) else "+") for b in (("small", "big") if IT[src] > 16 else ("small",))] if src in IT else [None]:
                out.append(Task("%s(%s)%s" % (name, NAMES[src], " " + "".join(part) if part else ""), fnof(name), body(name, "e", src, spec_conv(src, "e", False, mode, part)), fallback=[1, 2]))
    for fn, w in (("cl_half_from_float", 32), ("cl_half_from_double", 64)):
        for m, mn in enumerate(("rte", "rtz", "rtp", "rtn")): out.append(Task("%s %s" % (fn, mn), fn, bltmem.half_task(fn, w, m), budget=300))
    return out
