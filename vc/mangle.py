"""type characters and mangled names of OpenCL builtins"""
UT = {"h": 8, "t": 16, "j": 32, "m": 64}; STY = {"c": 8, "s": 16, "i": 32, "l": 64}
IT = dict(UT); IT.update(STY); FT = {"f": 32, "d": 64}
TW = dict(IT); TW.update(FT)
def overload(tys, n):
    """mangled parameter types: list of type chars (vector unless ('scalar', c))"""
    s = ""; subs = []
    for t in tys:
        c, v = (t[1], 1) if isinstance(t, tuple) else (t, n)
        if v == 1: s += c; continue
        k = (c, v)
        if k in subs: s += "S_" if subs.index(k) == 0 else "S%d_" % (subs.index(k) - 1)
        else: subs.append(k); s += "Dv%d_%s" % (v, c)
    return s
def mangled(name, tys, n): return "_Z%d%s%s" % (len(name), name, overload(tys, n))
