"""Native oracle for vload/vstore (and half variants) on the real simulator."""
import random, struct, bisect
import nat
from natinst import *
from mangle import *
HV = sorted(((-1) ** (h >> 15) * ((h & 1023) * 2.0 ** -24 if h >> 10 & 31 == 0 else (1 + (h & 1023) / 1024) * 2.0 ** ((h >> 10 & 31) - 15)), h) for h in range(65536) if h >> 10 & 31 != 31 and h != 0x8000)
VALS = [v for v, h in HV]
def to_half(x, mode):
    """correctly rounded half of a Python float (0 rte, 1 rtz, 2 rtp, 3 rtn)"""
    import math
    if x != x: return "nan"
    s = 0x8000 if math.copysign(1, x) < 0 else 0
    if math.isinf(x): return s | 0x7c00
    if x == 0: return s
    a = abs(x); up = {0: None, 1: False, 2: s == 0, 3: s != 0}[mode]
    P = VALS[VALS.index(0.0):] if not hasattr(to_half, "P") else to_half.P
    to_half.P = P
    i = bisect.bisect_right(P, a) - 1
    if P[i] == a: return s | i
    if i == len(P) - 1:
        nxt = 65536.0
    else: nxt = P[i + 1]
    if up is None:
        from fractions import Fraction as Fr
        d = Fr(a) - Fr(P[i]); e = Fr(nxt) - Fr(a)
        k = i if d < e else i + 1 if d > e else i + (i & 1)
        return s | k
    return s | (i + 1 if up else i)
def half_val(h):
    e, m = h >> 10 & 31, h & 1023
    if e == 31: return None
    return (-1.0 if h >> 15 else 1.0) * (m * 2.0 ** -24 if e == 0 else (1 + m / 1024) * 2.0 ** (e - 15))
def native_B03(info):
    rnd = random.Random(info["seed"]); fails = []; cases = 0
    k = nat.Krun(); K = []; todo = []
    CT = {"c": "char", "h": "uchar", "s": "short", "t": "ushort", "i": "int", "j": "uint", "l": "long", "m": "ulong", "f": "float", "d": "double"}
    for c, nm in CT.items():
        for n in (2, 3, 4, 8, 16):
            K.append("kernel void v%s%d(global %s* a, global long* o, global long* q, global %s* b) { size_t i = get_global_id(0); vstore%d(vload%d(o[i], a + 40), q[i], b + 40); }" % (c, n, nm, nm, n, n))
            K.append("kernel void p%s%d(global %s* a, global long* o, global long* q, global %s* b) { size_t i = get_global_id(0); %s t[48]; for (int j = 0; j < 48; j++) t[j] = 0; vstore%d(vload%d(o[i], a + 40), 1, t); vstore%d(vload%d(1, t), q[i], b + 40); }" % (c, n, nm, nm, nm, n, n, n, n))
            todo += [("v", c, n), ("p", c, n)]
    try:
        k.module("#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n" + "\n".join(K), cl=True)
        for kind, c, n in todo:
            es = TW[c] // 8; tot = 120
            src = bytes(rnd.getrandbits(8) for _ in range(tot * es))
            if c in FT: src = b"".join(struct.pack("<f" if c == "f" else "<d", rnd.uniform(-1e6, 1e6)) for _ in range(tot))
            offs = [0, 1, -1, 2, -2]; g = 5 if n < 16 else 4
            offs = [o for o in offs if 0 <= 40 + o * n and 40 + o * n + n <= tot]; qs = offs[:]; rnd.shuffle(qs)
            exp = bytearray(tot * es)
            for o, q in zip(offs, qs): exp[(40 + q * n) * es:(40 + q * n + n) * es] = src[(40 + o * n) * es:(40 + o * n + n) * es]
            try: outs, logs = k.run("%s%s%d" % (kind, c, n), [("B", src), ("B", struct.pack("<%dq" % len(offs), *offs)), ("B", struct.pack("<%dq" % len(qs), *qs)), ("B", bytes(tot * es))], g=(len(offs),))
            except nat.KrunCrash as e: fails.append(dict(prop="B03", key="vload/vstore %s%d" % (CT[c], n), kind="simulator crashed")); break
            cases += len(offs)
            if outs.get(3) != bytes(exp): fails.append(dict(prop="B03", key="vload/vstore %s%d (%s)" % (CT[c], n, "private" if kind == "p" else "global"), kind="wrong bytes", offsets=offs, store_offsets=qs, got=(outs.get(3) or b"").hex()[:200], expected=bytes(exp).hex()[:200]))
            elif logs: fails.append(dict(prop="B03", key="vload/vstore %s%d" % (CT[c], n), kind="diagnostic", logs=logs[:2]))
    finally: k.close()
    # half conversions: every half value; float/double values at and around half values and their midpoints
    K = []
    for a in ("", "a"):
        for n in (1, 2, 3, 4, 8, 16):
            if n == 1 and a: continue
            N = "" if n == 1 else str(n); st = 4 if a and n == 3 else n
            K.append("kernel void ld%s%d(global half* h, global float* o) { size_t i = get_global_id(0); float%s v = vload%s_half%s(i, h); %s }" % (a, n, N, a, N, "o[i] = v;" if n == 1 else "vstore%d(v, i, o);" % n))
            for c in "fd":
                for m in ("", "_rte", "_rtz", "_rtp", "_rtn"):
                    K.append("kernel void st%s%d%s%s(global %s* x, global half* h) { size_t i = get_global_id(0); %s%s v = %s; vstore%s_half%s%s(v, i, h); }" % (a, n, c, m, CT[c], CT[c], N, "x[i]" if n == 1 else "vload%d(i, x)" % n, a, N, m))
    k = nat.Krun()
    try:
        k.module("#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n#pragma OPENCL EXTENSION cl_khr_fp16 : enable\n" + "\n".join(K), cl=True)
        hs = list(range(0, 65536, 1 if info["tier"] != "quick" else 7)) + [0, 1, 0x3ff, 0x400, 0x7bff, 0x7c00, 0x7c01, 0x8000, 0xfc00, 0xffff]
        xs = [0.0, -0.0, float("inf"), -float("inf"), float("nan"), 1e-40, -1e-40, 65519.99609375, 65520.0, 65536.0, -65520.0, 1e30, 2.0 ** -25, 2.0 ** -25 * 1.0001, -2.0 ** -26, 2.0 ** -24 * 1.5]
        for h in [rnd.randrange(0, 0x7bff) for _ in range(40)] + [0, 1, 2, 0x3fe, 0x3ff, 0x400, 0x401, 0x7bfe]:
            v, w = half_val(h), half_val(h + 1); mid = (v + w) / 2
            xs += [v, -v, mid, -mid, mid * (1 + 2.0 ** -20), mid * (1 - 2.0 ** -20), -mid * (1 + 2.0 ** -20), v + (w - v) / 1024]
        for a in ("", "a"):
            for n in (1, 2, 3, 4, 8, 16):
                if n == 1 and a: continue
                st = 4 if a and n == 3 else n
                H = hs[:len(hs) // 48 * 48] if n > 1 or info["tier"] == "quick" else hs[:len(hs) // 48 * 48]
                H = H[:2400] if info["tier"] == "quick" and n > 1 else H
                g = len(H) // n; pad = H[:]
                if st != n:
                    pad = []
                    for i in range(g): pad += H[i * 3:i * 3 + 3] + [0x7bff]
                outs, logs = k.run("ld%s%d" % (a, n), [("B", struct.pack("<%dH" % len(pad), *pad)), ("B", 4 * g * n)], g=(g,)); cases += g
                got = outs.get(1, b"")
                for i in range(g * n):
                    e = half_val(H[i]); b = int.from_bytes(got[4 * i:4 * i + 4], "little")
                    ok = b == int.from_bytes(struct.pack("<f", e), "little") if e is not None else (b == (0x7f800000 | (H[i] >> 15) << 31) if H[i] & 1023 == 0 else isnan(b, "f32"))
                    if not ok: fails.append(dict(prop="B03", key="vload%s_half%d" % (a, n), kind="wrong value", half=hex(H[i]), got=hex(b))); break
                for c in "fd":
                    X = [struct.unpack("<f", struct.pack("<f", x))[0] if c == "f" else x for x in xs]
                    X = X[:len(X) // 48 * 48]; g = len(X) // n
                    for m, mode in (("", 0), ("_rte", 0), ("_rtz", 1), ("_rtp", 2), ("_rtn", 3)):
                        outs, logs = k.run("st%s%d%s%s" % (a, n, c, m), [("B", struct.pack("<%d%s" % (len(X), c), *X)), ("B", b"\x5a" * (2 * g * st))], g=(g,)); cases += g
                        got = outs.get(1, b"")
                        for i in range(g * n):
                            p = (i // n) * st + i % n; b = int.from_bytes(got[2 * p:2 * p + 2], "little"); e = to_half(X[i], mode)
                            if not (b == e or (e == "nan" and b & 0x7c00 == 0x7c00 and b & 1023)): fails.append(dict(prop="B03", key="vstore%s_half%d%s %s" % (a, n, m, c), kind="wrong value", value=X[i].hex(), got=hex(b), expected=e if e == "nan" else hex(e))); break
                        if st != n and any(got[2 * (i * 4 + 3):2 * i * 4 + 8] != b"\x5a\x5a" for i in range(g)): fails.append(dict(prop="B03", key="vstorea_half3" + m, kind="wrote the padding"))
    except nat.KrunCrash: fails.append(dict(prop="B03", key="half", kind="simulator crashed"))
    finally: k.close()
    return dict(cases=cases, failures=fails[:30], harness="krun")
