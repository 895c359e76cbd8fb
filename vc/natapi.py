"""Native oracles driving the real OpenCL runtime (worker side, see clapi.py)."""
from clapi import *
SRC_P01 = """
#define A(T) kernel void ld_##T(global T* p, ulong o, global T* r) { r[0] = *(global T*)((global char*)p + o); } \\
 kernel void st_##T(global T* p, ulong o, global T* r) { *(global T*)((global char*)p + o) = r[0]; }
A(char) A(short) A(int) A(long) A(int4) A(long16)
kernel void at_int(global int* p, ulong o, global int* r) { r[0] = atomic_add((volatile global int*)((global char*)p + o), 1); }
kernel void ax_int(global int* p, ulong o, global int* r) { atomic_xchg((volatile global int*)((global char*)p + o), 1); }
kernel void cp_char(global char* p, ulong o, global char* r) { local char t[8]; event_t e = async_work_group_copy(t, p + o, 8, 0); wait_group_events(1, &e); r[0] = t[0]; }
struct S { int a[4]; int b[3][2]; };
kernel void s1(global int* r, long i) { struct S s; for (int k = 0; k < 10; k++) ((int*)&s)[k] = k; r[0] = s.a[i]; }
kernel void s2(global int* r, long i, long j) { struct S s; for (int k = 0; k < 10; k++) ((int*)&s)[k] = k; r[0] = s.b[i][j]; }
"""
TS = {"char": 1, "short": 2, "int": 4, "long": 8, "int4": 16, "long16": 128}
def p01(o, rnd, n):
    cl = CL(); pr = cl.prog(SRC_P01); K = {}
    def k(nm):
        if nm not in K: K[nm] = cl.kernel(pr, nm)
        return K[nm]
    r = cl.buf(RW, 256); cl.logs()
    for it in range(n):
        size = rnd.choice([16, 64, 200, 256]); fl = rnd.choice([RW, RW, RW, RO, WO]); b = cl.buf(fl, size); maps = []
        for step in range(rnd.randint(3, 12)):
            x = rnd.random()
            if x < .3 and len(maps) < 4:
                off = rnd.randrange(size); ln = rnd.randint(1, size - off)
                if rnd.random() < .4: off -= off % 8; ln = max(1, min(size - off, 8 * rnd.randint(1, 4)))
                mf = rnd.choice([1, 2, 3, 4])
                p, e = cl.h("clEnqueueMapBuffer", VP(cl.q), VP(b), U32(1), U64(mf), SZ(off), SZ(ln), U32(0), None, None)
                if e: continue
                maps.append((off, ln, mf, p))
            elif x < .45 and maps:
                # several mappings may share a pointer: any of them may be the one removed, so keep pointers distinct
                m = rnd.choice(maps)
                if sum(1 for y in maps if y[3] == m[3]) > 1: continue
                cl("clEnqueueUnmapMemObject", VP(cl.q), VP(b), VP(m[3]), U32(0), None, None); cl.finish(); maps.remove(m)
            else:
                kind = rnd.choice(["ld", "st", "ld", "st", "at", "ax", "cp"]); T = "int" if kind in ("at", "ax") else "char" if kind == "cp" else rnd.choice(list(TS)); w = 8 if kind == "cp" else TS[T]
                edges = [0, size - w, size - w + 1, size, -w] + [z for m in maps for z in (m[0], m[0] - w, m[0] - w + 1, m[0] + m[1] - 1, m[0] + m[1])]
                off = rnd.choice(edges) if rnd.random() < .7 else rnd.randrange(-8, size + 8)
                rd = kind in ("ld", "at", "cp", "ax"); wr = kind in ("st", "at", "ax")
                o.at(size=size, flags=fl, maps=[m[:3] for m in maps], access=kind, type=T, offset=off)
                e = cl.run(k(kind + "_" + T), [b, struct.pack("<Q", off & (1 << 64) - 1), r]); lg = cl.logs(); o.case()
                exp = set()
                for a, w in ([(off + z, 1) for z in range(8)] if kind == "cp" else [(off, w)]):
                    ov = lambda m: a < m[0] + m[1] and m[0] < a + w
                    if not (0 <= a and a + w <= size):
                        if rd: exp.add("Invalid read of size")
                        if wr: exp.add("Invalid write of size")
                        continue
                    if rd and fl == WO: exp.add("Invalid read from write-only")
                    if wr and fl == RO: exp.add("Invalid write to read-only")
                    if rd and any(ov(m) and m[2] != 1 for m in maps): exp.add("Invalid read from buffer mapped")
                    if wr and any(ov(m) for m in maps): exp.add("Invalid write to mapped")
                got = set(); unk = []
                for l in lg:
                    for y in ("Invalid read of size", "Invalid write of size", "Invalid read from write-only", "Invalid write to read-only", "Invalid read from buffer mapped", "Invalid write to mapped"):
                        if l.strip().startswith(y): got.add(y); break
                    else: unk += [l[:100]] if "aligned" not in l.lower() else []
                if got != exp or unk: o.fail(kind="memory checker", flags=fl, buffer_size=size, maps=[m[:3] for m in maps], access=kind, type=T, offset=off, reported=sorted(got), expected=sorted(exp), other=unk[:2])
        for m in maps: cl("clEnqueueUnmapMemObject", VP(cl.q), VP(b), VP(m[3]), U32(0), None, None)
        cl.finish(); cl("clReleaseMemObject", VP(b))
    for i in range(-3, 8):
        for j in (None, -2, -1, 0, 1, 2, 3):
            o.at(array=True, i=i, j=j)
            if j is None: cl.run(k("s1"), [r, struct.pack("<q", i)]); idx = [(i, 4)]
            else: cl.run(k("s2"), [r, struct.pack("<q", i), struct.pack("<q", j)]); idx = [(i, 3), (j, 2)]
            lg = cl.logs(); o.case(); exp = sorted("Index (%d) exceeds static array size (%d)" % (x, m) for x, m in idx if not 0 <= x < m)
            got = sorted(l.strip().split("\n")[0] for l in lg if "static array" in l)
            if got != exp: o.fail(kind="static array", index=[x for x, _ in idx], sizes=[m for _, m in idx], reported=got, expected=exp)
# ---- Q02: transfers against a byte-exact model
def _rect(rnd, lo=0):
    """a random rectangle: (region, origin, row pitch, slice pitch, bytes needed)"""
    r = [rnd.choice([rnd.randint(1, 6), rnd.randint(1, 6), rnd.randint(1, 150), rnd.choice([31, 32, 33, 64, 65, 128])]), rnd.randint(1, rnd.choice([4, 4, 12])), rnd.randint(1, rnd.choice([3, 3, 6]))]; o = [rnd.randint(0, 4), rnd.randint(0, 3), rnd.randint(0, 2)]
    return r, o
def _pitch(rnd, r, o):
    rp = rnd.choice([0, r[0], r[0] + o[0], r[0] + rnd.randint(0, 5)]); erp = rp or r[0]
    sp = rnd.choice([0, r[1] * erp, (r[1] + o[1]) * erp, (r[1] + rnd.randint(0, 3)) * erp]); esp = sp or r[1] * erp
    return rp, sp, erp, esp
def q02(o, rnd, n):
    cl = CL(); A3 = lambda x: arr(SZ, x); RB = lambda k: bytes(rnd.randrange(256) for _ in range(k))
    for big in ((1 << 24) + 4096,):      # large requests
        a = cl.buf(RW, big); b = cl.buf(RW, big); z = ct.create_string_buffer(bytes(big), big); cl("clEnqueueWriteBuffer", VP(cl.q), VP(a), U32(1), SZ(0), SZ(big), z, U32(0), None, None)
        pt = bytes(range(1, 129)); o.at(kind="fill", size=big); cl("clEnqueueFillBuffer", VP(cl.q), VP(a), ct.create_string_buffer(pt, 128), SZ(128), SZ(128), SZ(big - 256), U32(0), None, None); cl.finish(); o.case()
        ex = bytes(128) + pt * (big // 128 - 2) + bytes(128); g = cl.read(a, 0, big)
        if g != ex: o.fail(kind="fill", what="buffer contents", size=big - 256, offset=128, pattern=128, byte=next(x for x in range(big) if g[x] != ex[x]))
        o.at(kind="copy", size=big); cl("clEnqueueCopyBuffer", VP(cl.q), VP(a), VP(b), SZ(0), SZ(0), SZ(big), U32(0), None, None); cl.finish(); o.case()
        if cl.read(b, 0, big) != g: o.fail(kind="copy", what="buffer contents", size=big)
        R = [3, 70000, 2]; o.at(kind="crect", region=R); cl("clEnqueueWriteBuffer", VP(cl.q), VP(b), U32(1), SZ(0), SZ(big), z, U32(0), None, None)
        cl("clEnqueueCopyBufferRect", VP(cl.q), VP(a), VP(b), A3([1, 2, 0]), A3([2, 1, 0]), A3(R), SZ(8), SZ(8 * 70002), SZ(9), SZ(9 * 70001), U32(0), None, None); cl.finish(); o.case(); ex = bytearray(big)
        for k in range(2):
            for y in range(70000): d = 2 + (1 + y) * 9 + k * 9 * 70001; s = 1 + (2 + y) * 8 + k * 8 * 70002; ex[d:d + 3] = g[s:s + 3]
        if cl.read(b, 0, big) != bytes(ex): o.fail(kind="crect", what="buffer contents", region=R, pitches=([8, 8 * 70002], [9, 9 * 70001]))
        cl("clReleaseMemObject", VP(a)); cl("clReleaseMemObject", VP(b))
    for it in range(n):
        NB = rnd.choice([64, 300, 777, 5000]); bufs = []
        for k in range(2):
            d = RB(NB); bufs.append([cl.buf(RW | COPYHOST, NB, d), bytearray(d), 0])
        sub, e = cl.sub(bufs[0][0], RW, 16, NB - 32)
        if not e: bufs.append([sub, bufs[0][1], 16])
        H = rnd.choice([900, 5000]); host = ct.create_string_buffer(RB(H), H)
        for step in range(8):
            kind = rnd.choice(["read", "write", "copy", "fill", "rrect", "wrect", "crect"]); hm = bytearray(host.raw); i = rnd.randrange(len(bufs)); j = rnd.randrange(len(bufs))
            b, m, off0 = bufs[i]; c, m2, off2 = bufs[j]; size = NB if not off0 else NB - 32; size2 = NB if not off2 else NB - 32; blk = U32(rnd.random() < .5); ev = (U32(0), None, None)
            hp = lambda x: VP(ct.addressof(host) + x)
            if kind in ("read", "write"):
                a = rnd.randrange(size); k = rnd.randint(1, min(H, size - a)); h = rnd.randrange(H - k + 1); o.at(kind=kind, offset=a, size=k, buffer=i)
                e = cl("clEnqueueReadBuffer" if kind == "read" else "clEnqueueWriteBuffer", VP(cl.q), VP(b), blk, SZ(a), SZ(k), hp(h), *ev)
                if kind == "read": hm[h:h + k] = m[off0 + a:off0 + a + k]
                else: m[off0 + a:off0 + a + k] = hm[h:h + k]
                info = dict(offset=a, size=k)
            elif kind == "copy":
                if m is m2: continue
                a = rnd.randrange(size); k = rnd.randint(1, min(size - a, size2)); d = rnd.randrange(size2 - k + 1); o.at(kind=kind, src=a, dst=d, size=k)
                e = cl("clEnqueueCopyBuffer", VP(cl.q), VP(b), VP(c), SZ(a), SZ(d), SZ(k), *ev); m2[off2 + d:off2 + d + k] = m[off0 + a:off0 + a + k]; info = dict(src=a, dst=d, size=k)
            elif kind == "fill":
                p = rnd.choice([1, 2, 4, 8, 16, 32]); a = rnd.randrange(size // p) * p; k = rnd.randint(1, (size - a) // p) * p if size - a >= p else 0
                if not k: continue
                pt = RB(p); o.at(kind=kind, pattern=p, offset=a, size=k)
                e = cl("clEnqueueFillBuffer", VP(cl.q), VP(b), ct.create_string_buffer(pt, p), SZ(p), SZ(a), SZ(k), *ev); m[off0 + a:off0 + a + k] = pt * (k // p); info = dict(pattern=p, offset=a, size=k)
            else:
                r, so = _rect(rnd); do = _rect(rnd)[1]; sp = _pitch(rnd, r, so); dp = sp if rnd.random() < .4 else _pitch(rnd, r, do)
                at = lambda og, pt, y, z: og[0] + (og[1] + y) * pt[2] + (og[2] + z) * pt[3]
                end = lambda og, pt: at(og, pt, r[1] - 1, r[2] - 1) + r[0]
                if kind == "crect":
                    if m is m2 or end(so, sp) > size or end(do, dp) > size2: continue
                    o.at(kind=kind, region=r, src_origin=so, dst_origin=do, src_pitch=sp[:2], dst_pitch=dp[:2])
                    e = cl("clEnqueueCopyBufferRect", VP(cl.q), VP(b), VP(c), A3(so), A3(do), A3(r), SZ(sp[0]), SZ(sp[1]), SZ(dp[0]), SZ(dp[1]), *ev)
                    for z in range(r[2]):
                        for y in range(r[1]): s, d = off0 + at(so, sp, y, z), off2 + at(do, dp, y, z); m2[d:d + r[0]] = m[s:s + r[0]]
                else:
                    if end(so, sp) > size or end(do, dp) > H: continue
                    o.at(kind=kind, region=r, buffer_origin=so, host_origin=do, buffer_pitch=sp[:2], host_pitch=dp[:2])
                    e = cl("clEnqueueReadBufferRect" if kind == "rrect" else "clEnqueueWriteBufferRect", VP(cl.q), VP(b), blk, A3(so), A3(do), A3(r), SZ(sp[0]), SZ(sp[1]), SZ(dp[0]), SZ(dp[1]), hp(0), *ev)
                    for z in range(r[2]):
                        for y in range(r[1]):
                            s, d = off0 + at(so, sp, y, z), at(do, dp, y, z)
                            if kind == "rrect": hm[d:d + r[0]] = m[s:s + r[0]]
                            else: m[s:s + r[0]] = hm[d:d + r[0]]
                info = dict(region=r, origins=(so, do), pitches=(sp[:2], dp[:2]))
            cl.finish(); o.case(); got = [cl.read(bufs[k][0], 0, NB) for k in (0, 1)]
            if e: o.fail(kind=kind, error=e, **info); continue
            for k in (0, 1):
                if got[k] != bytes(bufs[k][1]):
                    x = next(x for x in range(NB) if got[k][x] != bufs[k][1][x]); o.fail(kind=kind, what="buffer contents", buffer=k, byte=x, got=got[k][x], expected=bufs[k][1][x], target=j if kind in ("copy", "crect") else i, **info); bufs[k][1][:] = got[k]
            if host.raw != bytes(hm):
                x = next(x for x in range(H) if host.raw[x] != hm[x]); o.fail(kind=kind, what="host memory", byte=x, got=host.raw[x], expected=hm[x], **info)
        for b, _, _ in reversed(bufs): cl("clReleaseMemObject", VP(b))
# ---- R01: argument checking of the transfer and mapping requests
M64 = 1 << 64
HNO, HWO, HRO = 1 << 9, 1 << 7, 1 << 8
C_MEM, C_QUEUE, C_VALUE, C_OP, C_WL, C_OV, C_CTX, C_FMT = -38, -36, -30, -59, -57, -8, -34, -9
def r01(o, rnd, n):
    cl = CL(); A3 = lambda x: arr(SZ, x); RB = lambda k: bytes(rnd.randrange(256) for _ in range(k)); Q = VP(cl.q); EV = (U32(0), None, None)
    cl2 = cl.h("clCreateContext", None, U32(1), arr(VP, [cl.dev]), None, None)[0]; uev, _ = cl.h("clCreateUserEvent", VP(cl.ctx)); cl("clSetUserEventStatus", VP(uev), ct.c_int(0)); oev, _ = cl.h("clCreateUserEvent", VP(cl2)); cl("clSetUserEventStatus", VP(oev), ct.c_int(0))
    NB = 256; objs = []; H = 65536; host = ct.create_string_buffer(RB(H), H)
    for f in (RW, RW | HNO, RW | HWO, RW | HRO, RO, WO):
        d = RB(NB); objs.append(dict(h=cl.buf(f | COPYHOST, NB, d), m=bytearray(d), o=0, n=NB, f=f, p=None))
    def sub(P, org, sz, fl): return cl.sub(P["h"], fl, org, sz)
    for org, sz in ((0, 64), (64, 192), (128, 16)):
        h, e = sub(objs[0], org, sz, 0); assert e == 0; objs.append(dict(h=h, m=objs[0]["m"], o=org, n=sz, f=RW, p=objs[0]))
    def near(k): return rnd.choice([0, 0, 1, k - 1, k, k + 1, k // 2, rnd.randrange(k + 1), rnd.randrange(k + 1), M64 - 1, M64 - k, M64 - rnd.randint(1, 300), 1 << 63, (1 << 63) + rnd.randrange(64), 1 << 32, (1 << 32) + rnd.randrange(64), -(-M64 // max(1, k)) % M64])
    def rng(sz):
        a = near(sz) % M64
        b = rnd.choice([near(sz), sz - a, sz - a + 1, sz - a - 1, M64 - a, M64 - a + rnd.randrange(sz + 1), 0, rnd.randrange(sz + 1)]) % M64
        return a, b
    def evargs():
        x = rnd.random()
        if x < .85: return (U32(0), None, None), set()
        k = rnd.choice(["nolist", "nocount", "null", "other", "ok", "oknull"])
        if k == "nolist": return (U32(1), None, None), {C_WL}
        if k == "nocount": return (U32(0), arr(VP, [uev]), None), {C_WL}
        l = {"null": [None], "other": [oev], "ok": [uev, uev], "oknull": [uev, None]}[k]
        return (U32(len(l)), arr(VP, l), None), {"null": {C_WL}, "other": {C_CTX, C_WL}, "ok": set(), "oknull": {C_WL}}[k]
    def judge(kind, e, errs, info, done=None):
        o.case()
        if errs:
            if e not in errs: o.fail(kind=kind, what="an invalid request must be rejected", result=e, allowed=sorted(errs), **info)
        elif e != 0: o.fail(kind=kind, what="a valid request was rejected", result=e, **info)
        elif done: done()
        if e == 0: cl.finish()
    def memcheck(kind, info):
        for x in objs:
            if x["p"]: continue
            g = cl_read(x)
            if g is not None and g != bytes(x["m"]): k = next(i for i in range(NB) if g[i] != x["m"][i]); o.fail(kind=kind, what="buffer contents", buffer=objs.index(x), byte=k, got=g[k], expected=x["m"][k], **info); x["m"][:] = g
    def cl_read(x):
        if x["f"] & (HNO | HWO): return None
        return cl.read(x["h"], 0, NB)
    inr = lambda a, b, s: a + b <= s
    IM = []
    for ty, w, h, d, na, order, dt, ps in ((0x10F1, 9, 5, 1, 0, 0x10B5, 0x10D2, 4), (0x10F2, 5, 4, 3, 0, 0x10B5, 0x10D8, 8), (0x10F3, 6, 4, 1, 3, 0x10B0, 0x10DE, 4), (0x10F5, 8, 1, 1, 4, 0x10B0, 0x10DA, 1), (0x10F4, 16, 1, 1, 0, 0x10B5, 0x10DE, 16)):
        for f in (RW, RW | HNO, RW | HRO, RW | HWO):
            desc = struct.pack("<I4xQQQQQQIIQ", ty, w, h if ty in (0x10F1, 0x10F2, 0x10F3) else 0, d if ty == 0x10F2 else 0, na, 0, 0, 0, 0, 0); fmt = struct.pack("<II", order, dt)
            ih, e = cl.h("clCreateImage", VP(cl.ctx), U64(f), ct.create_string_buffer(fmt, 8), ct.create_string_buffer(desc, len(desc)), None)
            if e: continue
            IM.append(dict(h=ih, f=f, ext=[w, na if ty == 0x10F5 else h, na if ty == 0x10F3 else d], rp=w * ps, sp=w * ps * h if ty != 0x10F5 else w * ps, ps=ps, fmt=(order, dt), ty=ty))
            if ty == 0x10F5: IM[-1]["sp"] = w * ps * (0 or 1)
    kinds = ["read", "write", "copy", "fill", "rrect", "wrect", "crect", "sub", "map", "imap", "rimg", "wimg", "cimg", "i2b", "b2i", "fimg", "unmap"]
    for it in range(n):
        kind = kinds[it % len(kinds)] if it < 20 * len(kinds) else rnd.choice(kinds); x = rnd.choice(objs); y = rnd.choice(objs); ev, ee = evargs(); bad = set(ee); q = Q
        nb = rnd.random() < .02; nq = rnd.random() < .02; bh = None if nb else x["h"]; npt = rnd.random() < .03; ptr = None if npt else VP(ct.addressof(host)); blk = U32(rnd.random() < .5)
        if nb: bad.add(C_MEM)
        if nq: q = None; bad.add(C_QUEUE)
        info = dict(object=objs.index(x), null=[nb, nq, npt], events=len(ee) and sorted(ee))
        if kind in ("read", "write"):
            a, b = rng(x["n"])
            if npt or not inr(a, b, x["n"]): bad.add(C_VALUE)
            if x["f"] & (HNO | (HWO if kind == "read" else HRO)): bad.add(C_OP)
            info.update(offset=a, size=b, flags=x["f"], length=x["n"])
            if not bad and b > H: continue
            o.at(kind=kind, **info); hb = host.raw if not bad else None; e = cl("clEnqueue%sBuffer" % kind.capitalize(), q, VP(bh), blk, SZ(a), SZ(b), ptr, *ev); cl.finish()
            def done():
                if kind == "write": x["m"][x["o"] + a:x["o"] + a + b] = hb[:b]; memcheck(kind, info)
                elif host.raw != bytes(x["m"][x["o"] + a:x["o"] + a + b]) + hb[b:] and not x["f"] & (HRO): o.fail(kind=kind, what="host contents", **info)
            judge(kind, e, bad, info, done)
        elif kind == "copy":
            a, k = rng(x["n"]); d = rnd.choice([near(y["n"]), a, a + k, a - k, a + k - 1, a - k + 1]) % M64
            if not inr(a, k, x["n"]) or not inr(d, k, y["n"]): bad.add(C_VALUE)
            if x is y and a < d + k and d < a + k: bad.add(C_OV)
            if x is not y and x["m"] is y["m"]: continue
            info.update(src=a, dst=d, size=k, dst_object=objs.index(y), lengths=[x["n"], y["n"]]); sm = bytes(x["m"])
            o.at(kind=kind, **info); e = cl("clEnqueueCopyBuffer", q, VP(bh), VP(y["h"]), SZ(a), SZ(d), SZ(k), *ev); cl.finish()
            def done(): y["m"][y["o"] + d:y["o"] + d + k] = sm[x["o"] + a:x["o"] + a + k]; memcheck(kind, info)
            judge(kind, e, bad, info, done)
        elif kind == "fill":
            ps = rnd.choice([1, 2, 4, 8, 16, 32, 64, 128, 0]); p2 = max(1, ps); a, k = rng(x["n"])
            if rnd.random() < .7: a -= a % p2; k -= k % p2
            if npt or ps == 0 or a % p2 or k % p2 or not inr(a, k, x["n"]): bad.add(C_VALUE)
            pt = RB(128); info.update(offset=a, size=k, pattern=ps, length=x["n"])
            if k == 0: continue
            o.at(kind=kind, **info); e = cl("clEnqueueFillBuffer", q, VP(bh), None if npt else ct.create_string_buffer(pt, 128), SZ(ps), SZ(a), SZ(k), *ev); cl.finish()
            def done(): x["m"][x["o"] + a:x["o"] + a + k] = pt[:ps] * (k // ps); memcheck(kind, info)
            judge(kind, e, bad, info, done)
        elif kind in ("rrect", "wrect", "crect"):
            def side(N):
                rp = rnd.choice([0, r[0], r[0] + rnd.randint(0, 4)]); sp = rnd.choice([0, r[1] * (rp or r[0]), (r[1] + rnd.randint(0, 2)) * (rp or r[0])]); og = [rnd.randint(0, 4), rnd.randint(0, 3), rnd.randint(0, 2)]
                return og, rp, sp
            def end(s): og, rp, sp = s; rp = rp or r[0]; sp = sp or (r[1] * rp) % M64; return og[0] + (og[1] + r[1] - 1) * rp + (og[2] + r[2] - 1) * sp + r[0]
            r = [rnd.randint(1, 8), rnd.randint(1, 5), rnd.randint(1, 3)]; s1 = side(x["n"]); s2 = side(y["n"])
            if rnd.random() < .5:      # make the end meet the limit exactly, or miss it by one
                k = rnd.randrange(3); og, rp, sp = s1; slack = x["n"] - end(s1)
                if slack >= 0: og[0] += slack + rnd.choice([0, 0, 1])
            if rnd.random() < .25:
                H_ = lambda: rnd.choice([M64 - 1, 1 << 63, 1 << 62, (1 << 63) + 1, M64 - rnd.randint(1, 64), 1 << 32, M64 // 3 + 1, M64 // 5 + 1])
                w = rnd.randrange(7)
                if w < 3: s1[0][w] = H_()
                elif w < 6 and kind == "crect": r[w - 3] = H_()
                elif w < 6 and s1[2]: r[w - 3] = H_()
                else: s1 = (s1[0], H_(), s1[2])
            if rnd.random() < .05: r[rnd.randrange(3)] = 0; bad.add(C_VALUE)
            no = rnd.random() < .02
            if no: bad.add(C_VALUE)
            if 0 not in r and end(s1) > x["n"]: bad.add(C_VALUE)
            info.update(region=r, origin=s1[0], row_pitch=s1[1], slice_pitch=s1[2], origin2=s2[0], row_pitch2=s2[1], slice_pitch2=s2[2], length=x["n"])
            at = lambda s, yy, z: s[0][0] + (s[0][1] + yy) * (s[1] or r[0]) + (s[0][2] + z) * (s[2] or r[1] * (s[1] or r[0]))
            O = None if no else A3(s1[0])
            if kind == "crect":
                if 0 not in r and end(s2) > y["n"]: bad.add(C_VALUE)
                if x["m"] is y["m"]: continue
                info.update(dst_object=objs.index(y), dst_length=y["n"]); o.at(kind=kind, **info); sm = bytes(x["m"])
                e = cl("clEnqueueCopyBufferRect", q, VP(bh), VP(y["h"]), O, A3(s2[0]), A3(r), SZ(s1[1]), SZ(s1[2]), SZ(s2[1]), SZ(s2[2]), *ev); cl.finish()
                def done():
                    for z in range(r[2]):
                        for yy in range(r[1]): s, d = x["o"] + at(s1, yy, z), y["o"] + at(s2, yy, z); y["m"][d:d + r[0]] = sm[s:s + r[0]]
                    memcheck(kind, info)
            else:
                if 0 not in r and end(s2) > H and not bad: continue
                if npt: bad.add(C_VALUE)
                if x["f"] & (HNO | (HWO if kind == "rrect" else HRO)): bad.add(C_OP)
                o.at(kind=kind, **info); hb = bytearray(host.raw)
                e = cl("clEnqueueReadBufferRect" if kind == "rrect" else "clEnqueueWriteBufferRect", q, VP(bh), blk, O, A3(s2[0]), A3(r), SZ(s1[1]), SZ(s1[2]), SZ(s2[1]), SZ(s2[2]), ptr, *ev); cl.finish()
                def done():
                    for z in range(r[2]):
                        for yy in range(r[1]):
                            s, d = x["o"] + at(s1, yy, z), at(s2, yy, z)
                            if kind == "rrect": hb[d:d + r[0]] = x["m"][s:s + r[0]]
                            else: x["m"][s:s + r[0]] = hb[d:d + r[0]]
                    if host.raw != bytes(hb) and not x["f"] & HRO: o.fail(kind=kind, what="host contents", **info)
                    memcheck(kind, info)
            judge(kind, e, bad, info, done)
        elif kind == "sub":
            a, k = rng(x["n"]); fl = rnd.choice([0, RW, RO, WO, HRO, HWO, HNO, RW | HRO]); ty = 0x1220 if rnd.random() < .95 else 0x1221; bad = {C_MEM} if nb else set()
            if x["p"]: bad.add(C_MEM)
            if ty != 0x1220 or k == 0 or not inr(a, k, x["n"]): bad.add(C_VALUE)
            info.update(origin=a, size=k, length=x["n"], type=ty); o.at(kind=kind, **info); h, e = cl.h("clCreateSubBuffer", VP(bh), U64(fl), U32(ty), arr(SZ, [a, k])); judge(kind, e, bad, info)
            if bool(h) != (e == 0): o.fail(kind=kind, what="handle", result=e, **info)
            if h:
                v = U64(); cl("clGetMemObjectInfo", VP(h), U32(0x1101), SZ(8), ct.byref(v), None); pf = x["f"]; ex = (fl & 7 or pf & 7) | (fl & (HNO | HRO | HWO) or pf & (HNO | HRO | HWO)) | (pf & 56)
                cf = v.value
                if (cf & ~COPYHOST) != (ex & ~COPYHOST): o.fail(kind=kind, what="flags", got=cf, expected=ex, **info)
                for prm, want in ((0x1102, k), (0x1108, a)):
                    cl("clGetMemObjectInfo", VP(h), U32(prm), SZ(8), ct.byref(v), None)
                    if v.value != want: o.fail(kind=kind, what="info %x" % prm, got=v.value, expected=want, **info)
                if k and not ex & (HNO | HRO) and a + k <= NB: d = RB(k); cl("clEnqueueWriteBuffer", Q, VP(h), U32(1), SZ(0), SZ(k), ct.create_string_buffer(d, k), *EV); x["m"][x["o"] + a:x["o"] + a + k] = d; memcheck(kind, info)
                cl("clReleaseMemObject", VP(h))
        elif kind == "map":
            a, k = rng(x["n"]); mf = rnd.choice([1, 2, 3, 4]); f = x["f"]
            if k == 0: continue
            if not inr(a, k, x["n"]): bad.add(C_VALUE)
            if (mf & 2 and f & (HNO | HRO)) or (mf & 1 and f & (HNO | HWO)): bad.add(C_OP)
            info.update(offset=a, size=k, map_flags=mf, flags=f, length=x["n"]); o.at(kind=kind, **info); p, e = cl.h("clEnqueueMapBuffer", q, VP(bh), blk, U64(mf), SZ(a), SZ(k), *ev); cl.finish(); judge(kind, e, bad, info)
            if bool(p) != (e == 0): o.fail(kind=kind, what="pointer", result=e, **info)
            if p and not bad:
                if k <= NB and ct.string_at(p, k) != bytes(x["m"][x["o"] + a:x["o"] + a + k]): o.fail(kind=kind, what="mapped contents", **info)
                cl("clEnqueueUnmapMemObject", Q, VP(x["h"]), VP(p), *EV); cl.finish()
        elif kind == "unmap":
            if not nb and not nq and not npt: continue
            if npt: bad.add(C_VALUE)
            o.at(kind=kind, **info); e = cl("clEnqueueUnmapMemObject", q, VP(bh), ptr, *ev); judge(kind, e, bad, info)
        else:
            I = rnd.choice(IM); J = rnd.choice(IM); small = rnd.random() < .6
            def place(ext): return [rnd.randint(0, ext[i] - r[i]) if 0 < r[i] <= ext[i] else 0 for i in range(3)]
            r = [rnd.randint(1, z) for z in I["ext"]]
            if kind == "cimg": r = [rnd.randint(1, min(z, w)) for z, w in zip(I["ext"], J["ext"])]
            og = place(I["ext"]); o2 = place(J["ext"])
            if not small:
                i = rnd.randrange(3); og[i], r[i] = rng(I["ext"][i])
                if rnd.random() < .3: og[i] = rnd.choice([I["ext"][i] - r[i] + 1, I["ext"][i] - r[i]]) % M64
                if r[i] == 0: r[i] = 1
            no = rnd.random() < .02; ih = None if nb else I["h"]
            ok = lambda g, p: all(inr(p[i], r[i], g["ext"][i]) for i in range(3))
            O = None if no else A3(og); info.update(object=None, image=[I["ty"], I["ext"], I["ps"]], flags=I["f"], origin=og, region=list(r), null=[nb, nq, npt, no])
            if no or not ok(I, og): bad.add(C_VALUE)
            nbytes = r[0] * r[1] * r[2] * I["ps"]
            if kind == "imap":
                mf = rnd.choice([1, 2, 3, 4]); rp, sp = SZ(7), SZ(7)
                if (mf & 2 and I["f"] & (HNO | HRO)) or (mf & 1 and I["f"] & (HNO | HWO)): bad.add(C_OP)
                info["map_flags"] = mf; o.at(kind=kind, **info); p, e = cl.h("clEnqueueMapImage", q, VP(ih), blk, U64(mf), O, A3(r), ct.byref(rp), ct.byref(sp), *ev); cl.finish(); judge(kind, e, bad, info)
                if bool(p) != (e == 0): o.fail(kind=kind, what="pointer", result=e, **info)
                if p and not bad:
                    if rp.value != I["rp"]: o.fail(kind=kind, what="row pitch", got=rp.value, expected=I["rp"], **info)
                    if not I["f"] & (HNO | HWO | HRO):
                        p0, e0 = cl.h("clEnqueueMapImage", Q, VP(ih), U32(1), U64(1), A3([0, 0, 0]), A3(I["ext"]), ct.byref(rp), ct.byref(sp), *EV)
                        if p0 and e0 == 0 and p - p0 != og[0] * I["ps"] + og[1] * rp.value + og[2] * sp.value: o.fail(kind=kind, what="mapped address", got=p - p0, **info)
                        if p0: cl("clEnqueueUnmapMemObject", Q, VP(ih), VP(p0), *EV)
                    cl("clEnqueueUnmapMemObject", Q, VP(ih), VP(p), *EV); cl.finish()
            elif kind in ("rimg", "wimg"):
                if npt: bad.add(C_VALUE)
                if I["f"] & (HNO | (HWO if kind == "rimg" else HRO)): bad.add(C_OP)
                rp = rnd.choice([0, r[0] * I["ps"], r[0] * I["ps"] + 3]) if not bad else 0
                o.at(kind=kind, **info); e = cl("clEnqueueReadImage" if kind == "rimg" else "clEnqueueWriteImage", q, VP(ih), U32(1), O, A3(r), SZ(rp), SZ(0), ptr, *ev); cl.finish(); info["row_pitch"] = rp
                hb = host.raw
                def done():       # through a second transfer of each pixel row
                    if kind == "wimg" and not I["f"] & HWO:
                        g = ct.create_string_buffer(H); e2 = cl("clEnqueueReadImage", Q, VP(ih), U32(1), A3(og), A3(r), SZ(0), SZ(0), g, *EV); rr = r[0] * I["ps"]; R_ = rp or rr; k = 0
                        for z in range(r[2]):
                            for yy in range(r[1]):
                                if g.raw[k:k + rr] != hb[yy * R_ + z * R_ * r[1]:yy * R_ + z * R_ * r[1] + rr]: o.fail(kind=kind, what="image contents", row=[yy, z], **info); return
                                k += rr
                judge(kind, e, bad, info, done)
            elif kind == "fimg":
                if npt: bad.add(C_VALUE)
                o.at(kind=kind, **info); e = cl("clEnqueueFillImage", q, VP(ih), None if npt else ct.create_string_buffer(bytes(16), 16), O, A3(r), *ev); cl.finish(); judge(kind, e, bad, info)
            elif kind == "cimg":
                if I is J: continue
                if not ok(J, o2): bad.add(C_VALUE)
                if I["fmt"] != J["fmt"]: bad.add(C_FMT)
                info.update(dst_image=[J["ty"], J["ext"]], dst_origin=o2); o.at(kind=kind, **info); e = cl("clEnqueueCopyImage", q, VP(ih), VP(J["h"]), O, A3(o2), A3(r), *ev); cl.finish(); judge(kind, e, bad, info)
            else:
                off = rnd.choice([near(x["n"]), x["n"] - nbytes, x["n"] - nbytes + 1]) % M64
                if not inr(off, nbytes, x["n"]): bad.add(C_VALUE)
                if not bad and kind == "i2b" and x["f"] & (HNO | HWO): continue      # its contents could not be followed
                info.update(buffer_offset=off, length=x["n"]); o.at(kind=kind, **info)
                if kind == "i2b": e = cl("clEnqueueCopyImageToBuffer", q, VP(ih), VP(x["h"]), O, A3(r), SZ(off), *ev)
                else: e = cl("clEnqueueCopyBufferToImage", q, VP(x["h"]), VP(ih), SZ(off), O, A3(r), *ev)
                cl.finish(); judge(kind, e, bad, info)
                if e == 0 and kind == "i2b":
                    w = cl_read(x["p"] or x)
                    if w is not None and not bad and not I["f"] & (HNO | HWO):
                        g = ct.create_string_buffer(H); cl("clEnqueueReadImage", Q, VP(ih), U32(1), A3(og), A3(r), SZ(0), SZ(0), g, *EV); x["m"][x["o"] + off:x["o"] + off + nbytes] = g.raw[:nbytes]; memcheck(kind, info)
                    elif w is not None: x["m"][:] = w
