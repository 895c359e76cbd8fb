"""native oracle of R04: argument setting and launch validation on the real runtime"""
import struct, ctypes as ct
from clapi import *
TYPES = [("char", 1, 1), ("uchar", 4, 1), ("short", 1, 2), ("ushort", 2, 2), ("int", 1, 4), ("uint", 3, 4), ("float", 1, 4), ("float", 8, 4), ("long", 1, 8), ("ulong", 2, 8), ("int", 16, 4), ("S", 1, 12), ("Q", 1, 24)]
def size(t): n = t[1]; return t[2] * (4 if n == 3 else n)
def name(t): return t[0] + (str(t[1]) if t[1] > 1 else "")
def src():
    s = "typedef struct { int a; char b; short c; float d; } S; typedef struct { long a; char b[9]; int c; } Q;\n"
    for t in TYPES:      # with zero, one or three local variables of the kernel's own
        T = name(t)
        for x, d, u in (("v0_", "", ""), ("v1_", "local uint w[2]; w[get_local_id(0) & 1] = 1; ", " w[0];"), ("v3_", "local uint w[2], y; local ulong z; w[get_local_id(0) & 1] = 1; y = 0; z = 0; ", " w[0] + y + (uint)z;")):
            s += "kernel void %s%s(global %s *out, %s v, global uint *n) { %s*out = v; atomic_add(n, %s); }\n" % (x, T, T, T, d, u.strip(" ;") or "1")
    s += """
kernel void ptrs(global uint *a, constant uint *b, local uchar *l, constant uint *c, global ulong *r, local uint *l2) { r[0] = a ? a[0] : 77; r[1] = (ulong)l2 - (ulong)l; atomic_inc((volatile global uint *)(r + 2)); if (b) r[3] = b[0]; if (c) r[4] = c[0]; }
kernel void imgs(read_only image2d_t i, sampler_t s, global float4 *o, write_only image2d_t w, global uint *n) { *o = read_imagef(i, s, (int2)(1, 5)); write_imagef(w, (int2)(0, 0), (float4)(get_image_width(i), get_image_height(i), 0, 0)); atomic_inc(n); }
kernel void cnt(global uint *n, global ulong *r) { if (atomic_inc(n) == 0) { r[0] = get_work_dim(); for (int d = 0; d < 3; d++) { r[1 + d] = get_global_size(d); r[4 + d] = get_global_offset(d); r[7 + d] = LS(d); } } }
kernel __attribute__((reqd_work_group_size(2, 3, 1))) void req(global uint *n, global ulong *r) { if (atomic_inc(n) == 0) { r[0] = get_work_dim(); for (int d = 0; d < 3; d++) { r[1 + d] = get_global_size(d); r[4 + d] = get_global_offset(d); r[7 + d] = LS(d); } } }
"""
    return s
def r04(o, rnd, n):
    cl = CL(); u4 = lambda x: struct.pack("<I", x); PU = cl.prog(src(), "-DLS=get_local_size"); PN = cl.prog(src(), "-cl-std=CL3.0 -DLS=get_enqueued_local_size")
    def info(p): x = ct.c_uint64(); cl("clGetDeviceInfo", VP(cl.dev), U32(p), SZ(8), ct.byref(x), None); return x.value
    LM, CM, WG = info(0x1023), info(0x1020), info(0x1004)
    def launch(k, wd, off, g, l, q=1): return cl("clEnqueueNDRangeKernel", VP(cl.q if q else None), VP(k), U32(wd), arr(SZ, off), arr(SZ, g), arr(SZ, l), U32(0), None, None)
    def setarg(k, i, z, v): return cl("clSetKernelArg", VP(k), U32(i), SZ(z), v)
    class Img(ct.Structure): _fields_ = [("order", U32), ("dt", U32)]
    class Desc(ct.Structure): _fields_ = [("type", U32), ("w", SZ), ("h", SZ), ("d", SZ), ("n", SZ), ("rp", SZ), ("sp", SZ), ("lv", U32), ("sm", U32), ("buf", VP)]
    def image(w, h, px):
        f = Img(0x10B5, 0x10DE); d = Desc(); d.type = 0x10F1; d.w, d.h = w, h; return cl.h("clCreateImage", VP(cl.ctx), U64(RW | COPYHOST), ct.byref(f), ct.byref(d), ct.create_string_buffer(px, len(px)))[0]
    samplers = [cl.h("clCreateSampler", VP(cl.ctx), U32(0), U32(a), U32(0x1140))[0] for a in (0x1131, 0x1132)]     # clamp to edge, clamp (border)
    cntb = cl.buf(RW, 4); rb = cl.buf(RW, 128); P = VP
    for c in range(n):
        kind = rnd.choice(["value", "value", "ptrs", "launch", "launch", "launch", "imgs"]); cl.write(cntb, 0, bytes(4)); cl.logs()
        def expect(what, got, want, **kw):
            if got not in want: o.fail(what=what, got=got, expected=sorted(want), kind=kind, **kw); return False
            return True
        count = lambda: struct.unpack("<I", cl.read(cntb, 0, 4))[0]
        if kind == "value":
            t = rnd.choice(TYPES); z = size(t); k = cl.kernel(PU, rnd.choice(["v0_", "v1_", "v3_"]) + name(t)); v = rnd.randbytes(z); zz = rnd.choice([z, z, z, z - 1, z + 1, 0, 2 * z, 8, 4, z | 1 << 32]); i = rnd.choice([0, 1, 2, 3, 7, 0xFFFFFFFF]); nul = rnd.random() < .15; out = cl.buf(RW, z)
            o.at(what="value argument", type=name(t), size=zz, index=i, null=nul); h = ct.create_string_buffer(rnd.randbytes(4096)); x = P(out)
            # a wrong setting, then the right ones; in between, a launch is refused
            e = setarg(k, i, zz, None if nul else h if i == 1 else ct.byref(x)); okz = {0: 8, 1: z, 2: 8}.get(i); want = {-49} if i > 2 else {-51} if zz != okz else {-50} if nul and i == 1 else {0}
            if zz != okz and nul and i == 1: want = {-51, -50}
            expect("result of clSetKernelArg", e, want, type=name(t), arg_index=i, arg_size=zz, null=nul); done = {i} if e == 0 and i < 3 else set()
            order = [0, 1, 2]; rnd.shuffle(order)
            for j in order:
                if len(done) < 3: expect("result of a launch with arguments missing", launch(k, 1, None, [1], None), {-52}, set_so_far=sorted(done))
                d = P(out) if j == 0 else P(cntb); hv = ct.create_string_buffer(v, z); expect("result of clSetKernelArg", setarg(k, j, z if j == 1 else 8, hv if j == 1 else ct.byref(d)), {0}, arg_index=j, type=name(t)); done.add(j)
            if rnd.random() < .5:      # a refused setting leaves the argument as it was
                expect("result of clSetKernelArg", setarg(k, 1, z + rnd.choice([-1, 1, 3]), h), {-51}, arg_index=1)
            expect("work-items run by refused launches", (cl.finish(), count())[1], {0}); expect("result of a valid launch", launch(k, 1, None, [1], None), {0}); cl.finish(); expect("work-items run", count(), {1}); got = cl.read(out, 0, z); m = 3 * t[2] if t[1] == 3 else z
            if t[0] == "S": got, v = got[:5] + got[6:], v[:5] + v[6:]
            if t[0] == "Q": got, v = got[:17] + got[20:], v[:17] + v[20:]
            if got[:m] != v[:m]: o.fail(what="value received by the kernel", type=name(t), got=got.hex(), expected=v.hex())
            cl("clReleaseMemObject", P(out)); cl("clReleaseKernel", P(k))
        elif kind == "ptrs":
            k = cl.kernel(PU, "ptrs"); sz = [rnd.choice([4, 64, CM // 2, CM // 2 + 4, CM, CM + 4]) for _ in range(2)]; lz = [rnd.choice([4, 16, 100, LM // 2, LM - 16, LM, LM + 16]) for _ in range(2)]; bs = [cl.buf(RW, max(4, s)) for s in sz]; r = cl.buf(RW, 64); cl.write(r, 0, bytes(64)); a = cl.buf(RW, 4 if rnd.random() < .7 else 2 * CM); av = rnd.randrange(1 << 32)
            cl.write(a, 0, u4(av)); nulls = [rnd.random() < .2 for _ in range(3)]; how = rnd.random() < .5; o.at(what="pointer arguments", constant=sz, local=lz, null=nulls)
            for j, s in zip(range(2), (11, 22)): cl.write(bs[j], 0, u4(s))
            def ptr(j, b, nul):
                x = P(None if nul else b); expect("result of clSetKernelArg", setarg(k, j, 8, None if nul and how else ct.byref(x)), {0}, arg_index=j)
            rep = rnd.random() < .3
            if rep: ptr(1, bs[1], False); ptr(3, bs[0], False); ptr(0, bs[0], False)      # set twice: the last value counts
            ptr(0, a, nulls[0]); ptr(1, bs[0], nulls[1]); ptr(3, bs[1], nulls[2]); ptr(4, r, False)
            for j, z in ((2, lz[0]), (5, lz[1])): expect("result of clSetKernelArg", setarg(k, j, z, None), {0}, arg_index=j, arg_size=z)
            tot = sum(s for s, x in zip(sz, nulls[1:]) if not x); want = {-5} if tot > CM or sum(lz) > LM else {0}; e = launch(k, 1, None, [1], None)
            if expect("result of a launch", e, want, constant=tot, constant_limit=CM, local=sum(lz), local_limit=LM) and not e:
                cl.finish(); R = struct.unpack("<8Q", cl.read(r, 0, 64)); expect("work-items run", R[2] & 0xFFFFFFFF, {1}); expect("value of the first argument", R[0], {77 if nulls[0] else av}, null=nulls[0]); expect("constant arguments", R[3:5], {(0 if nulls[1] else 11, 0 if nulls[2] else 22)}, null=nulls)
                if not (R[1] >= lz[0] or (1 << 64) - R[1] >= lz[1]): o.fail(what="local arguments overlap", sizes=lz, distance=R[1])
            else: cl.finish(); expect("work-items run by a refused launch", struct.unpack("<8Q", cl.read(r, 0, 64))[2], {0})
            for b in bs + [r, a]: cl("clReleaseMemObject", P(b))
            cl("clReleaseKernel", P(k))
        elif kind == "imgs":
            k = cl.kernel(PU, "imgs"); w, h = rnd.randint(2, 5), rnd.randint(1, 4); px = struct.pack("<%df" % (4 * w * h), *[rnd.randrange(1000) for _ in range(4 * w * h)]); im = image(w, h, px); wi = image(1, 1, bytes(16)); out = cl.buf(RW, 16); s = rnd.randrange(2); o.at(what="image and sampler arguments", width=w, height=h, sampler=s)
            def put(j, b, z=8): x = P(b); return setarg(k, j, z, ct.byref(x))
            if rnd.random() < .6:
                bad = rnd.choice(["size", "null", "null handle"]); e = put(1, samplers[s], rnd.choice([4, 16, 1])) if bad == "size" else setarg(k, 1, 8, None) if bad == "null" else put(1, None); expect("result of clSetKernelArg for a sampler", e, {"size": {-51}}.get(bad, {-41, -50}), bad=bad)
                for j, b in ((0, im), (2, out), (3, wi), (4, cntb)): expect("result of clSetKernelArg", put(j, b), {0}, arg_index=j)
                expect("result of a launch without the sampler", launch(k, 1, None, [1], None), {-52})
            if rnd.random() < .3: put(0, wi)
            for j, b in ((0, im), (1, samplers[s]), (2, out), (3, wi), (4, cntb)): expect("result of clSetKernelArg", put(j, b), {0}, arg_index=j)
            expect("result of a launch", launch(k, 1, None, [1], None), {0}); cl.finish(); expect("work-items run", count(), {1}); i = ((h - 1) * w + 1) * 16; want = px[i:i + 16] if s == 0 else bytes(16)
            if cl.read(out, 0, 16) != want: o.fail(what="texel read through the image and sampler set", sampler=["clamp to edge", "clamp to border"][s], got=struct.unpack("<4f", cl.read(out, 0, 16)), expected=struct.unpack("<4f", want), width=w, height=h)
            z = ct.create_string_buffer(16); cl("clEnqueueReadImage", P(cl.q), P(wi), U32(1), arr(SZ, [0, 0, 0]), arr(SZ, [1, 1, 1]), SZ(0), SZ(0), z, U32(0), None, None); expect("geometry of the image set", struct.unpack("<4f", z.raw)[:2], {(float(w), float(h))})
            for b in (im, wi, out): cl("clReleaseMemObject", P(b))
            cl("clReleaseKernel", P(k))
        else:
            uni = rnd.random() < .5; rq = rnd.random() < .35; k = cl.kernel(PU if uni else PN, "req" if rq else "cnt"); wd = rnd.choice([0, 1, 1, 2, 2, 3, 3, 4, 0xFFFFFFFF]) if rnd.random() < .3 else rnd.randint(1, 3); D = wd if 1 <= wd <= 3 else 3
            l = [rnd.choice([1, 1, 2, 3, 4, 5]) for _ in range(D)]; R3 = (2, 3, 1)
            if rq and rnd.random() < .7: l = list(R3[:D])
            if rnd.random() < .25: l[rnd.randrange(D)] = rnd.choice([0, WG, WG + 1, WG // 2 + 1, 1 << 32, 1 << 63, WG // 2])
            if rnd.random() < .1 and D > 1: a, b = rnd.sample(range(D), 2); l[a] = rnd.choice([32, 33, 64]); l[b] = rnd.choice([WG // 32, WG // 64, 32])
            g = [(x if 0 < x <= 6 else 1) * rnd.randint(1, 3) if rnd.random() < .75 else rnd.randint(0, 7) for x in l]
            for d in range(D):
                if l[d] > 6 and rnd.random() < .6: g[d] = l[d] if l[d] <= WG else 1
            tot = 1
            for x in g: tot *= x
            if tot > 20000: g = [min(x, 6) for x in g]
            off = rnd.choice([None, [rnd.choice([0, 1, 9, 1 << 40]) for _ in range(D)]]); ln, gn = rnd.random() < .15, rnd.random() < .06; qn, kn = rnd.random() < .03, rnd.random() < .03; part = rnd.random() < .08; o.at(what="launch", work_dim=wd, global_size=None if gn else g, local_size=None if ln else l, offset=off, uniform=uni, required=rq, null_queue=qn, null_kernel=kn)
            x = P(cntb); setarg(k, 0, 8, ct.byref(x)); y = P(rb); cl.write(rb, 0, bytes(128))
            if not part: setarg(k, 1, 8, ct.byref(y))
            w = set(); L = None if ln else l; G = [0] * D if gn else g
            if qn: w.add(-36)
            if kn: w.add(-48)
            if wd not in (1, 2, 3): w.add(-53)
            if L and wd in (1, 2, 3):
                p = 1
                for d in range(D):
                    p *= L[d]
                    if L[d] == 0: w |= {-54, -55}
                    elif uni and not kn and G[d] % L[d]: w.add(-54)
                    if L[d] > WG: w |= {-54, -55}
                    if rq and not kn and L[d] != R3[d]: w.add(-54)
                if p > WG: w.add(-54)
            if part and not kn: w.add(-52)
            e = cl("clEnqueueNDRangeKernel", P(None if qn else cl.q), P(None if kn else k), U32(wd), arr(SZ, off), None if gn else arr(SZ, g), arr(SZ, L), U32(0), None, None); cl.finish(); inf = dict(work_dim=wd, global_size=None if gn else g, local_size=L, offset=off, uniform=uni, required=rq)
            run = 0
            if expect("result of a launch", e, w or {0}, null_queue=qn, null_kernel=kn, arguments_missing=part, **inf) and not e:
                run = 1
                for q in G: run *= q
            if expect("work-items run", count(), {run}, result=e, **inf) and run:
                R = struct.unpack("<10Q", cl.read(rb, 0, 80)); pad = lambda v, z: tuple(list(v) + [z] * (3 - D)); want = (wd,) + pad(G, 1) + pad(off or [0] * D, 0) + (pad(L, 1) if L else R[7:]); expect("dimensions, global size, offset and local size seen by the kernel", R, {want}, **inf)
            cl("clReleaseKernel", P(k))
        lg = [x for x in cl.logs() if x.strip() and "API ERROR" not in x and "OpenCL" not in x]
        o.case()
