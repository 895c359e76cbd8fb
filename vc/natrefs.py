"""native oracle of R02: random histories of creating, retaining, releasing and using objects on the real runtime"""
import ctypes as ct
from clapi import *
SRC = "kernel void k(global int *a, global int *b) { a[0] = b[0]; }\nkernel void other(local int *x) { x[0] = 1; }"
class Img(ct.Structure): _fields_ = [("order", U32), ("dt", U32)]
class Desc(ct.Structure): _fields_ = [("type", U32), ("w", SZ), ("h", SZ), ("d", SZ), ("n", SZ), ("rp", SZ), ("sp", SZ), ("lv", U32), ("sm", U32), ("buf", VP)]
INFO = dict(context=("clGetContextInfo", 0x1080, "Context"), queue=("clGetCommandQueueInfo", 0x1092, "CommandQueue"), mem=("clGetMemObjectInfo", 0x1105, "MemObject"), sampler=("clGetSamplerInfo", 0x1150, "Sampler"), program=("clGetProgramInfo", 0x1160, "Program"), kernel=("clGetKernelInfo", 0x1192, "Kernel"), event=("clGetEventInfo", 0x11D2, "Event"))
OWN = dict(context=(0x1, None), queue=("clGetCommandQueueInfo", 0x1090), mem=("clGetMemObjectInfo", 0x1106), sampler=("clGetSamplerInfo", 0x1151), program=("clGetProgramInfo", 0x1161), kernel=("clGetKernelInfo", 0x1193), event=("clGetEventInfo", 0x11D4))
class Ob:
    def __init__(s, kind, h, deps, what, ctx): s.kind, s.h, s.deps, s.what, s.ctx = kind, h, deps, what, ctx; s.count = 1; s.users = 1; s.dead = False; s.gone = 0; s.pend = []; s.args = {}; s.size = 0; s.sub = s.img = False
def r02(o, rnd, n):
    cl = CL(); CB = ct.CFUNCTYPE(None, VP, VP); keep = []; done = [0]
    while done[0] < n: history(o, rnd, cl, CB, keep, done)
def history(o, rnd, cl, CB, keep, done):
    objs = []; trace = []
    def new(kind, h, deps, what, ctx):
        x = Ob(kind, h, deps, what, ctx); x.ctx = ctx or x; objs.append(x)
        for d in deps: d.count += 1
        trace.append("create %s #%d%s" % (what, objs.index(x), " (" + ", ".join("#%d" % objs.index(d) for d in deps) + ")" if deps else ""))
        if kind in ("context", "mem") and not (what == "an image of a buffer"):
            f = CB(lambda h, u, x=x: setattr(x, "gone", x.gone + 1)); keep.append(f)
            e = cl("clSetContextDestructorCallback" if kind == "context" else "clSetMemObjectDestructorCallback", VP(h), f, None); x.cb = e == 0
        else: x.cb = False
        return x
    def drop(x):
        """one reference removed"""
        x.count -= 1
        if x.count == 0:
            if x.kind == "queue": x.count = 1; flush(x); x.count = 0
            x.dead = True
            for d in x.deps: drop(d)
    def flush(q):
        p, q.pend = q.pend, []
        for refs in p:
            for r in refs: drop(r)
    def alive(k, ctx=None, user=True): return [x for x in objs if x.kind == k and not x.dead and (x.users > 0 or not user) and (ctx is None or x.ctx is ctx)]
    def check():
        for x in objs:
            if x.cb and x.gone != (1 if x.dead else 0): o.fail(what="%s #%d %s" % (x.what, objs.index(x), "was destroyed while referenced" if x.gone and not x.dead else "was destroyed more than once" if x.gone > 1 else "was not destroyed with its last reference"), history=trace[-30:]); return False
            if x.dead: continue
            fn, c, _ = INFO[x.kind]; v = U32(0); e = cl(fn, VP(x.h), U32(c), SZ(4), ct.byref(v), None)
            if e or v.value != x.count: o.fail(what="reference count of %s #%d" % (x.what, objs.index(x)), expected=x.count, got=v.value, error=e, history=trace[-30:]); return False
            if x.kind != "context":
                fn, c = OWN[x.kind]; p = VP(0); e = cl(fn, VP(x.h), U32(c), SZ(8), ct.byref(p), None)
                if e or p.value != x.ctx.h or x.ctx.dead: o.fail(what="context of %s #%d" % (x.what, objs.index(x)), history=trace[-30:]); return False
        return True
    def image(c, buf):
        f = Img(0x10B5, 0x10DE); D = Desc(); D.type, D.w, D.h = (0x10F6, 4, 0) if buf else (0x10F1, 4, 3); D.buf = buf.h if buf else None
        return cl.h("clCreateImage", VP(c.h), U64(RW), ct.byref(f), ct.byref(D), None)
    def step():
        cs = alive("context")
        if not cs or rnd.random() < .04:
            e = ct.c_int(); t = rnd.random() < .3; ps = arr(SZ, [0x1085, 0, 0x1084, cl.platform, 0]) if rnd.random() < .5 else None
            h = cl("clCreateContextFromType", ps, U64(4 | 2), None, None, ct.byref(e)) if t else cl("clCreateContext", ps, U32(1), arr(VP, [cl.dev]), None, None, ct.byref(e))
            if e.value: o.fail(what="creating a context", error=e.value); return False
            new("context", h, [], "a context", None); return True
        x = rnd.random(); pool = [y for y in objs if not y.dead and y.users > 0]
        if x < .22:
            y = rnd.choice(pool); trace.append("retain #%d" % objs.index(y)); y.users += 1; y.count += 1; e = cl("clRetain" + INFO[y.kind][2], VP(y.h))
        elif x < .55:
            y = rnd.choice(pool); trace.append("release #%d" % objs.index(y)); y.users -= 1; drop(y); e = cl("clRelease" + INFO[y.kind][2], VP(y.h))
        elif x < .62:
            fn = "cl%s%s" % (rnd.choice(["Retain", "Release"]), INFO[rnd.choice(list(INFO))][2]); e = cl(fn, VP(None)); trace.append(fn + "(NULL)"); e = 0 if e < 0 else 77
        else:
            c = rnd.choice(cs); k = rnd.randrange(15); e = 0; h = 1; y = None
            if k < 2:
                w = rnd.choice([None, [0], [0x1093, 2, 0], [0x1093, 0, 0]])
                h, e = cl.h("clCreateCommandQueueWithProperties", VP(c.h), VP(cl.dev), arr(U64, w)) if rnd.random() < .5 else cl.h("clCreateCommandQueue", VP(c.h), VP(cl.dev), U64(rnd.choice([0, 1, 2])))
                if h: new("queue", h, [c], "a queue", c)
            elif k < 4:
                h, e = cl.h("clCreateBuffer", VP(c.h), U64(RW), SZ(256), None) if rnd.random() < .6 else cl.h("clCreateBufferWithProperties", VP(c.h), arr(U64, [0]), U64(RW), SZ(256), None)
                if h: new("mem", h, [c], "a buffer", c).size = 256
            elif k == 4:
                b = [z for z in alive("mem", c) if not z.sub and not z.img]
                if b:
                    b = rnd.choice(b); h, e = cl.sub(b.h, RW, 128, 128)
                    if h: y = new("mem", h, [b], "a sub-buffer", c); y.sub = True; y.size = 128
            elif k == 5:
                b = [z for z in alive("mem", c) if not z.sub and not z.img]; b = rnd.choice(b) if b and rnd.random() < .6 else None; h, e = image(c, b)
                if h: new("mem", h, [b] if b else [c], "an image of a buffer" if b else "an image", c).img = True
            elif k == 6:
                h, e = cl.h("clCreateSampler", VP(c.h), U32(0), U32(0x1132), U32(0x1140)) if rnd.random() < .5 else cl.h("clCreateSamplerWithProperties", VP(c.h), rnd.choice([None, arr(U64, [0]), arr(U64, [0x1152, 0, 0x1153, 0x1132, 0])]))
                if h: new("sampler", h, [c], "a sampler", c)
            elif k == 7:
                h, e = cl.h("clCreateUserEvent", VP(c.h))
                if h: new("event", h, [c], "a user event", c).user = True
            elif k == 8 and len(alive("program")) < 2:
                s = ct.c_char_p(SRC.encode()); h, e = cl.h("clCreateProgramWithSource", VP(c.h), U32(1), ct.byref(s), None); e = e or cl("clBuildProgram", VP(h), U32(0), None, None, None, None)
                if h: new("program", h, [c], "a program", c)
            elif k == 9:
                p = alive("program", c)
                if p and rnd.random() < .5:
                    p = rnd.choice(p); z = ct.c_size_t(0); cl("clGetProgramInfo", VP(p.h), U32(0x1165), SZ(8), ct.byref(z), None); bb = ct.create_string_buffer(z.value); bp = VP(ct.addressof(bb)); cl("clGetProgramInfo", VP(p.h), U32(0x1166), SZ(8), ct.byref(bp), None)
                    h, e = cl.h("clCreateProgramWithBinary", VP(c.h), U32(1), arr(VP, [cl.dev]), arr(SZ, [z.value]), arr(VP, [ct.addressof(bb)]), None); e = e or cl("clBuildProgram", VP(h), U32(0), None, None, None, None)
                    if h: new("program", h, [c], "a program from a binary", c)
            elif k < 12:
                p = alive("program", c); ks = alive("kernel", c); v = rnd.random()
                if p and v < .5:
                    p = rnd.choice(p); h, e = cl.h("clCreateKernel", VP(p.h), ct.c_char_p(rnd.choice([b"k", b"other", b"missing"])))
                    if h: new("kernel", h, [p], "a kernel", c)
                    else: e = 0 if e == -46 or e == -48 or True else e; h = 1; trace.append("no such kernel")
                elif p and v < .65:
                    p = rnd.choice(p); ar = (VP * 2)(); e = cl("clCreateKernelsInProgram", VP(p.h), U32(2), ar, None)
                    for hh in ar: new("kernel", hh, [p], "a kernel of all", c)
                elif ks:
                    s = rnd.choice(ks); h, e = cl.h("clCloneKernel", VP(s.h))
                    if h: y = new("kernel", h, list(s.deps), "a cloned kernel", c); y.args = dict(s.args)
            else:
                qs = alive("queue", c); bs = [z for z in alive("mem", c) if not z.img]; ks = [z for z in alive("kernel", c)]
                if qs and bs:
                    q = rnd.choice(qs); b = rnd.choice(bs); v = rnd.random(); evs = [z for z in alive("event", c) if getattr(z, "q", None) is q]; w = rnd.sample(evs, min(len(evs), rnd.randrange(3))); ev = VP(0); want = rnd.random() < .5; tail = (U32(len(w)), arr(VP, [z.h for z in w]) if w else None, ct.byref(ev) if want else None); refs = list(w)
                    if v < .35: e = cl("clEnqueueFillBuffer", VP(q.h), VP(b.h), ct.create_string_buffer(4), SZ(4), SZ(0), SZ(64), *tail); refs.append(b); what = "fill"
                    elif v < .6: b2 = rnd.choice([z for z in bs if z is not b] or [None]); e = cl("clEnqueueCopyBuffer", VP(q.h), VP(b.h), VP(b2.h), SZ(0), SZ(0), SZ(8), *tail) if b2 else None; refs += [b, b2]; what = "copy"; e = -7 if b2 is None or e == -57 or (e and (b2 in b.deps or b in b2.deps)) else e
                    elif v < .7: e = cl("clEnqueueMarkerWithWaitList", VP(q.h), *tail); what = "marker"
                    elif ks:
                        z = rnd.choice(ks); b2 = rnd.choice(bs); cl.arg(z.h, 0, b.h); e = cl.arg(z.h, 1, b2.h); g = arr(SZ, [1])
                        if e == 0: e = cl("clEnqueueNDRangeKernel", VP(q.h), VP(z.h), U32(1), None, g, None, *tail); refs += [z, b, b2]; what = "kernel"
                        else: e = -7
                    else: e = -7
                    if e == -7: e = 0
                    elif e == 0:
                        trace.append("%s on #%d using %s" % (what, objs.index(q), ", ".join("#%d" % objs.index(r) for r in refs)))
                        for r in refs: r.count += 1
                        if want: y = new("event", ev.value, [c], "the event of a command", c); y.q = q; y.count += 1; q.pend.append(refs + [y])
                        else: c.count += 1; q.pend.append(refs + [c])
                    if rnd.random() < .4 and q in objs and not q.dead: trace.append("finish #%d" % objs.index(q)); flush(q); e = e or cl("clFinish", VP(q.h))
            if not h: e = e or 77
        if e: o.fail(what="the last step failed", error=e, history=trace[-30:]); return False
        return True
    o.at(history="%d cases done" % done[0])
    for _ in range(rnd.randint(20, 120)):
        o.at(history=trace[-30:]); ok = step() and check(); o.case(); done[0] += 1
        if not ok: return
    for x in list(objs):
        while not x.dead and x.users > 0:
            trace.append("release #%d" % objs.index(x)); o.at(history=trace[-30:]); x.users -= 1; drop(x); cl("clRelease" + INFO[x.kind][2], VP(x.h))
            if not check(): return
    for x in objs:
        if not x.dead: o.fail(what="%s #%d survives all references (in the model)" % (x.what, objs.index(x)), history=trace[-30:])
