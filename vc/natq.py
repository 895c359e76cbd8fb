"""Native oracle of Q01: random histories of commands over several queues, with wait lists and user events; native kernels and
kernels log the order in which commands really run."""
from clapi import *
import threading, time
CBT = ct.CFUNCTYPE(None, VP)
KINDS = ["native"] * 6 + ["kernel"] * 3 + ["write", "fill", "copy", "read", "marker", "barrier", "writerect", "copyrect", "map", "unmap"]
def q01(o, rnd, n):
    cl = CL(); keep = []; log = []
    cb = CBT(lambda p: log.append(ct.cast(p, ct.POINTER(ct.c_uint32))[0]))
    prog = cl.prog("kernel void k(global uint *log, uint id) { log[1 + log[0]] = id; log[0]++; }"); kern = cl.kernel(prog, "k")
    state = lambda e: (lambda v: (cl("clGetEventInfo", VP(e), U32(0x11D3), SZ(4), ct.byref(v), None), v.value)[1])(ct.c_int(99))
    def u32(*x): b = (U32 * len(x))(*x); keep.append(b); return b
    for c in range(n):
        keep.clear(); log.clear(); NQ = rnd.choice([1, 1, 2, 3]); ooo = [rnd.random() < .5 for _ in range(NQ)]
        qs = [cl.h("clCreateCommandQueue", VP(cl.ctx), VP(cl.dev), U64(1 if x else 0))[0] for x in ooo]; cmds = []; users = []; hist = []; klog = cl.buf(RW | COPYHOST, 512, bytes(512)); data = cl.buf(RW | COPYHOST, 1024, bytes(1024)); one = cl.buf(RW | COPYHOST, 64, b"\1" * 64)
        info = dict(out_of_order=ooo, history=hist)
        def bad(what, **k): o.fail(what=what, **k, **info)
        def fate(i):        # None: carried out, else the errors it may end with
            e = set()
            for d in cmds[i]["wait"]:
                if isinstance(d, tuple):
                    if users[d[1]]["status"] < 0: e.add(users[d[1]]["status"])
                else: e |= fate(d)
            return e
        def settle(call):
            """sets the user events, before the call or (from another thread) while it waits"""
            todo = [u for u in users if u["status"] is None]; late = bool(todo) and rnd.random() < .4
            for u in todo: u["status"] = 0 if rnd.random() < .6 else -rnd.randint(1, 60); hist.append(["user event", users.index(u), u["status"], "during the call" if late else ""])
            def put():
                if late: time.sleep(.003)
                for u in todo:
                    log.append(("u", users.index(u))); e = cl("clSetUserEventStatus", VP(u["h"]), ct.c_int(u["status"]))
                    if e: bad("a user event could not be set", error=e)
            th = threading.Thread(target=put)
            if late: th.start()
            else: put()
            o.at(**info); r = call()
            if late: th.join()
            return r
        def terminal(i): return state(cmds[i]["h"]) <= 0
        def enqueue():
            i = len(cmds); q = rnd.randrange(NQ); k = rnd.choice(KINDS); w = []
            if rnd.random() < .6:
                pool = list(range(i)) + [("u", j) for j in range(len(users))]
                w = [rnd.choice(pool) for _ in range(rnd.choice([1, 1, 2, 3]))] if pool else []
            if k == "unmap": k = "marker"
            cm = dict(q=q, kind=k, wait=w); hist.append([i, k, "queue %d" % q, "after", [str(x) for x in w]]); hs = arr(VP, [users[x[1]]["h"] if isinstance(x, tuple) else cmds[x]["h"] for x in w]) if w else None
            ev = VP(); tail = (U32(len(w)), hs, ct.byref(ev)); Q = VP(qs[q]); off = 4 * i
            if k == "native": e = cl("clEnqueueNativeKernel", Q, cb, u32(i), SZ(4), U32(0), None, None, *tail)
            elif k == "kernel":
                cl.arg(kern, 0, klog); cl.arg(kern, 1, struct.pack("I", i)); e = cl("clEnqueueNDRangeKernel", Q, VP(kern), U32(1), None, arr(SZ, [1]), None, *tail)
            elif k == "write": e = cl("clEnqueueWriteBuffer", Q, VP(data), U32(0), SZ(off), SZ(4), u32(0x01010101), *tail)
            elif k == "read": cm["to"] = u32(7); e = cl("clEnqueueReadBuffer", Q, VP(one), U32(0), SZ(0), SZ(4), cm["to"], *tail)
            elif k == "fill": e = cl("clEnqueueFillBuffer", Q, VP(data), u32(1), SZ(1), SZ(off), SZ(4), *tail)
            elif k == "copy": e = cl("clEnqueueCopyBuffer", Q, VP(one), VP(data), SZ(0), SZ(off), SZ(4), *tail)
            elif k == "writerect": e = cl("clEnqueueWriteBufferRect", Q, VP(data), U32(0), arr(SZ, [off, 0, 0]), arr(SZ, [0, 0, 0]), arr(SZ, [4, 1, 1]), SZ(0), SZ(0), SZ(0), SZ(0), u32(0x01010101), *tail)
            elif k == "copyrect": e = cl("clEnqueueCopyBufferRect", Q, VP(one), VP(data), arr(SZ, [0, 0, 0]), arr(SZ, [off, 0, 0]), arr(SZ, [4, 1, 1]), SZ(0), SZ(0), SZ(0), SZ(0), *tail)
            elif k == "map": er = ct.c_int(1); cl("clEnqueueMapBuffer", Q, VP(one), U32(0), U64(1), SZ(0), SZ(4), *tail, ct.byref(er)); e = er.value
            elif k == "marker": e = cl("clEnqueueMarkerWithWaitList", Q, *tail)
            else: e = cl("clEnqueueBarrierWithWaitList", Q, *tail)
            if e: bad("a valid command was refused", error=e); return
            cm["h"] = ev.value; cmds.append(cm)
            if state(ev.value) > 3 or state(ev.value) < 0: bad("state of a new event", state=state(ev.value))
        def check(final):
            for i, cm in enumerate(cmds):
                s = state(cm["h"]); f = None
                if s <= 0:
                    if any(users[x[1]]["status"] is None for x in cm["wait"] if isinstance(x, tuple)): bad("finished before a user event", command=i); continue
                    f = fate(i)
                    if (s == 0) != (not f) or (s < 0 and s not in f): bad("how a command ended", command=i, status=s, expected=sorted(f) or 0)
                elif final: bad("a command never ran", command=i, status=s)
                ran = log.count(i) if cm["kind"] == "native" else None
                if ran is not None and ran != (1 if s == 0 else 0): bad("a command is carried out exactly once", command=i, ran=ran, status=s)
            at = {x: j for j, x in enumerate(log)}
            for i, cm in enumerate(cmds):
                if i in at:
                    for d in cm["wait"]:
                        if isinstance(d, tuple) and at.get(d, 1 << 30) > at[i]: bad("a command ran before a user event it waits for", command=i, order=[str(x) for x in log])
                    for d in range(i):
                        if d in at and (d in cm["wait"] or (cmds[d]["q"] == cm["q"] and not ooo[cm["q"]])) and at[d] > at[i]: bad("a command ran before one it has to follow", command=i, before=d, order=[str(x) for x in log])
        try:
            for step in range(rnd.randint(2, 26)):
                r = rnd.random()
                if r < .18 and len(users) < 4:
                    er = ct.c_int(); cl.lib.clCreateUserEvent.restype = VP; h = cl.lib.clCreateUserEvent(VP(cl.ctx), ct.byref(er)); users.append(dict(h=h, status=None)); hist.append(["new user event"])
                elif r < .82 and len(cmds) < 60: enqueue()
                elif r < .92 and cmds:
                    es = [rnd.randrange(len(cmds)) for _ in range(rnd.choice([1, 1, 2, 3]))]; hist.append(["wait for", es])
                    e = settle(lambda: cl("clWaitForEvents", U32(len(es)), arr(VP, [cmds[x]["h"] for x in es]))); want = -14 if any(fate(x) for x in es) else 0
                    if e != want: bad("result of waiting", got=e, expected=want)
                    for x in es:
                        if not terminal(x): bad("waited for, but not finished", command=x)
                        if not ooo[cmds[x]["q"]] and not fate(x):
                            for d in range(x):
                                if cmds[d]["q"] == cmds[x]["q"] and not terminal(d): bad("an earlier command of an in-order queue is not finished", command=x, earlier=d)
                    check(False)
                else:
                    q = rnd.randrange(NQ); fl = rnd.random() < .2; hist.append(["flush" if fl else "finish", q])
                    if settle(lambda: cl("clFlush" if fl else "clFinish", VP(qs[q]))): bad("finish failed")
                    if not fl:
                        for i, cm in enumerate(cmds):
                            if cm["q"] == q and not terminal(i): bad("not finished after clFinish", command=i)
                    check(False)
            hist.append(["finish all"]); settle(lambda: [cl.finish(q) for q in qs])
            check(True)
            d = cl.read(data, 0, 1024); kl = struct.unpack("128I", cl.read(klog, 0, 512)); kl = kl[1:1 + min(kl[0], 127)]
            for i, cm in enumerate(cmds):
                ok = not fate(i)
                if cm["kind"] == "kernel" and kl.count(i) != ok: bad("a kernel runs exactly once", command=i, ran=kl.count(i))
                if cm["kind"] in ("write", "fill", "copy", "writerect", "copyrect") and d[4 * i:4 * i + 4] != (b"\1" * 4 if ok else bytes(4)): bad("effect of a command", command=i, kind=cm["kind"], got=list(d[4 * i:4 * i + 4]))
                if cm["kind"] == "read" and cm["to"][0] != (0x01010101 if ok else 7): bad("effect of a read", command=i)
            at = {x: j for j, x in enumerate(kl)}
            for i in at:
                for e in at:
                    if e < i and (e in cmds[i]["wait"] or (cmds[e]["q"] == cmds[i]["q"] and not ooo[cmds[i]["q"]])) and at[e] > at[i]: bad("a kernel ran before one it has to follow", command=i, before=e, order=kl)
        finally:
            for cm in cmds: cl("clReleaseEvent", VP(cm["h"]))
            for u in users: cl("clReleaseEvent", VP(u["h"]))
            for q in qs: cl("clReleaseCommandQueue", VP(q))
            for b in (klog, data, one): cl("clReleaseMemObject", VP(b))
        o.case()
