"""Native oracles of N01 (every work-item exactly once, with its IDs) and N02 (barriers): the real library."""
import os, random, struct, subprocess, tempfile, shutil
from clapi import *
SRC = """
kernel void k(global uint *cnt, global ulong *rec, global uint *grp, uint nx, uint ny, uint n, uint ng) {
  size_t x = get_global_id(0) - get_global_offset(0), y = get_global_id(1) - get_global_offset(1), z = get_global_id(2) - get_global_offset(2);
  size_t i = x + (y + z * ny) * nx; if (i > n) i = n;
  size_t g = get_group_id(0) + (get_group_id(1) + get_group_id(2) * get_num_groups(1)) * get_num_groups(0); if (g > ng) g = ng;
  atomic_inc(cnt + i); atomic_inc(grp + g);
  for (int d = 0; d < 3; d++) { global ulong *r = rec + i * 24 + d * 8; r[0] = get_global_id(d); r[1] = get_local_id(d); r[2] = get_group_id(d); r[3] = get_local_size(d); r[4] = get_global_size(d); r[5] = get_num_groups(d); r[6] = get_global_offset(d); r[7] = LS(d); }
}
kernel void b(global uint *cnt, global uint *out, local uint *s, uint nx, uint ny) {
  size_t x = get_global_id(0) - get_global_offset(0), y = get_global_id(1) - get_global_offset(1), z = get_global_id(2) - get_global_offset(2);
  size_t i = x + (y + z * ny) * nx, l = get_local_id(0) + (get_local_id(1) + get_local_id(2) * get_local_size(1)) * get_local_size(0), n = get_local_size(0) * get_local_size(1) * get_local_size(2);
  uint v = 0;
  for (uint r = 0; r < 3; r++) { s[l] = i * 7 + r; barrier(CLK_LOCAL_MEM_FENCE); v = v * 31 + s[(l + 1 + r) % n] + s[n - 1 - l]; barrier(CLK_LOCAL_MEM_FENCE); }
  out[i] = v; atomic_inc(cnt + i);
}
"""
def setenv(**k):
    for a, v in k.items():
        if v is None: os.environ.pop(a, None)
        else: os.environ[a] = str(v)
def n01(o, rnd, n):
    cl = CL(); U = cl.prog(SRC, "-DLS=get_local_size"); N = cl.prog(SRC, "-cl-std=CL3.0 -DLS=get_enqueued_local_size")
    ks = {p: {x: cl.kernel(p, x) for x in "kb"} for p in (U, N)}; u4 = lambda x: struct.pack("<I", x)
    for c in range(n):
        D = rnd.choice([1, 2, 3]); L = [rnd.choice([1, 1, 2, 3, 4, 5]) if d < D else 1 for d in range(3)]; uni = rnd.random() < .4
        while L[0] * L[1] * L[2] > 40: L[rnd.randrange(3)] = 1
        W = [rnd.randint(1, 4) if d < D else 1 for d in range(3)]; G = [w * l if uni or d >= D else max(1, w * l - rnd.randrange(l)) for d, (w, l) in enumerate(zip(W, L))]
        O = [rnd.choice([0, 0, 1, 5, 1 << 33]) if d < D else 0 for d in range(3)]; p = U if uni else N; quick = rnd.random() < .15; th = rnd.choice([1, 1, 2, 4, 7])
        NG = [-(-g // l) for g, l in zip(G, L)]; T = G[0] * G[1] * G[2]; ng = NG[0] * NG[1] * NG[2]; nolocal = rnd.random() < .05
        info = dict(dims=D, globals=G[:D], locals=None if nolocal else L[:D], offset=O[:D], threads=th, quick=quick, uniform=uni); o.at(**info)
        setenv(OCLGRIND_NUM_THREADS=th, OCLGRIND_QUICK=1 if quick else None); cnt = cl.buf(RW | COPYHOST, 4 * (T + 1), bytes(4 * (T + 1))); rec = cl.buf(RW | COPYHOST, 192 * (T + 1), bytes(192 * (T + 1))); grp = cl.buf(RW | COPYHOST, 4 * (ng + 1) if not nolocal else 4 * (T + 1), bytes(4 * ((T if nolocal else ng) + 1)))
        try: e = cl.run(ks[p]["k"], [cnt, rec, grp, u4(G[0]), u4(G[1]), u4(T), u4(T if nolocal else ng)], G[:D], None if nolocal else L[:D], O[:D])
        finally: setenv(OCLGRIND_QUICK=None)
        if e: o.fail(what="a valid launch was rejected", err=e, **info); continue
        C = struct.unpack("<%dI" % (T + 1), cl.read(cnt, 0, 4 * (T + 1))); R = struct.unpack("<%dQ" % (24 * (T + 1)), cl.read(rec, 0, 192 * (T + 1)))
        last = [x - 1 for x in NG]; bad = None; first = R[:24] if C[0] else None
        LL = [R[d * 8 + 3] for d in range(3)] if nolocal else L      # the implementation chose the local size: it has to divide evenly, and be consistent
        if nolocal and (0 in LL): bad = dict(what="the first work-item did not run"); LL = [1, 1, 1]
        NN = [-(-g // l) for g, l in zip(G, LL)]; last = [x - 1 for x in NN]
        for i in range(T):
            x = [i % G[0], i // G[0] % G[1], i // (G[0] * G[1])]; w = [a // l for a, l in zip(x, LL)]; want = 1 if not quick or w == [0, 0, 0] or w == last else 0
            if C[i] != want: bad = bad or dict(what="executions of a work-item", work_item=x, got=C[i], expected=want)
            elif want:
                for d in range(3):
                    e = [x[d] + O[d], x[d] % LL[d], w[d], min(LL[d], G[d] - w[d] * LL[d]), G[d], NN[d], O[d], LL[d] if not uni else min(LL[d], G[d] - w[d] * LL[d])]; g = list(R[i * 24 + d * 8:i * 24 + d * 8 + 8])
                    if e != g: bad = bad or dict(what="IDs of a work-item (global id, local id, group, local size, global size, groups, offset, enqueued local size)", dimension=d, work_item=x, got=g, expected=e)
        if C[T]: bad = bad or dict(what="work-items outside of the range ran", got=C[T])
        if bad: o.fail(**bad, **info)
        o.case()
        if not quick and not nolocal:      # with barriers and local memory
            out = cl.buf(RW | COPYHOST, 4 * T, bytes(4 * T)); cl.write(cnt, 0, bytes(4 * T + 4)); nl = L[0] * L[1] * L[2]; cl.logs()
            cl.run(ks[p]["b"], [cnt, out, (None, 4 * nl), u4(G[0]), u4(G[1])], G[:D], L[:D], O[:D]); C = struct.unpack("<%dI" % (T + 1), cl.read(cnt, 0, 4 * (T + 1))); V = struct.unpack("<%dI" % T, cl.read(out, 0, 4 * T)); lg = cl.logs()
            if lg: o.fail(what="message for a valid kernel with barriers", message=lg[0][:200], **info)
            for i in range(T):
                x = [i % G[0], i // G[0] % G[1], i // (G[0] * G[1])]; w = [a // l for a, l in zip(x, L)]; s = [min(l, g - a * l) for l, g, a in zip(L, G, w)]; li = [a % l for a, l in zip(x, L)]; m = s[0] * s[1] * s[2]; l = li[0] + (li[1] + li[2] * s[1]) * s[0]
                def at(q): y = [w[0] * L[0] + q % s[0], w[1] * L[1] + q // s[0] % s[1], w[2] * L[2] + q // (s[0] * s[1])]; return y[0] + (y[1] + y[2] * G[1]) * G[0]
                v = 0
                for r in range(3): v = (v * 31 + at((l + 1 + r) % m) * 7 + r + at(m - 1 - l) * 7 + r) & 0xFFFFFFFF
                if C[i] != 1 or V[i] != v: o.fail(what="work-item of a kernel with barriers (executions, value)", work_item=x, got=[C[i], V[i]], expected=[1, v], **info); break
            cl("clReleaseMemObject", VP(out)); o.case()
        for h in (cnt, rec, grp): cl("clReleaseMemObject", VP(h))
    debugger(o, rnd, max(6, n // 8))
SIMK = """kernel void f(global uint *a, global uint *c, local uint *s)
{
  uint i = get_global_id(0) + get_global_id(1) * get_global_size(0);
  uint l = get_local_id(0) + get_local_id(1) * get_local_size(0);
  uint n = get_local_size(0) * get_local_size(1);
  s[l] = i + 1;
  barrier(CLK_LOCAL_MEM_FENCE);
  uint v = s[(l + 1) % n];
  barrier(CLK_LOCAL_MEM_FENCE);
  s[l] = v;
  barrier(CLK_LOCAL_MEM_FENCE);
  a[i] = s[(l + 1) % n];
  c[i] = c[i] + 1;
}
"""
def debugger(o, rnd, n):
    """switching between work-items in the debugger does not change what the kernel computes"""
    d = os.path.dirname(os.environ["CLAPI_LIB"]); exe = os.path.join(d, "oclgrind-kernel"); tmp = tempfile.mkdtemp(dir=os.environ["CLAPI_DIR"])
    for c in range(n):
        two = rnd.random() < .6; L = [rnd.choice([1, 2, 3]), rnd.choice([1, 2]) if two else 1]; non = rnd.random() < .5; G = [rnd.randint(1, 3) * L[0], rnd.randint(1, 3) * L[1] if two else 1]
        if non: G = [max(1, g - rnd.randrange(l)) for g, l in zip(G, L)]
        T = G[0] * G[1]; nl = L[0] * L[1]; cmds = []
        for _ in range(rnd.randint(1, 14)):
            if rnd.random() < .35: cmds.append("workitem %d %d" % (rnd.randrange(G[0] + (rnd.random() < .1)), rnd.randrange(G[1])))
            elif rnd.random() < .4: cmds.append("break %d" % rnd.choice([4, 7, 9, 11, 12]))
            elif rnd.random() < .4: cmds.append("continue")
            else: cmds += [rnd.choice(["next", "step"])] * rnd.randint(1, 9)
        cmds += ["delete", "y"] + ["continue"] * 400 + ["quit", ""]; info = dict(debugger=cmds[:-402], globals=G, locals=L); o.at(**info)
        open(os.path.join(tmp, "a.cl"), "w").write(SIMK); open(os.path.join(tmp, "a.sim"), "w").write("a.cl\nf\n%d %d 1\n%d %d 1\n<size=%d uint fill=0 dump>\n<size=%d uint fill=0 dump>\n<size=%d>\n" % (G[0], G[1], L[0], L[1], 4 * T, 4 * T, 4 * nl))
        try: r = subprocess.run([exe, "-i", "--num-threads", "1", "--build-options", "-cl-std=CL3.0", "a.sim"], cwd=tmp, input="\n".join(cmds).encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=50)
        except subprocess.TimeoutExpired: o.fail(what="the debugger session did not end", **info); o.case(); continue
        vals = {}; cur = None; import re
        for l in r.stdout.decode(errors="replace").splitlines():
            m = re.match(r"\s*Argument '(\w+)'", l)
            if m: cur = vals.setdefault(m.group(1), {})
            m = re.match(r"\s*(\w+)\[(\d+)\] = (\d+)", l)
            if m and cur is not None: cur[int(m.group(2))] = int(m.group(3))
        if r.returncode < 0: o.fail(what="the debugger session crashed", rc=r.returncode, **info); o.case(); continue
        for i in range(T):
            x = [i % G[0], i // G[0]]; w = [a // l for a, l in zip(x, L)]; s = [min(l, g - a * l) for l, g, a in zip(L, G, w)]; m = s[0] * s[1]; l = (x[0] % L[0]) + (x[1] % L[1]) * s[0]; q = (l + 2) % m
            e = (w[0] * L[0] + q % s[0]) + (w[1] * L[1] + q // s[0]) * G[0] + 1
            if (vals.get("a", {}).get(i), vals.get("c", {}).get(i)) != (e, 1): o.fail(what="result and number of executions of a work-item after switching work-items in the debugger", work_item=x, got=[vals.get("a", {}).get(i), vals.get("c", {}).get(i)], expected=[e, 1], output=r.stdout.decode(errors="replace")[-300:], **info); break
        o.case()

NSRC = """
kernel void d(global uint *act, global uint *clock, global uint *stamp, uint rounds) {
  size_t l = get_local_linear_id(), g = get_group_id(0), n = get_enqueued_local_size(0) * get_enqueued_local_size(1); size_t i = g * n + l;
  for (uint r = 0; r < rounds; r++) {
    uint a = act[i * rounds + r];
    if (a == 0) return;
    stamp[(i * rounds + r) * 2] = atomic_inc(clock + g);
    if ((a & 3) == 1)
      barrier(a >> 2);
    else
      barrier(a >> 2);
    stamp[(i * rounds + r) * 2 + 1] = atomic_inc(clock + g);
  }
}
kernel void e(global uint *src, global uint *out, local uint *s, global uint *how) {
  size_t l = get_local_id(0), n = get_local_size(0); event_t ev[3];
  uint a = how[get_global_id(0)];
  event_t e1 = async_work_group_copy(s, src, n, 0), e2 = async_work_group_copy(s + n, src + n, n, 0);
  ev[0] = a & 1 ? e2 : e1; ev[1] = a & 1 ? e1 : e2; *(private ulong *)&ev[2] = 1000;
  if (a == 6) { ev[1] = ev[2]; }
  if (a & 8) return;
  wait_group_events(a == 2 ? 1 : 2, ev);
  out[get_global_id(0)] = s[l] + s[n + l];
}
"""
def n02(o, rnd, n):
    cl = CL(); P = cl.prog(NSRC, "-cl-std=CL3.0"); kd, ke = cl.kernel(P, "d"), cl.kernel(P, "e"); u4 = lambda x: struct.pack("<I", x)
    for c in range(n):
        L = [rnd.choice([1, 2, 3, 4, 6]), rnd.choice([1, 1, 2])]; NG = rnd.choice([1, 1, 2, 3]); m = L[0] * L[1]; R = rnd.randint(1, 4); T = m * NG; th = rnd.choice([1, 1, 3]); div = rnd.random() < .7; acts = []
        for g in range(NG):
            base = [rnd.choice([1, 2]) | rnd.choice([1, 1, 2, 3]) << 2 for _ in range(R)]; A = [list(base) for _ in range(m)]
            if div and rnd.random() < .8:
                for _ in range(rnd.choice([1, 1, 1, 2, 5])):
                    i, r = rnd.randrange(m), rnd.randrange(R); k = rnd.choice(["exit", "fence", "line", "any"]); x = A[i][r]
                    A[i][r] = 0 if k == "exit" else x ^ 4 if k == "fence" and (x ^ 4) >> 2 else x ^ 3 if k == "line" and x else rnd.choice([0, 5, 6, 9, 10])
            for a in A:
                for r in range(R):
                    if a[r] == 0: a[r:] = [0] * (R - r)
            acts.append(A)
        # reference: everybody arrives at round r (those that have not left); divergent if some left, or arrived elsewhere
        bad = any(len({a[r] for a in A}) > 1 for A in acts for r in range(R)); info = dict(locals=L, groups=NG, rounds=R, threads=th, actions=acts); o.at(**info); setenv(OCLGRIND_NUM_THREADS=th)
        bufs = [cl.buf(RW | COPYHOST, 4 * T * R, struct.pack("<%dI" % (T * R), *[x for A in acts for a in A for x in a])), cl.buf(RW | COPYHOST, 4 * NG, bytes(4 * NG)), cl.buf(RW | COPYHOST, 8 * T * R, b"\xff" * (8 * T * R))]; cl.logs()
        if cl.run(kd, bufs + [u4(R)], [L[0] * NG, L[1]], L): o.fail(what="launch failed", **info)
        S = struct.unpack("<%dI" % (2 * T * R), cl.read(bufs[2], 0, 8 * T * R)); lg = [x for x in cl.logs() if x.strip()]; dv = [x for x in lg if "divergence" in x]
        if bool(dv) != bad: o.fail(what="barrier divergence report", expected=bad, got=(lg or ["nothing"])[0][:200], **info)
        for g in range(NG):
            for r in range(R):
                at = [S[2 * ((g * m + i) * R + r):2 * ((g * m + i) * R + r) + 2] for i in range(m) if acts[g][i][r]]
                for x in at:
                    if 0xFFFFFFFF in x: o.fail(what="a work-item did not arrive at or leave a barrier", group=g, round=r, stamps=at, **info); break
                if at and max(x[0] for x in at) > min(x[1] for x in at): o.fail(what="a work-item left the barrier before another one that waits there arrived", group=g, round=r, stamps=at, **info)
        for b in bufs: cl("clReleaseMemObject", VP(b))
        o.case()
        n1 = rnd.choice([1, 2, 3, 5]); NG = rnd.choice([1, 2]); T = n1 * NG; mode = rnd.choice(["same", "swap", "one", "bad", "leave", "mixed"]); how = [0] * T; w = rnd.randrange(T)
        if mode == "same": how = [rnd.choice([0, 1])] * T
        elif mode == "mixed": how = [rnd.choice([0, 1, 2, 6]) for _ in range(T)]
        elif mode == "leave": how = [8] * T if rnd.random() < .5 else [8 if i // n1 == w // n1 else 0 for i in range(T)]
        else: how[w] = {"swap": 1, "one": 2, "bad": 6}[mode]
        gs = [how[g * n1:(g + 1) * n1] for g in range(NG)]; info = dict(locals=n1, groups=NG, events=how, threads=th); o.at(**info); ev = lambda a: (["e2", "e1"] if a & 1 else ["e1"] if a == 2 else ["e1", "bad"] if a == 6 else ["e1", "e2"])
        want = {"barrier": any(len({tuple(ev(a)) for a in G if not a & 8}) > 1 for G in gs), "Invalid wait event": None, "finished without waiting": None}
        want["Invalid wait event"] = any(6 in G[:1] for G in gs); leave = any(all(a & 8 for a in G) for G in gs); want["finished without waiting"] = leave if mode in ("same", "swap", "leave") else None
        if mode in ("mixed", "one", "bad"): want["Invalid wait event"] = True if all(6 == a for G in gs[:1] for a in G) else False if 6 not in how else None
        src = cl.buf(RW | COPYHOST, 8 * n1, struct.pack("<%dI" % (2 * n1), *range(1, 2 * n1 + 1))); out = cl.buf(RW | COPYHOST, 4 * T, bytes(4 * T)); hb = cl.buf(RW | COPYHOST, 4 * T, struct.pack("<%dI" % T, *how)); cl.logs()
        if cl.run(ke, [src, out, (None, 8 * n1), hb], [T], [n1]): o.fail(what="launch failed", **info)
        lg = [x for x in cl.logs() if x.strip()]
        for k, v in want.items():
            got = any((k if k != "barrier" else "(barrier)") in x for x in lg)
            if v is not None and got != v: o.fail(what="report of " + k, expected=v, got=[x[:80] for x in lg][:3], **info)
        V = struct.unpack("<%dI" % T, cl.read(out, 0, 4 * T))
        for i in range(T):
            if not how[i] & 8 and mode in ("same", "swap", "leave") and V[i] != i % n1 + 1 + n1 + i % n1 + 1: o.fail(what="data after wait_group_events", work_item=i, got=V[i], **info); break
        for b in (src, out, hb): cl("clReleaseMemObject", VP(b))
        o.case()
    debugger(o, rnd, max(6, n // 25))
ATYPES = [("char", 1, 1), ("uchar", 2, 1), ("short", 3, 2), ("ushort", 8, 2), ("int", 1, 4), ("uint", 16, 4), ("float", 1, 4), ("float", 3, 4), ("long", 2, 8), ("ulong", 1, 8), ("double", 1, 8), ("double", 4, 8)]
def asrc():
    s = ""
    for t, n, _ in ATYPES:
        T = t + (str(n) if n > 1 else "")
        s += """
kernel void gl_%(T)s(global %(T)s *src, global uchar *out, local uchar *loc, ulong so, ulong lo, ulong num, ulong stride, ulong lbytes, uint mode, global uint *bad) {
  size_t l = get_local_id(0), n = get_local_size(0), g = get_group_id(0), i = get_global_id(0); for (size_t k = l; k < lbytes; k += n) loc[k] = 0x5A; barrier(CLK_LOCAL_MEM_FENCE);
  if (mode & 1) for (size_t k = 0; k < l * 3 %% 5; k++) loc[lbytes + l] = k;
  if (bad[i] == 1) return;
  local %(T)s *d = (local %(T)s *)loc; event_t e;
  if (bad[i] == 2) so++; if (bad[i] == 3) num++; if (bad[i] == 4) lo++; if (bad[i] == 5) stride++;
  e = mode & 2 ? async_work_group_strided_copy(d + lo, src + so + g, num, stride, 0) : async_work_group_copy(d + lo, src + so + g, num, 0);
  if (mode & 4) { if (mode & 8) e = async_work_group_copy(d + lo + num, src + so, num, e); else { wait_group_events(1, &e); e = async_work_group_copy(d + lo + num, src + so, num, 0); } }
  if (mode & 4 && !(mode & 8)) { wait_group_events(1, &e); if (!(mode & 16)) e = async_work_group_copy(d + lo, src + so, 0, 0); wait_group_events(1, &e); } else wait_group_events(1, &e);
  for (size_t k = l; k < lbytes; k += n) out[g * lbytes + k] = loc[k];
}
kernel void lg_%(T)s(global uchar *src, global %(T)s *out, local uchar *loc, ulong so, ulong lo, ulong num, ulong stride, ulong lbytes, ulong span, uint mode, global uint *bad) {
  size_t l = get_local_id(0), n = get_local_size(0), g = get_group_id(0), i = get_global_id(0); for (size_t k = l; k < lbytes; k += n) loc[k] = src[g * lbytes + k]; barrier(CLK_LOCAL_MEM_FENCE);
  local %(T)s *d = (local %(T)s *)loc; event_t e[2]; if (bad[i] == 1) return; if (bad[i] == 2) lo++; if (bad[i] == 3) num++; if (bad[i] == 4) so++; if (bad[i] == 5) stride++;
  e[0] = mode & 2 ? async_work_group_strided_copy(out + so + g * span, d + lo, num, stride, 0) : async_work_group_copy(out + so + g * span, d + lo, num, 0);
  e[1] = async_work_group_copy(out + so + g * span + span - 1, d, 1, 0); wait_group_events(2, e);
}""" % dict(T=T)
    return s
def b07(o, rnd, n):
    cl = CL(); P = cl.prog(asrc(), "-cl-std=CL1.2"); u8 = lambda x: struct.pack("<Q", x); u4 = lambda x: struct.pack("<I", x)
    for c in range(n):
        t, vn, es = rnd.choice(ATYPES); T = t + (str(vn) if vn > 1 else ""); es *= 4 if vn == 3 else vn; L = rnd.choice([1, 2, 3, 5]); NG = rnd.choice([1, 1, 2, 3]); num = rnd.choice([0, 1, 2, 3, 5, 9]); mode = rnd.choice([0, 1, 2, 2, 3, 4, 5, 6, 6, 12, 13, 14, 20]); stride = rnd.choice([1, 1, 2, 3, 5]) if mode & 2 else 1; so, lo = rnd.randrange(4), rnd.randrange(3); th = rnd.choice([1, 2]); setenv(OCLGRIND_NUM_THREADS=th)
        lel = lo + 2 * num + 2; lb = lel * es; sel = so + NG + max(1, num) * stride + num + 3; S = rnd.randbytes(sel * es); src = cl.buf(RW | COPYHOST, len(S), S); out = cl.buf(RW | COPYHOST, lb * NG, b"\xA5" * (lb * NG)); bad = [0] * (L * NG); div = rnd.random() < .2
        if div: bad[rnd.randrange(L * NG)] = rnd.choice([1, 2, 3, 4] + [5, 5] * (mode >> 1 & 1))
        if div and mode & 8: mode &= 7
        info = dict(type=T, locals=L, groups=NG, num=num, stride=stride, mode=mode, src_offset=so, local_offset=lo, threads=th, divergent=bad); o.at(**info); hb = cl.buf(RW | COPYHOST, 4 * L * NG, struct.pack("<%dI" % (L * NG), *bad)); cl.logs()
        if cl.run(cl.kernel(P, "gl_" + T), [src, out, (None, lb + 16), u8(so), u8(lo), u8(num), u8(stride), u8(lb), u4(mode), hb], [L * NG], [L]): o.fail(what="launch failed", **info)
        got = cl.read(out, 0, lb * NG); lg = [x for x in cl.logs() if x.strip()]; dv = any("divergence detected (async copy)" in x for x in lg)
        if L > 1 and div != dv: o.fail(what="report of copies that differ between work-items", expected=div, got=[x[:120] for x in lg][:2], **info)
        if not div:
            twice = mode & 20 == 20
            if twice != any("Invalid wait event" in x for x in lg): o.fail(what="report of waiting on an event that is over", expected=twice, **info)
            elif lg and not twice: o.fail(what="message for valid asynchronous copies", message=lg[0][:200], **info)
            for g in range(NG):
                M_ = bytearray(b"\x5A" * lb)
                for i in range(num): a = (so + g + i * stride) * es; M_[(lo + i) * es:(lo + i + 1) * es] = S[a:a + es]
                if mode & 4: M_[(lo + num) * es:(lo + 2 * num) * es] = S[so * es:(so + num) * es]
                if got[g * lb:(g + 1) * lb] != bytes(M_):
                    k = next(i for i in range(lb) if got[g * lb + i] != M_[i]); o.fail(what="local memory after the copy", group=g, byte=k, element=k // es, got=got[g * lb + k], expected=M_[k], **info); break
        o.case()
        span = max(1, num) * stride + 2; mode &= 3; S = rnd.randbytes(lb * NG); cl("clReleaseMemObject", VP(src)); cl("clReleaseMemObject", VP(out)); src = cl.buf(RW | COPYHOST, len(S), S); ob = (so + span * NG) * es; out = cl.buf(RW | COPYHOST, ob, b"\xA5" * ob); cl.logs()
        if cl.run(cl.kernel(P, "lg_" + T), [src, out, (None, lb), u8(so), u8(lo), u8(num), u8(stride), u8(lb), u8(span), u4(mode), hb], [L * NG], [L]): o.fail(what="launch failed", **info)
        got = cl.read(out, 0, ob); M_ = bytearray(b"\xA5" * ob); lg = [x for x in cl.logs() if x.strip()]
        dv = any("divergence detected (async copy)" in x for x in lg)
        if L > 1 and div != dv: o.fail(what="report of copies that differ between work-items", direction="to global", expected=div, got=[x[:120] for x in lg][:2], **info)
        for g in range(NG):
            for i in range(num): a = (so + g * span + i * stride) * es; M_[a:a + es] = S[g * lb + (lo + i) * es:g * lb + (lo + i + 1) * es]
            a = (so + g * span + span - 1) * es; M_[a:a + es] = S[g * lb:g * lb + es]
        if div: pass
        elif lg: o.fail(what="message for valid asynchronous copies", direction="to global", message=lg[0][:200], **info)
        elif got != bytes(M_): k = next(i for i in range(ob) if got[i] != M_[i]); o.fail(what="global memory after the copy", direction="to global", byte=k, element=k // es, got=got[k], expected=M_[k], span=span, **info)
        for b in (src, out, hb): cl("clReleaseMemObject", VP(b))
        o.case()
