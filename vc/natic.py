"""Native oracle of P03: the report of the instruction counter against an independent plug-in that sees the same
notifications, and against counts known from the kernel's text, for work-groups that execute different code."""
import os, random, re, struct, tempfile
from clapi import *
from natnd import setenv
FN = ["sin", "cos", "tan", "exp", "log", "sqrt", "fabs", "floor", "ceil", "trunc", "rint", "exp2", "log2", "asin", "acos", "atan", "sinh", "cosh", "tanh", "cbrt", "erf", "rsqrt", "round", "sinpi", "cospi", "expm1"]
TY = dict(uchar=1, ushort=2, uint=4, float=4, ulong=8, uint4=16, ushort2=4, uchar8=8, double=8)
SPACE = {0: "private", 1: "global", 2: "constant", 3: "local", 4: "unknown"}
def native_env(d):
    import build
    return dict(OCLGRIND_INST_COUNTS="1", OCLGRIND_PLUGINS=build.harness("icplug", ["-shared", "-fPIC"]), LC_ALL="C", LANG="C")
def p03(o, rnd, n):
    out = os.path.join(os.environ["CLAPI_DIR"], "plug"); os.environ["P03_OUT"] = out
    cap = os.path.join(os.environ["CLAPI_DIR"], "cap"); cl = CL()
    def captured(f):
        os.sys.stdout.flush(); keep = os.dup(1); fd = os.open(cap, os.O_RDWR | os.O_CREAT | os.O_TRUNC); os.dup2(fd, 1)
        try: r = f()
        finally: os.dup2(keep, 1); os.close(keep); os.close(fd)
        return r, open(cap, errors="replace").read()
    for c in range(n):
        G, L = rnd.randint(1, 7), rnd.choice([1, 1, 2, 3]); pick = rnd.sample(FN, rnd.randint(1, 9)); what = []; src = ""
        seq = c % 3 == 1        # the groups take turns by a counter in memory: their first call differs too
        if seq: L = 1; G = max(G, 3)
        for g in range(G):
            f = [rnd.choice(pick) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]; ty = rnd.choice(sorted(TY)); r = rnd.choice([0, 1, 2, 5]); w = rnd.choice([0, 1, 3]); what.append((f, ty, r, w)); nm = [seq or rnd.random() < .3 for _ in f]
            src += "    case %d: { volatile global %s *p = (volatile global %s *)o + 2 * LID; %s v = 0; for (uint i = 0; i < %du; i++) v = *p; %s for (uint i = 0; i < %du; i++) p[1] = v; break; }\n" % (g, ty, ty, ty, r, " ".join("x = %s(x);" % (("h_" + q) if z else q) for q, z in zip(f, nm)), w)
        opt = rnd.choice(["", "", "-cl-opt-disable"]); loc = not seq and rnd.random() < .4
        src = src.replace("LID", "0" if seq else "get_local_id(0)")
        hs = "".join("__attribute__((noinline)) float h_%s(float x) { return %s(x) + 1; }\n" % (q, q) for q in pick)
        src = hs + "kernel void k(global ulong *o, local float *s) {\n  volatile float x = 0.5f;\n" + ("  s[get_local_id(0)] = x; barrier(CLK_LOCAL_MEM_FENCE); x += s[0];\n" if loc else "") + "  switch (%s) {\n" % ("((volatile global ulong *)o)[500]++" if seq else "get_group_id(0)") + src + "  }\n}\n"
        info = dict(groups=G, local=L, options=opt, source=src); o.at(**info)
        k = cl.kernel(cl.prog(src, opt), "k"); first = None
        gl = sum(w * L for f, t, r, w in what), sum(w * L * TY[t] for f, t, r, w in what); ll = sum(r * L for f, t, r, w in what), sum(r * L * TY[t] for f, t, r, w in what)
        if seq: gl, ll = (gl[0] + G, gl[1] + 8 * G), (ll[0] + G, ll[1] + 8 * G)
        for th in ([1, 1] if seq else rnd.sample([1, 2, 3, 5], 2)):
            b = cl.buf(RW | COPYHOST, 4096, bytes(4096))
            setenv(OCLGRIND_NUM_THREADS=th); open(out, "w").close(); info["threads"] = th; o.at(**info)
            e, txt = captured(lambda: cl.run(k, [b, (None, 4 * L)], [G * L], [L], [0]))
            if e: o.fail(what="a valid launch was rejected", err=e, **info); continue
            want = {}; ended = 0
            for l in open(out):
                q, x, y = l.split()
                if q == "end": ended += 1; continue
                x, y = int(x), int(y)
                if q[0] in "LS": nm = "%s %s (%d bytes)" % ("load" if q[0] == "L" else "store", SPACE[int(q[1:])], y)
                elif q[0] == "C": nm = "call %s()" % q[1:]
                else: nm = q[1:]
                if not nm.startswith("call llvm.dbg."): want[nm] = want.get(nm, 0) + x
            got = {}; order = []; head = re.findall(r"Instructions executed for kernel '(.*)':", txt)
            for l in txt.split("\n"):
                m = re.match(r"\s*(\d+) - (.*)$", l)
                if m:
                    if m.group(2) in got: o.fail(what="an instruction is reported twice", line=l, **info)
                    got[m.group(2)] = int(m.group(1)); order.append((-int(m.group(1)), m.group(2)))
            if head != ["k"] or ended != 1: o.fail(what="one report per kernel", got=head, **info)
            if got != want: o.fail(what="instructions reported", differences={q: [got.get(q, 0), want.get(q, 0)] for q in set(got) | set(want) if got.get(q) != want.get(q)}, **info)
            if order != sorted(order): o.fail(what="order of the report", got=order[:6], **info)
            for kind, (x, y) in (("load", ll), ("store", gl)):
                z = [(v, int(re.search(r"\((\d+) bytes", q).group(1))) for q, v in got.items() if q.startswith(kind + " global")]
                if z != ([(x, y)] if x else []): o.fail(what="global %ss known from the source [count, bytes]" % kind, got=z, expected=[x, y], **info)
            if first is not None and got != first: o.fail(what="the report depends on the number of worker threads", **info)
            first = got
        o.case()
