"""Vector load/store builtins: exact element addressing, and the half-precision conversions behind them."""
import z3
from engine import *
from lworld import *
from run import Task
from bltin import builtin_world, handler, W
from memins import wi_world, same
from mangle import *
MODES = {"": 0, "_rte": 0, "_rtz": 1, "_rtp": 2, "_rtn": 3}
RM = [z3.RNE(), z3.RTZ(), z3.RTP(), z3.RTN()]
B = z3.BitVecSort
H2F = z3.Function("float_of_half", B(16), B(32)); F2H = z3.Function("half_of_float", B(32), B(8), B(16)); D2H = z3.Function("half_of_double", B(64), B(8), B(16))
MEM = z3.Function("memory", B(8), B(64), B(8))
def world(E, st, inst):
    w = wi_world(E, inst); which = {id(w.priv): 0, id(w.glob): 1, id(w.loc): 3}
    def acc(kind):
        def f(E, st, a, I):
            E.used_contracts.add("oclgrind::Memory::" + kind)
            mem = E.resolve(st, a[0]); dat = E.resolve(st, a[1])
            if len(mem) != 1 or len(dat) != 1 or not isc(a[3]): raise Unsupported("memory access of unknown shape")
            k = which.get(id(mem[0][1].r)); n = a[3]; addr = bvv(a[2], 64); p = dat[0][1]
            if k is None: E.oblige(st, False, "access to one of the memories"); return freshb("accepted")
            if kind == "store":
                b = [bvv(st.load(E, pgep(p, i), 1), 8) for i in range(n)]
                st.log("access", ("store", k, addr, n, b)); return freshb("accepted")
            ok = st.fork(); bad = st.fork()
            for s in (ok, bad): s.log("access", ("load", k, addr, n, None))
            for i in range(n): ok.store(E, pgep(p, i), 1, MEM(z3.BitVecVal(k, 8), addr + i))
            bad.ghost["rejected"] = True
            return [(ok, True), (bad, False)]
        return f
    E.models["oclgrind::Memory::load"] = acc("load"); E.models["oclgrind::Memory::store"] = acc("store")
    def alloc(E, st, a, I):
        E.used_contracts.add("oclgrind::MemoryPool::alloc")
        r = Region("pool", local=True, mode="byte"); r.size = a[1]; return Ptr(r)
    E.models["oclgrind::MemoryPool::alloc"] = alloc
    def conv(name, f, w):
        def g(E, st, a, I): E.used_contracts.add(name); return f(bvv(a[0], w), bvv(a[1], 32) if False else z3.Extract(7, 0, bvv(a[1], 32))) if len(a) > 1 else f(bvv(a[0], w))
        E.models[name] = g
    conv("cl_half_to_float", H2F, 16); conv("cl_half_from_float", F2H, 32); conv("cl_half_from_double", D2H, 64)
    return w
ASP = {0: 0, 1: 1, 2: 1, 3: 3}
def vl(ec, n): t = F(FT[ec]) if ec in FT else I(IT[ec]); return t if n == 1 else LT("vec", elt=t, n=n)
def ovl(*parts): return "".join(parts)
def load_task(name, ec, n, half, aligned):
    def run(t):
        for asp, mem in ASP.items():
            E = t.engine(); E.loop_mode = "unroll"; st = State()
            off = LVal(E, "offset", I(64)); p = LVal(E, "p", P(asp)); inst = LInst(E, st, "Call", vl(ec, n), [off, p])
            world(E, st, inst)
            o, b = bvv(off.lane(0), 64), bvv(p.lane(0), 64); E.inputs["offset"] = o; E.inputs["p"] = b
            es = 2 if half else TW[ec] // 8
            want = b + o * (es * (4 if aligned and n == 3 else n)); k = z3.BitVecVal(mem, 8)
            ok = 0
            for oc in t.reached(builtin_world(E, inst, name, "mPU3AS%dK%s" % (asp, "Dh" if half else ec))(st)):
                s = oc.st
                if oc.kind != "ret": E.oblige(s, False, "no exception"); continue
                g = s.ghost.get("access", ())
                E.oblige(s, len(g) == 1 and g[0][0] == "load" and g[0][1] == mem and g[0][3] == es * n, "exactly one load of the %d elements from the memory of address space %d" % (n, asp))
                if len(g) != 1: continue
                E.oblige(s, eq(g[0][2], want), "at p + offset * %d elements" % (4 if aligned and n == 3 else n))
                if s.ghost.get("rejected"): continue
                ok += 1
                for i in range(n):
                    bts = [MEM(k, want + (i * es + j)) for j in range(es)]
                    v = concat_bytes(bts)
                    if half: v = H2F(v)
                    rs = TW[ec] // 8
                    E.oblige(s, eq(bvv(s.load(E, Ptr(inst.resd, i * rs), rs), 8 * rs), v), "element %d" % i)
            if not ok: raise Unsupported("no accepted access")
    return run
def store_task(name, ec, n, half, aligned, mode):
    def run(t):
        for asp, mem in ASP.items():
            if asp == 2: continue
            E = t.engine(); E.loop_mode = "unroll"; st = State()
            v = LVal(E, "value", vl(ec, n)); off = LVal(E, "offset", I(64)); p = LVal(E, "p", P(asp)); inst = LInst(E, st, "Call", LT("void"), [v, off, p])
            world(E, st, inst)
            o, b = bvv(off.lane(0), 64), bvv(p.lane(0), 64); E.inputs["offset"] = o; E.inputs["p"] = b
            es = 2 if half else TW[ec] // 8
            want = b + o * (es * (4 if aligned and n == 3 else n))
            for oc in t.reached(builtin_world(E, inst, name, (("Dv%d_%s" % (n, ec)) if n > 1 else ec) + "mPU3AS%d%s" % (asp, "Dh" if half else ec))(st)):
                s = oc.st
                if oc.kind != "ret": E.oblige(s, False, "no exception"); continue
                g = s.ghost.get("access", ())
                E.oblige(s, len(g) == 1 and g[0][0] == "store" and g[0][1] == mem and g[0][3] == es * n, "exactly one store of the %d elements to the memory of address space %d" % (n, asp))
                if len(g) != 1: continue
                E.oblige(s, eq(g[0][2], want), "at p + offset * %d elements" % (4 if aligned and n == 3 else n))
                for i in range(n):
                    x = bvv(v.lane(i), TW[ec])
                    if half: x = (F2H if ec == "f" else D2H)(x, z3.BitVecVal(mode, 8))
                    E.oblige(s, eq(concat_bytes(g[0][4][i * es:(i + 1) * es]), x), "element %d%s" % (i, " rounded as requested" if half else ""))
    return run
def half_task(fn, w, mode):
    def run(t):
        E = t.engine(); E.loop_mode = "unroll"; st = State(); x = z3.BitVec("x", w); E.inputs["x"] = x   # the normalisation loop ends by itself within 10 steps
        f = E.mod.fn(fn)
        if mode is None:
            X = z3.fpBVToFP(x, z3.FPSort(5, 11)); R = z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), X, z3.Float32())); wr = 32
            outs = E.call(f.name, st, [x])
        else:
            X = z3.fpBVToFP(x, z3.Float32() if w == 32 else z3.Float64()); R = z3.fpToIEEEBV(z3.fpFPToFP(RM[mode], X, z3.FPSort(5, 11))); wr = 16
            outs = E.call(f.name, st, [x, mode])
        nan = z3.fpIsNaN(X)
        for oc in t.reached(outs):
            if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
            r = bvv(oc.val, wr)
            s = oc.st.fork(); s.assume(z3.Not(nan))
            if E.sat(s.pc): E.oblige(s, r == R, "the correctly rounded value of a number")
            s = oc.st.fork(); s.assume(nan)
            if E.sat(s.pc): E.oblige(s, z3.fpIsNaN(z3.fpBVToFP(r, z3.Float32() if wr == 32 else z3.FPSort(5, 11))), "NaN stays NaN")
    return run
def tasks_B03(mod):
    out = []
    def fnof(name):
        try: return mod.fns[handler(mod, name)[0].name].dem.split("(")[0]
        except (Unsupported, AttributeError, KeyError): return W + "initBuiltins"
    for ec in TW:
        for n in (2, 3, 4, 8, 16):
            out.append(Task("vload%d %s" % (n, ec), fnof("vload%d" % n), load_task("vload%d" % n, ec, n, False, False)))
            out.append(Task("vstore%d %s" % (n, ec), fnof("vstore%d" % n), store_task("vstore%d" % n, ec, n, False, False, 0)))
    for n in (1, 2, 3, 4, 8, 16):
        for a in ("", "a"):
            nm = "vload%s_half%s" % (a, "" if n == 1 else n)
            if n > 1 or not a: out.append(Task(nm, fnof(nm), load_task(nm, "f", n, True, a == "a")))
            for ec in "fd":
                for m in MODES:
                    nm = "vstore%s_half%s%s" % (a, "" if n == 1 else n, m)
                    if n > 1 or not a: out.append(Task(nm + " " + ec, fnof(nm), store_task(nm, ec, n, True, a == "a", MODES[m])))
    if [f for f in mod.fns.values() if f.dem.startswith("cl_half_from_float(") and not f.decl or f.dem == "cl_half_from_float" and not f.decl]: pass
    out.append(Task("cl_half_to_float", "cl_half_to_float", half_task("cl_half_to_float", 16, None)))
    for fn, w in (("cl_half_from_float", 32), ("cl_half_from_double", 64)):
        for m, mn in enumerate(("rte", "rtz", "rtp", "rtn")): out.append(Task("%s %s" % (fn, mn), fn, half_task(fn, w, m), budget=300))
    return out
