"""Work-item query builtins against the values OpenCL defines, for every dimension argument and NDRange."""
import z3
from engine import *
from lworld import *
from run import Task
from bltin import builtin_world, handler, W
from memins import wi_world
def nd_world(E, inst):
    """symbolic NDRange: the work-item's, work-group's and kernel invocation's position fields"""
    m = E.mod; w = wi_world(E, inst)
    w.ki = Region("kernel invocation"); inst.this.base[("c", m.field("WorkItem", "m_kernelInvocation"), 8)] = Ptr(w.ki)
    def vec(r, cls, f, name):
        o = m.field(cls, f); v = []
        for i, c in enumerate("xyz"):
            x = z3.BitVec("%s.%s" % (name, c), 64); E.inputs[str(x)] = x; r.base[("c", o + 8 * i, 8)] = x; v.append(x)
        return v
    w.gid = vec(inst.this, "WorkItem", "m_globalID", "global_id"); w.lid = vec(inst.this, "WorkItem", "m_localID", "local_id")
    w.grp = vec(w.wg, "WorkGroup", "m_groupID", "group_id"); w.gsz = vec(w.wg, "WorkGroup", "m_groupSize", "group_size")
    w.off = vec(w.ki, "KernelInvocation", "m_globalOffset", "global_offset"); w.gs = vec(w.ki, "KernelInvocation", "m_globalSize", "global_size")
    w.ls = vec(w.ki, "KernelInvocation", "m_localSize", "enqueued_local_size"); w.ng = vec(w.ki, "KernelInvocation", "m_numGroups", "num_groups")
    wd = z3.BitVec("work_dim", 64); E.inputs["work_dim"] = wd; w.ki.base[("c", m.field("KernelInvocation", "m_workDim"), 8)] = wd; w.dim = z3.Extract(31, 0, wd)
    w.ctxp = w.ctx
    return w
QUERY = {"get_global_id": ("gid", 0), "get_local_id": ("lid", 0), "get_group_id": ("grp", 0), "get_global_size": ("gs", 1), "get_local_size": ("gsz", 1), "get_enqueued_local_size": ("ls", 1), "get_num_groups": ("ng", 1), "get_global_offset": ("off", 0)}
def tasks_B04(mod):
    out = []
    def fnof(name):
        try: return mod.fns[handler(mod, name)[0].name].dem.split("(")[0]
        except (Unsupported, AttributeError, KeyError): return W + "initBuiltins"
    def run(name, ops, rb, spec, ov):
        def f(t):
            E = t.engine(); st = State(); v = [LVal(E, "dim", I(32))] if ops else []
            inst = LInst(E, st, "Call", I(rb), v); w = nd_world(E, inst)
            d = bvv(v[0].lane(0), 32) if v else None
            if v: E.inputs["dim"] = d
            for oc in t.reached(builtin_world(E, inst, name, ov)(st)):
                if oc.kind != "ret": E.oblige(oc.st, False, "no exception"); continue
                E.oblige(oc.st, eq(bvv(oc.st.load(E, Ptr(inst.resd), rb // 8), rb), spec(w, d)), "value of %s" % name)
                for r in oc.st.mem:
                    if r is not inst.resd and not r.local and oc.st.mem[r] is not None: E.oblige(oc.st, False, "frame: %s unchanged" % r.name)
        out.append(Task(name, fnof(name), f))
    for name, (fld, dflt) in QUERY.items():
        def spec(w, d, fld=fld, dflt=dflt):
            v = getattr(w, fld)
            return z3.If(d == 0, v[0], z3.If(d == 1, v[1], z3.If(d == 2, v[2], z3.BitVecVal(dflt, 64))))
        run(name, True, 64, spec, "j")
    run("get_work_dim", False, 32, lambda w, d: w.dim, "v")
    run("get_global_linear_id", False, 64, lambda w, d: (w.gid[2] - w.off[2]) * w.gs[1] * w.gs[0] + (w.gid[1] - w.off[1]) * w.gs[0] + (w.gid[0] - w.off[0]), "v")
    run("get_local_linear_id", False, 64, lambda w, d: w.lid[2] * w.gsz[1] * w.gsz[0] + w.lid[1] * w.gsz[0] + w.lid[0], "v")
    return out
