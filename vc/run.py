#!/usr/bin/env python3-vt
"""Check runner:  run.py <PROPERTY> [tier].
exit 0: property held on everything explored; exit 1 + VIOLATION line otherwise."""
import sys, os, time, json, importlib, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
sys.setrecursionlimit(20000)
import build, ir
from build import VERIF, log
import z3
from engine import *
import models

class Task:
    """one function (or one case of one function) against its contract.
    run(T): performs the proof with T.engine(...).  params: bounded re-runs used if the unbounded proof is not found."""
    def __init__(self, name, fn, run, fallback=None, uf=False, budget=None):
        self.name = name; self.fn = fn; self.run = run; self.fallback = fallback; self.uf = uf; self.budget = budget

class T:
    """task context handed to a task body"""
    def __init__(self, mod, label, tier, mode="inv", params=None):
        self.mod = mod; self.label = label; self.tier = tier; self.mode = mode; self.params = params
        self.engines = []; self.paths = 0; self.notes = []; self.contracts = set(); self.deadline = None
        self.assumptions = []
    def engine(self, **kw):
        E = Engine(self.mod, self.label, loop_mode=self.mode, **kw)
        E.deadline = self.deadline
        self.engines.append(E); return E
    def contract(self, dem): self.contracts.add(dem)
    def reached(self, outs):
        """vacuity guard: at least one returning path must exist"""
        n = sum(1 for o in outs if o.kind == "ret"); self.paths += n
        if n == 0: raise Vacuous("no returning path")
        return outs
class Vacuous(Exception): pass

MODS = {}
def do_task(arg):
    pid, idx, tier, mode, budget = arg
    mod, tasks = MODS[pid]
    task = tasks[idx]
    t0 = time.time()
    res = dict(task=task.name, fn=task.fn, mode=mode, obls=[], status=None, reason=None, contracts=[], models=[], inlined=[], inv=[], inv_loops=0, solver=0.0, queries=0, paths=0, notes=[], assumptions=[])
    import signal
    def onalarm(*a): raise Unsupported("time budget")
    signal.signal(signal.SIGALRM, onalarm)
    b = task.budget or budget
    signal.alarm(int(b))
    t = T(mod, task.name, tier, "unroll" if mode == "bounded" else "inv", task.fallback if mode == "bounded" else None)
    t.deadline = t0 + b - 2
    try:
        task.run(t)
        if t.paths == 0: raise Vacuous("no path reached the postcondition")
        if sum(len(E.obls) for E in t.engines) == 0: raise Vacuous("no obligations were generated")
        res["status"] = "done"
    except Vacuous as e: res["status"] = "vacuous"; res["reason"] = str(e)
    except Unsupported as e: res["status"] = "unsupported"; res["reason"] = str(e) + (" @" + t.engines[-1].cur if t.engines else "")
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, z3.Z3Exception, AssertionError) as e:
        res["status"] = "unsupported"; res["reason"] = "%s: %s" % (type(e).__name__, e); res["trace"] = traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    for E in t.engines:
        res["models"] += sorted(E.used_models); res["inlined"] += sorted(E.inlined); res["inv"] += E.inv_used; res["inv_loops"] += E.inv_loops
        res["contracts"] += sorted(E.used_contracts); res["solver"] += E.solver_time; res["queries"] += E.queries
        for o in E.obls:
            res["obls"].append(dict(name=o.name, ok=o.ok, time=round(o.time, 3), be=o.backend, loc=o.loc, imp=o.imprecise, model=o.model, detail=o.detail))
    res["contracts"] += sorted(t.contracts); res["paths"] = t.paths; res["notes"] = t.notes; res["assumptions"] = t.assumptions
    res["wall"] = time.time() - t0
    return res

def verdict(r, task):
    bad = [o for o in r["obls"] if o["ok"] is False]; unk = [o for o in r["obls"] if o["ok"] is None]
    if r["status"] == "vacuous": return "undecided"
    if bad: return "failed" if not (task.uf or all(o["imp"] for o in bad)) else "failed-imprecise"
    if r["status"] != "done" or unk: return "undecided"
    return "proved"

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VERIF_TASK")
    t0 = time.time()
    P = importlib.import_module(pid)
    budget = getattr(P, "BUDGET", 120) * (4 if tier == "thorough" else 1)
    paths = build.ir(P.SOURCES)
    mod = ir.Module()
    for p in paths: mod.load(p)
    t_build = time.time() - t0
    errors = []
    try: tasks = P.tasks(mod, tier)
    except (KeyError, Unsupported) as e:
        tasks = []; errors.append("task construction: %r" % (e,))
    if only: tasks = [t for t in tasks if only in t.name]
    MODS[pid] = (mod, tasks)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    results = {}; bounded = {}
    limit = t0 + (640 if tier == "quick" else 6 * 3600)     # whatever is not reached by then is undecided
    def sweep(todo, mode, into):
        pool = mp.Pool(min(nproc, len(todo)), maxtasksperchild=8)
        try:
            it = pool.imap_unordered(do_task, [(pid, i, tier, mode, budget) for i in todo], chunksize=1)
            for _ in todo:
                r = it.next(timeout=max(1, limit - time.time())); into[r["task"]] = r
                if os.environ.get("VERIF_VERBOSE"): log("" if mode == "inv" else "  bounded", r["task"], r["status"], r["reason"], "obls", len(r["obls"]), "bad", [(o["name"], o["loc"]) for o in r["obls"] if o["ok"] is not True][:4], "%.1fs" % r["wall"])
        except mp.TimeoutError: pass
        finally: pool.terminate(); pool.join()
    if tasks:
        sweep(range(len(tasks)), "inv", results)
        for t in tasks:
            if t.name not in results: results[t.name] = dict(task=t.name, fn=t.fn, mode="inv", obls=[], status="unsupported", reason="time limit of the check", contracts=[], models=[], inlined=[], inv=[], inv_loops=0, solver=0.0, queries=0, paths=0, notes=[], assumptions=[], wall=0.0)
        again = [i for i, t in enumerate(tasks) if t.fallback is not None and verdict(results[t.name], t) not in ("proved", "failed") and results[t.name]["reason"] != "time limit of the check"]
        if again and time.time() < limit: sweep(again, "bounded", bounded)
    V = {}; failed = []; undecided = []; proved = []; bnd = []
    for t in tasks:
        v = verdict(results[t.name], t); use = results[t.name]
        if v != "proved" and v != "failed" and t.name in bounded:
            bv = verdict(bounded[t.name], t)
            if bv == "proved": v = "bounded"; use = bounded[t.name]
            elif bv == "failed": v = "failed"; use = bounded[t.name]
        V[t.name] = v
        (proved if v == "proved" else bnd if v == "bounded" else failed if v == "failed" else undecided).append((t, use))
    t_proof = time.time() - t0 - t_build
    # ---- decide
    known = [k for k in load_known() if k["property"] == pid]
    viol = None; standin = None; kfs = []
    # the native run replays failed obligations on the real code; it also always runs as a (bounded, labelled) cross-check of
    # the proof's assumptions: compiler lowering, contracts assumed on LLVM/libstdc++, code between the contracts
    need_native = not os.environ.get("VERIF_NONATIVE")
    nat = None
    if need_native and hasattr(P, "native"):
        try:
            nat = P.native(dict(failed=failed, undecided=undecided, tier=tier, seed=seed, mod=mod, errors=errors))
        except Exception as e:
            nat = dict(error="%s: %s" % (type(e).__name__, e), cases=0, failures=[]); log(traceback.format_exc())
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.json" % pid)
    natfail = []
    if nat:
        for f in nat.get("failures", []):
            k = [x for x in known if x["key"] == f.get("key")]
            if k: kfs.append(k[0])
            else: natfail.append(f)
    rfail = []
    for t, r in failed:
        for o in r["obls"]:
            if o["ok"] is False:
                key = "%s/%s" % (t.name, o["name"])
                k = [x for x in known if x["key"] == key]
                if k: kfs.append(k[0])
                else: rfail.append((t, r, o))
    if rfail or natfail:
        rep = dict(property=pid, failed_obligations=[dict(task=t.name, function=t.fn, obligation=o["name"], location=o["loc"], counterexample=o["model"], detail=o["detail"], backend=o["be"], mode=r["mode"]) for t, r, o in rfail],
                   failing_inputs_on_real_code=natfail[:20], native=dict((k, v) for k, v in (nat or {}).items() if k != "failures"))
        json.dump(rep, open(rpath, "w"), indent=1, default=str)
        viol = "VIOLATION property=%s replay=%s" % (pid, rpath)
        if not natfail: viol += " no-failing-input-found"
    imprecise = [(t, r) for t, r in undecided if V[t.name] == "failed-imprecise"]
    # ---- evidence
    allr = [r for _, r in proved + bnd + failed + undecided]
    nobl = sum(len(r["obls"]) for r in allr); ndis = sum(1 for r in allr for o in r["obls"] if o["ok"] is True)
    be = {}
    for r in allr:
        for o in r["obls"]:
            if o["ok"] is True: be[o["be"]] = be.get(o["be"], 0) + 1
    trusted = sorted(set(m for r in allr for m in r["models"]))
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 1), violations=1 if viol else 0,
        coverage=dict(
            obligations=nobl, discharged=ndis,
            checker_cmd="python3-vt vc/run.py %s" % pid,
            trusted_base=["clang-20 front end and opt -sroa,early-cse,simplifycfg (IR of the real sources)", "vc/engine.py (VC generator)", "z3 %s" % z3.get_version_string()] + ["assumed contract: " + m[:160] for m in trusted],
            functions_under_contract=sorted(set(t.fn for t, _ in proved)),
            contracts_used_at_call_sites=sorted(set(c for r in allr for c in r["contracts"])),
            functions_inlined=sorted(set(f[:120] for r in allr for f in r["inlined"]))[:200],
            tasks=len(tasks), proved=len(proved), bounded=[dict(task=t.name, bound=str(t.fallback), reason=results[t.name]["reason"]) for t, r in bnd],
            undecided=[dict(task=t.name, verdict=V[t.name], reason=r["reason"] or [o["name"] for o in r["obls"] if o["ok"] is not True][:3]) for t, r in undecided],
            failed=[t.name for t, _ in failed], errors=errors,
            discharged_by_backend=be, solver_time_s=round(sum(r["solver"] for r in allr), 1), solver_queries=sum(r["queries"] for r in allr),
            paths_to_postcondition=sum(r["paths"] for r in allr),
            loop_invariants=[dict(function=f, facts=n) for r in allr for f, n in r["inv"]][:60],
            known_findings=[k["key"] for k in kfs],
            native_standin=dict((k, v) for k, v in (nat or {}).items() if k != "failures") if nat else None,
            samples=[dict(task=r["task"], obligation=o["name"], location=o["loc"], backend=o["be"], s=o["time"]) for r in allr[:40] for o in r["obls"][:1]],
            build_s=round(t_build, 1), proof_s=round(t_proof, 1)),
        assumptions=list(getattr(P, "ASSUMPTIONS", [])) + sorted(set(a for r in allr for a in r["assumptions"])))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k in {k["key"]: k for k in kfs}.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %d tasks, %d proved, %d bounded, %d undecided, %d failed; %d/%d obligations discharged; %.1fs (build %.1f, proof %.1f)%s" % (
        pid, len(tasks), len(proved), len(bnd), len(undecided), len(failed), ndis, nobl, time.time() - t0, t_build, t_proof,
        "; native cases %s failures %d" % (nat.get("cases"), len(nat.get("failures", []))) if nat else ""))
    for t, r in undecided: print("  undecided:", t.name, V[t.name], r["reason"], [(o["name"], o["loc"]) for o in r["obls"] if o["ok"] is not True][:3])
    for t, r, o in rfail[:10]: print("  failed obligation: %s / %s at %s" % (t.name, o["name"], o["loc"]))
    for f in natfail[:3]: print("  failing input:", json.dumps(f, default=str)[:300])
    if nat and nat.get("error"): print("  native error:", nat["error"][:300])
    if viol:
        print(viol); sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    main()
