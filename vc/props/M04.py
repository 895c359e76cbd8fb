from memtasks import tasks_M
SOURCES = ["Memory"]
def tasks(mod, tier): return [t for t in tasks_M("M04") if "atomic" in t.name]
import nat
native = nat.mem("M04")
