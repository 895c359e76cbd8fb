from memtasks import tasks_M
SOURCES = ["Memory"]
def tasks(mod, tier): return tasks_M("M01")
import nat
native = nat.mem("M01")
