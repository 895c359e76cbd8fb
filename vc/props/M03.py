from memtasks import tasks_M03
SOURCES = ["Memory"]
def tasks(mod, tier): return tasks_M03()
import nat
native = nat.mem("M03")
