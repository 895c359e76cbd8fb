from bltconv import tasks_B05
from natconv import native_B05 as native
SOURCES = ["WorkItemBuiltins", "common"]
BUDGET = 150
def tasks(mod, tier): return tasks_B05(mod)
