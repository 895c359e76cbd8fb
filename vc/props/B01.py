from bltin import tasks_B01
from natbltin import native_B01 as native
SOURCES = ["WorkItemBuiltins", "common"]
def tasks(mod, tier): return tasks_B01(mod)
