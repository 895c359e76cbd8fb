from bltin import tasks_B02
from natbltin import native_B02 as native
SOURCES = ["WorkItemBuiltins", "common"]
def tasks(mod, tier): return tasks_B02(mod)
