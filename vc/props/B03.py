from bltmem import tasks_B03
from natbltmem import native_B03 as native
SOURCES = ["WorkItemBuiltins", "WorkItem", "WorkGroup", "Context", "common"]
def tasks(mod, tier): return tasks_B03(mod)
