from insttasks import tasks_I01
from natinst import native_I01 as native
SOURCES = ["WorkItem", "common"]
def tasks(mod, tier): return tasks_I01()
