from insttasks import tasks_I03
from natinst import native_I03 as native
SOURCES = ["WorkItem", "common"]
def tasks(mod, tier): return tasks_I03()
