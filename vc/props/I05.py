from insttasks import tasks_I05
from natinst import native_I05 as native
SOURCES = ["WorkItem", "common"]
def tasks(mod, tier): return tasks_I05()
