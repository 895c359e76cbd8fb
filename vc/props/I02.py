from insttasks import tasks_I02
from natinst import native_I02 as native
SOURCES = ["WorkItem", "common"]
def tasks(mod, tier): return tasks_I02()
