from insttasks import tasks_I04
from natinst import native_I04 as native
SOURCES = ["WorkItem", "common"]
def tasks(mod, tier): return tasks_I04()
