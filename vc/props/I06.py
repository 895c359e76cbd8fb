from memins import tasks_I06
SOURCES = ["WorkItem", "common", "Context", "WorkGroup"]
def tasks(mod, tier): return tasks_I06()
from natmem import native_I06 as native
