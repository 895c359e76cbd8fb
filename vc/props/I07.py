from cfins import tasks_I07
SOURCES = ["WorkItem", "common", "Context", "WorkGroup"]
def tasks(mod, tier): return tasks_I07()
from natcf import native_I07 as native
