from bltquery import tasks_B04
from natquery import native_B04 as native
SOURCES = ["WorkItemBuiltins", "WorkItem", "WorkGroup", "KernelInvocation", "Context", "common"]
def tasks(mod, tier): return tasks_B04(mod)
