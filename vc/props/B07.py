from barrier import tasks_B07
import clapi
SOURCES = ["WorkGroup", "WorkItem", "WorkItemBuiltins", "common"]
BUDGET = 300
ASSUMPTIONS = ["contracts of std::list, std::map and std::set", "two async copies are the same if they have the same source location and arguments", "what messages say is not specified"]
def tasks(mod, tier): return tasks_B07(mod)
native = clapi.api("B07", "natnd", "b07", 600, 6000, timeout=200)
