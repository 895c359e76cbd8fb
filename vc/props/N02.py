from barrier import tasks_N02
import clapi
SOURCES = ["KernelInvocation", "WorkGroup", "WorkItem", "WorkItemBuiltins", "common"]
BUDGET = 300
ASSUMPTIONS = ["two barrier calls are the same barrier if they have the same source location (kernels are compiled with debug locations), fence and events",
               "contracts of std::set, std::list and std::map; what messages say is not specified",
               "only WorkItem::step throws (FatalError); KernelInvocation::switchWorkItem (interactive debugger) is covered by native sessions only"]
def tasks(mod, tier): return tasks_N02(mod)
native = clapi.api("N02", "natnd", "n02", 1200, 12000, timeout=200)
