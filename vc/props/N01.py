from ndrange import tasks_N01
import clapi
SOURCES = ["KernelInvocation", "WorkGroup", "WorkItem", "common"]
BUDGET = 300
ASSUMPTIONS = ["fewer than 2^32 work-groups; no wrap-around of the enqueued sizes (checked when the kernel is enqueued, R04)",
               "contracts of std::vector, std::list, std::set and std::thread; workers take group indices from one atomic counter",
               "only WorkItem::step throws (FatalError); kernel arguments and local memory are set up as in M04/R04",
               "KernelInvocation::switchWorkItem (interactive debugger, one worker) is covered by native sessions only"]
def tasks(mod, tier): return tasks_N01(mod)
native = clapi.api("N01", "natnd", "n01", 1200, 12000, timeout=200)
