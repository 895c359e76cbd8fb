from refs import tasks_R02
from clapi import api
native = api("R02", "natrefs", "r02", 20000, 200000)
SOURCES = ["runtime", "async_queue"]
BUDGET = 200
ASSUMPTIONS = ["OpenCL objects passed to the API are NULL or valid objects with at least one reference", "contracts of the core constructors and destructors and of the standard containers", "reference counts do not overflow 32 bits", "creating contexts and programs, the kernels of a whole program, and the references held for queued commands (async_queue.cpp) are checked natively only", "the internal image descriptors of a kernel's image arguments are not API objects"]
def tasks(mod, tier): return tasks_R02(mod)
