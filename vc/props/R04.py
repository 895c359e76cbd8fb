from launch import tasks_R04
from clapi import api
native = api("R04", "natlaunch", "r04", 1500, 20000, timeout=200)
SOURCES = ["runtime", "Kernel", "common"]
BUDGET = 300
ASSUMPTIONS = ["OpenCL objects passed to the API are NULL or valid objects", "the device's work-group limit is between 1 and 2^21", "a parameter whose type is sampler_t is private and one that points to global or constant memory has 8 bytes", "a required work-group size has three non-zero components", "contracts of std::map and of the LLVM function type queries", "Kernel's metadata queries (address qualifier, type name) are assumed", "the text of error messages is not specified"]
def tasks(mod, tier): return tasks_R04(mod)
