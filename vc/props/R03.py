from infoq import tasks_R03
from clapi import api
native = api("R03", "natinfo", "r03", 1500, 20000)
SOURCES = ["runtime"]
BUDGET = 200
ASSUMPTIONS = ["OpenCL objects passed to the API are NULL or valid objects", "strings handled by the runtime contain no NUL characters", "contracts of std::string and std::list; Program's and Kernel's own queries return the object's values", "the text of error messages is not specified", "CL_PROGRAM_KERNEL_NAMES: that the names are the program's is checked natively only"]
def tasks(mod, tier): return tasks_R03(mod)
