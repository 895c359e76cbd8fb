from rt import tasks_R01
from clapi import api
SOURCES = ["runtime"]
BUDGET = 400
ASSUMPTIONS = ["OpenCL objects passed to the API are NULL or valid objects", "a queue and its memory objects belong to the same context (not checked by the runtime)", "getPixelSize is a function of the image format", "Memory::mapBuffer returns NULL or a pointer (its contract is proved in M01)", "the colour conversion of clEnqueueFillImage and the text of error messages are not specified"]
native = api("R01", "natapi", "r01", 3000, 40000)
def tasks(mod, tier): return tasks_R01(mod)
