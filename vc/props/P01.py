from memcheck import tasks_P01
SOURCES = ["MemCheck", "Context", "Memory"]
def tasks(mod, tier): return tasks_P01()
from clapi import api
native = api("P01", "natapi", "p01", 120, 3000)
