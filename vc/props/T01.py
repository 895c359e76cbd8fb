from typetasks import tasks_T01
from natinst import native_T01 as native
SOURCES = ["common"]
def tasks(mod, tier): return tasks_T01()
