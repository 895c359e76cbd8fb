from queue_ import tasks_Q02
SOURCES = ["Queue"]
def tasks(mod, tier): return tasks_Q02()
from clapi import api
native = api("Q02", "natapi", "q02", 400, 20000)
