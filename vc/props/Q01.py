from qsched import tasks_Q01
from refs import async_tasks
SOURCES = ["Queue", "runtime", "async_queue"]
BUDGET = 200
def tasks(mod, tier): return tasks_Q01(mod) + [t for t in async_tasks() if t.name == "enqueue a command"]
ASSUMPTIONS = ["contracts of std::list and std::find", "every command waits only for events that existed when it was enqueued, so recursion over older commands is well-founded; termination is not proved (a user event may never be set)", "Queue::execute is verified against its own contract at the recursive calls", "a command is in its queue exactly while its event is queued (established by enqueue, kept by execute)",
               "releasing what was executed (clFinish, clWaitForEvents, releaseCommand) is checked natively; what a command holds is R02", "user events set by other threads during a call are seen at the loop's next turn"]
from clapi import api
native = api("Q01", "natq", "q01", 5000, 150000, timeout=200)
