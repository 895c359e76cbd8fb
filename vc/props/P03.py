from icount import tasks_P03
import clapi, natic
SOURCES = ["InstructionCounter"]
BUDGET = 250
ASSUMPTIONS = ["contracts of std::vector, std::find and std::mutex", "the interpreter notifies every executed instruction once (WorkItem::execute, I05/N01; cross-checked natively)", "fewer than 2^28 distinct functions are called; address spaces 0 to 4; counts do not overflow 64 bits",
               "sorting and printing the totals (kernelEnd, getOpcodeName) is checked natively only"]
def tasks(mod, tier): return tasks_P03(mod)
def native(info): return clapi.api("P03", "natic", "p03", 60, 1500, timeout=200, env=natic.native_env(None))(info)
