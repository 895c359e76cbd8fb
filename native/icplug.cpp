// An independent counter of what the real interpreter reports as executed (plug-in; output: $P03_OUT)
#include "core/common.h"
#include <fstream>
#include <map>
#include <mutex>
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "core/Context.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Plugin.h"
using namespace oclgrind;
struct Count : Plugin
{
  std::mutex m; std::map<std::string, std::pair<size_t, size_t>> c;
  Count(const Context* x) : Plugin(x) {}
  void kernelBegin(const KernelInvocation*) override { c.clear(); }
  void instructionExecuted(const WorkItem*, const llvm::Instruction* i, const TypedValue&) override
  {
    std::string k; size_t b = 0;
    if (auto l = llvm::dyn_cast<llvm::LoadInst>(i)) { k = "L" + std::to_string(l->getPointerAddressSpace()); b = getTypeSize(l->getType()); }
    else if (auto s = llvm::dyn_cast<llvm::StoreInst>(i)) { k = "S" + std::to_string(s->getPointerAddressSpace()); b = getTypeSize(s->getValueOperand()->getType()); }
    else if (auto s = llvm::dyn_cast<llvm::CallInst>(i)) k = s->getCalledFunction() ? "C" + s->getCalledFunction()->getName().str() : "Ocall";
    else k = std::string("O") + i->getOpcodeName();
    std::lock_guard<std::mutex> g(m); auto& e = c[k]; e.first++; e.second += b;
  }
  void kernelEnd(const KernelInvocation* k) override
  {
    std::ofstream f(getenv("P03_OUT"), std::ios::app);
    for (auto& e : c) f << e.first << " " << e.second.first << " " << e.second.second << "\n";
    f << "end " << k->getKernel()->getName() << " 0\n";
  }
};
extern "C" void initializePlugins(Context* c) { c->registerPlugin(new Count(c)); }
extern "C" void releasePlugins(Context*) {}
