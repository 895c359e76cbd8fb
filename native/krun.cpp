// Kernel runner on the real simulator library: reads modules (LLVM IR text or OpenCL C), runs kernels on given
// buffers and prints the resulting buffers and every message the simulator logged.
#include "config.h"
#include "core/common.h"
#include "core/Context.h"
#include "core/Memory.h"
#include "core/Program.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Plugin.h"
#include "CL/cl.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>
using namespace oclgrind;
static std::vector<std::string> msgs;
class Cap : public Plugin
{
public:
  Cap(const Context* c) : Plugin(c) {}
  void log(MessageType t, const char* m) override
  {
    std::string s = std::to_string((int)t) + " ";
    for (const char* p = m; *p; p++) s += *p == '\n' ? '|' : *p;
    if (msgs.size() < 2000) msgs.push_back(s);
  }
  bool isThreadSafe() const override { return false; }
};
static bool rdline(std::string& s)
{
  s.clear(); int c;
  while ((c = getchar()) != EOF && c != '\n') s += (char)c;
  return c != EOF || !s.empty();
}
static std::string rdn(size_t n) { std::string s(n, 0); if (fread(&s[0], 1, n, stdin) != n) _exit(3); getchar(); return s; }
static std::vector<uint8_t> unhex(const std::string& h)
{
  std::vector<uint8_t> r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(v(h[i]) * 16 + v(h[i + 1]));
  return r;
}
static std::string hex(const uint8_t* d, size_t n)
{
  static const char* D = "0123456789abcdef"; std::string s;
  for (size_t i = 0; i < n; i++) { s += D[d[i] >> 4]; s += D[d[i] & 15]; }
  return s;
}
int main()
{
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  Context ctx; Cap cap(&ctx); ctx.registerPlugin(&cap);
  Memory* gm = ctx.getGlobalMemory();
  Program* prog = NULL; std::string line;
  while (rdline(line))
  {
    if (line.compare(0, 3, "LL ") == 0)
    {
      std::string t = rdn(atol(line.c_str() + 3)); delete prog; prog = NULL;
      llvm::LLVMContext lc; llvm::SMDiagnostic err;
      auto m = llvm::parseIR(llvm::MemoryBufferRef(t, "m"), err, lc);
      if (!m) { std::string e; llvm::raw_string_ostream o(e); err.print("krun", o); for (auto& c : e) if (c == '\n') c = '|'; printf("BAD %s\n", e.c_str()); fflush(stdout); continue; }
      llvm::SmallVector<char, 0> bc; llvm::raw_svector_ostream os(bc); llvm::WriteBitcodeToFile(*m, os);
      prog = Program::createFromBitcode(&ctx, (unsigned char*)bc.data(), bc.size());
      printf(prog ? "OK\n" : "BAD bitcode\n"); fflush(stdout);
    }
    else if (line.compare(0, 3, "CL ") == 0)
    {
      char* e; size_t n = strtol(line.c_str() + 3, &e, 10); std::string opts = *e == ' ' ? e + 1 : e;
      std::string t = rdn(n); delete prog;
      prog = new Program(&ctx, t);
      if (!prog->build(Program::BUILD, opts.c_str()))
      {
        std::string l = prog->getBuildLog(); for (auto& c : l) if (c == '\n') c = '|';
        printf("BAD %s\n", l.c_str()); delete prog; prog = NULL;
      }
      else printf("OK\n");
      fflush(stdout);
    }
    else if (line.compare(0, 4, "RUN ") == 0)
    {
      char kn[256]; unsigned dim; size_t v[9]; int na;
      if (sscanf(line.c_str() + 4, "%255s %u %zu %zu %zu %zu %zu %zu %zu %zu %zu %d", kn, &dim, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8, &na) != 12) _exit(4);
      std::vector<std::pair<size_t, size_t>> outs; std::vector<TypedValue> vals;
      for (int i = 0; i < na; i++)
      {
        rdline(line); TypedValue tv; tv.num = 1; tv.data = NULL; tv.size = 0; outs.push_back({0, 0});
        if (line[0] == 'B')
        {
          char* e; size_t n = strtol(line.c_str() + 2, &e, 10); std::vector<uint8_t> d; if (*e == ' ') d = unhex(e + 1);
          size_t a = gm->allocateBuffer(n, 0); if (d.size()) memcpy(gm->getPointer(a), d.data(), d.size());
          outs.back() = {a, n}; tv.size = sizeof(size_t); tv.data = new unsigned char[8]; memcpy(tv.data, &a, 8);
        }
        else if (line[0] == 'V') { auto d = unhex(line.substr(2)); tv.size = d.size(); tv.data = new unsigned char[d.size()]; memcpy(tv.data, d.data(), d.size()); }
        else if (line[0] == 'L') { tv.size = atol(line.c_str() + 2); }
        else if (line[0] == 'I')
        { // image: w h d arraysize type order dtype rowpitch slicepitch hex
          size_t w, h, d, as; unsigned ty, co, ct; int pos = 0;
          sscanf(line.c_str() + 2, "%zu %zu %zu %zu %u %u %u %n", &w, &h, &d, &as, &ty, &co, &ct, &pos);
          auto b = unhex(line.substr(2 + pos)); size_t a = gm->allocateBuffer(b.size(), 0); memcpy(gm->getPointer(a), b.data(), b.size());
          Image* im = new Image; im->address = a; im->format.image_channel_order = co; im->format.image_channel_data_type = ct;
          memset(&im->desc, 0, sizeof im->desc); im->desc.image_type = ty; im->desc.image_width = w; im->desc.image_height = h; im->desc.image_depth = d; im->desc.image_array_size = as;
          outs.back() = {a, b.size()}; tv.size = sizeof(size_t); tv.data = new unsigned char[8]; memcpy(tv.data, &im, 8);
        }
        vals.push_back(tv);
      }
      msgs.clear();
      Kernel* k = prog ? prog->createKernel(kn) : NULL;
      if (!k) { printf("NOKERNEL %s\nDONE\n", kn); fflush(stdout); for (auto& o : outs) if (o.first) gm->deallocateBuffer(o.first); continue; }
      for (int i = 0; i < na; i++) { k->setArgument(i, vals[i]); }
      fflush(stdout);
      KernelInvocation::run(&ctx, k, dim, Size3(v[0], v[1], v[2]), Size3(v[3], v[4], v[5]), Size3(v[6], v[7], v[8]));
      for (int i = 0; i < na; i++)
      {
        if (outs[i].second) printf("OUT %d %s\n", i, hex((uint8_t*)gm->getPointer(outs[i].first), outs[i].second).c_str());
        if (outs[i].first) gm->deallocateBuffer(outs[i].first);
      }
      for (auto& m : msgs) printf("LOG %s\n", m.c_str());
      printf("DONE\n"); fflush(stdout);
      delete k;
    }
  }
  fflush(stdout); _exit(0);
}
