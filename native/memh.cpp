// Native witness search on the real oclgrind::Memory: boundary-directed and random histories against an
// independent reference model.  Prints one JSON line per failing input, then {"cases":N}.
#include "config.h"
#include "core/common.h"
#include "core/Context.h"
#include "core/Memory.h"
#include <map>
#include <random>
#include <thread>
#include <cstdio>
#include <cstring>
#include <csignal>
#include <unistd.h>
using namespace oclgrind;
static char lastop[512]; static const char* lastprop = "M01";
static long cases = 0; static int nfail = 0;
static void fail(const char* prop, const std::string& in, const std::string& exp, const std::string& act)
{
  if (nfail++ > 30) return;
  printf("{\"prop\":\"%s\",\"key\":\"native:%s\",\"input\":\"%s\",\"expected\":\"%s\",\"actual\":\"%s\"}\n", prop, in.c_str(), in.c_str(), exp.c_str(), act.c_str());
  fflush(stdout);
}
static void onsig(int s)
{
  char b[900]; int n = snprintf(b, sizeof b, "{\"prop\":\"%s\",\"key\":\"native:crash\",\"input\":\"%s\",\"expected\":\"no crash\",\"actual\":\"signal %d\"}\n{\"cases\":%ld}\n", lastprop, lastop, s, cases);
  if (write(1, b, n)) {} _exit(0);
}
struct Ref { size_t size; std::vector<uint8_t> bytes; bool host; uint8_t* hostp; };
static std::string hx(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
typedef std::map<size_t, Ref> Model;
static const unsigned BITS = 16;
static std::map<size_t, Ref>::iterator find(Model& m, size_t a) { return m.find(a >> 48 << 48); }
static bool accept(Model& m, size_t a, size_t n)
{
  auto i = find(m, a); if (i == m.end()) return false;
  size_t o = a - i->first; return o <= i->second.size && n <= i->second.size - o;
}
static bool checkAll(Memory& M, Model& m, const char* prop, const std::string& what)
{
  bool ok = true;
  for (auto& e : m)
  {
    if (!e.second.size) continue;
    std::vector<uint8_t> b(e.second.size, 0xAA);
    if (!M.load(b.data(), e.first, e.second.size)) { fail(prop, what, "allocation " + hx(e.first) + " readable", "load rejected"); ok = false; continue; }
    for (size_t k = 0; k < b.size(); k++) if (b[k] != e.second.bytes[k]) { fail(prop, what, "byte " + std::to_string(k) + " of " + hx(e.first) + " = " + std::to_string(e.second.bytes[k]), std::to_string(b[k])); ok = false; break; }
  }
  return ok;
}
static void resync(Memory& M, Model& m) { for (auto& e : m) if (e.second.size) M.load(e.second.bytes.data(), e.first, e.second.size); }
template <typename T> static T aspec(int op, T o, T v)
{
  switch (op) { case AtomicAdd: return (T)((uint64_t)o + (uint64_t)v); case AtomicAnd: return o & v; case AtomicDec: return (T)((uint64_t)o - 1); case AtomicInc: return (T)((uint64_t)o + 1);
    case AtomicMax: return o < v ? v : o; case AtomicMin: return v < o ? v : o; case AtomicOr: return o | v; case AtomicSub: return (T)((uint64_t)o - (uint64_t)v); case AtomicXchg: return v; case AtomicXor: return o ^ v; default: return o; }
}
template <typename T> static void doatomic(Memory& M, Model& m, size_t a, int op, T v, const char* tn)
{
  char d[200]; snprintf(d, sizeof d, "atomic<%s> op %d at %s operand %s", tn, op, hx(a).c_str(), hx((uint64_t)v).c_str());
  strncpy(lastop, d, 500); lastprop = "M04"; cases++;
  bool ok = accept(m, a, sizeof(T)); T old = 0;
  if (ok) memcpy(&old, find(m, a)->second.bytes.data() + (a - find(m, a)->first), sizeof(T));
  T r = M.atomic<T>((AtomicOp)op, a, v);
  const char* prop = ok ? "M04" : "M01";
  if (ok)
  {
    T nw = aspec<T>(op, old, v);
    memcpy(find(m, a)->second.bytes.data() + (a - find(m, a)->first), &nw, sizeof(T));
    if (r != old) fail(prop, d, "returns old value " + hx((uint64_t)old), hx((uint64_t)r));
  }
  if (!checkAll(M, m, prop, std::string(d) + (ok ? " (old value " + hx((uint64_t)old) + ")" : " (invalid address)"))) resync(M, m);
}
template <typename T> static void docas(Memory& M, Model& m, size_t a, T c, T v, const char* tn)
{
  char d[200]; snprintf(d, sizeof d, "cmpxchg<%s> at %s cmp %s new %s", tn, hx(a).c_str(), hx(c).c_str(), hx(v).c_str());
  strncpy(lastop, d, 500); lastprop = "M04"; cases++;
  bool ok = accept(m, a, sizeof(T)); T old = 0;
  if (ok) memcpy(&old, find(m, a)->second.bytes.data() + (a - find(m, a)->first), sizeof(T));
  T r = M.atomicCmpxchg<T>(a, c, v);
  if (ok)
  {
    T nw = old == c ? v : old; memcpy(find(m, a)->second.bytes.data() + (a - find(m, a)->first), &nw, sizeof(T));
    if (r != old) fail("M04", d, "returns old value " + hx(old), hx(r));
  }
  if (!checkAll(M, m, ok ? "M04" : "M01", d)) resync(M, m);
}
int main(int argc, char** argv)
{
  unsigned seed = argc > 1 ? atoi(argv[1]) : 1; int rounds = argc > 2 ? atoi(argv[2]) : 30;
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig);
  Context ctx; std::mt19937_64 rng(seed);
  for (int sp = 0; sp < 2; sp++)
  {
    Memory M(sp ? AddrSpaceGlobal : AddrSpaceLocal, BITS, &ctx); Model m; std::vector<size_t> dead; std::vector<uint8_t*> hosts;
    size_t tot = 0;
    auto alloc = [&](size_t sz, int kind) {
      char d[100]; snprintf(d, sizeof d, "allocate %zu bytes kind %d", sz, kind); strcpy(lastop, d); lastprop = "M03"; cases++;
      std::vector<uint8_t> init(sz ? sz : 1); for (auto& x : init) x = rng();
      size_t a; Ref r; r.size = sz; r.host = false; r.hostp = 0;
      if (kind == 0) { a = M.allocateBuffer(sz); r.bytes.assign(sz, 0); }
      else if (kind == 1) { a = M.allocateBuffer(sz, 0, init.data()); r.bytes.assign(init.begin(), init.begin() + sz); }
      else { uint8_t* h = (uint8_t*)malloc(sz + 16); memcpy(h, init.data(), sz); hosts.push_back(h); a = M.createHostBuffer(sz, h, CL_MEM_USE_HOST_PTR); r.bytes.assign(init.begin(), init.begin() + sz); r.host = true; r.hostp = h; }
      if (a == 0) { fail("M03", d, "success", "null address"); return; }
      if (a & 0xffffffffffffULL) fail("M03", d, "slot base address", hx(a));
      if (m.count(a)) { fail("M03", d, "address distinct from live allocations", hx(a)); return; }
      m[a] = r; tot += sz;
      if (M.getTotalAllocated() != tot) { fail("M03", d, "total " + std::to_string(tot), std::to_string(M.getTotalAllocated())); tot = M.getTotalAllocated(); }
      if (!checkAll(M, m, "M03", d)) resync(M, m);
      const Memory::Buffer* b = M.getBuffer(a);
      if (!b || b->size != sz) fail("M03", d, "recorded size", "wrong");
    };
    auto dealloc = [&](size_t a) {
      char d[100]; snprintf(d, sizeof d, "deallocate %s", hx(a).c_str()); strcpy(lastop, d); lastprop = "M03"; cases++;
      tot -= m[a].size; Ref r = m[a]; m.erase(a); dead.push_back(a); M.deallocateBuffer(a);
      if (M.getTotalAllocated() != tot) { fail("M03", d, "total " + std::to_string(tot), std::to_string(M.getTotalAllocated())); tot = M.getTotalAllocated(); }
      if (M.isAddressValid(a, r.size ? 1 : 0) && r.size) fail("M03", d, "freed address invalid", "valid");
      if (r.host && memcmp(r.hostp, r.bytes.data(), r.size)) fail("M03", d, "host memory kept", "changed");
      if (!checkAll(M, m, "M03", d)) resync(M, m);
    };
    // limits
    lastprop = "M03"; strcpy(lastop, "allocate 2^48+1 bytes");
    for (size_t big : {((size_t)1 << 48) + 1, ~(size_t)0, ((size_t)1 << 62)}) { cases++; if (M.createHostBuffer(big, lastop, CL_MEM_USE_HOST_PTR)) fail("M03", "createHostBuffer of " + hx(big), "failure", "success"); if (M.allocateBuffer(big)) fail("M03", "allocateBuffer of " + hx(big), "failure", "success"); }
    { cases++; size_t a = M.createHostBuffer((size_t)1 << 48, lastop, CL_MEM_USE_HOST_PTR); if (!a) fail("M03", "createHostBuffer of 2^48 bytes", "success", "failure"); else M.deallocateBuffer(a); }
    for (size_t sz : {16, 1, 4, 64, 100, 3, 0, 8}) alloc(sz, sz % 3);
    for (int round = 0; round < rounds; round++)
    {
      std::vector<size_t> bases; for (auto& e : m) bases.push_back(e.first);
      // boundary-directed accesses
      std::vector<size_t> cand = bases; for (size_t d : dead) cand.push_back(d); cand.push_back(0); cand.push_back((size_t)0xffff << 48); cand.push_back((bases.empty() ? 1 : (bases.back() >> 48) + 1) << 48);
      for (int k = 0; k < 40; k++)
      {
        size_t b = cand[rng() % cand.size()]; size_t sz = m.count(b) ? m[b].size : 16;
        size_t offs[] = {0, 1, 4, 8, sz / 2, sz - 1, sz, sz + 1, 0xffffffffffffULL, 0xfffffffffffcULL, sz - 4, sz - 8};
        size_t a = b + (offs[rng() % 12] & 0xffffffffffffULL); size_t o = a & 0xffffffffffffULL;
        size_t ns[] = {1, 2, 4, 8, 16, sz - o, sz - o + 1, sz, sz + 1, (size_t)0 - o, (size_t)0 - o + 1, ~(size_t)0, (size_t)1 << 63, ~(size_t)0 - o + sz};
        size_t n = ns[rng() % 14]; if (n == 0) n = 1;
        bool ok = accept(m, a, n); char d[200]; snprintf(d, sizeof d, "address %s (allocation %s of %zu bytes) size %s", hx(a).c_str(), m.count(b) ? "live" : "not live", m.count(b) ? sz : 0, hx(n).c_str());
        cases++; lastprop = "M01"; snprintf(lastop, 500, "access at %s", d);
        bool v = M.isAddressValid(a, n); if (v != ok) { fail("M01", std::string("isAddressValid ") + d, ok ? "accepted" : "rejected", v ? "accepted" : "rejected"); continue; }
        bool big = n > (1 << 20);
        std::vector<uint8_t> buf(big ? 16 : n + 16, 0xCC); for (size_t i = 0; i < buf.size(); i++) buf[i] = rng();
        std::vector<uint8_t> save = buf;
        if (big && ok) continue;
        int w = rng() % 6;
        if (w == 0) { snprintf(lastop, 500, "load %s", d); bool r = M.load(buf.data(), a, n); if (r != ok) fail("M01", lastop, ok ? "accepted" : "rejected", r ? "accepted" : "rejected");
          if (ok && r) { if (memcmp(buf.data(), find(m, a)->second.bytes.data() + o, n)) fail("M02", lastop, "the addressed bytes", "other bytes"); if (memcmp(buf.data() + n, save.data() + n, 16)) fail("M02", lastop, "nothing written beyond", "destination overrun"); } }
        else if (w == 1) { snprintf(lastop, 500, "store %s", d); bool r = M.store(buf.data(), a, n); if (r != ok) fail("M01", lastop, ok ? "accepted" : "rejected", r ? "accepted" : "rejected");
          if (ok) memcpy(find(m, a)->second.bytes.data() + o, save.data(), n); }
        else if (w == 2) { size_t b2 = cand[rng() % cand.size()]; size_t sz2 = m.count(b2) ? m[b2].size : 16; size_t o2 = (rng() % 3 == 0) ? 0 : rng() % 3 == 0 ? o : sz2 - n; size_t a2 = b2 + (o2 & 0xffffffffffffULL); o2 &= 0xffffffffffffULL;
          bool ok2 = accept(m, a2, n); if (b2 == b && a < a2 + n && a2 < a + n) continue; if (big) { if (ok || ok2) continue; }
          snprintf(lastop, 500, "copy from %s to %s", d, hx(a2).c_str()); bool r = M.copy(a2, a, n); if (r != (ok && ok2)) fail("M01", lastop, ok && ok2 ? "accepted" : "rejected", r ? "accepted" : "rejected");
          if (ok && ok2) memcpy(find(m, a2)->second.bytes.data() + o2, find(m, a)->second.bytes.data() + o, n); }
        else if (w == 3) { snprintf(lastop, 500, "getPointer %s", d); uint8_t* p = (uint8_t*)M.getPointer(a); bool k1 = accept(m, a, 1); if (!!p != k1) fail("M01", lastop, k1 ? "non-null" : "null", p ? "non-null" : "null"); else if (p && *p != find(m, a)->second.bytes[o]) fail("M02", lastop, "addressed byte", "other byte");
          else if (p && find(m, a)->second.hostp && p != find(m, a)->second.hostp + o) fail("M02", lastop, "addressed byte", "other address"); else if (p) { *p ^= 0x5a; find(m, a)->second.bytes[o] ^= 0x5a; } }
        else if (w == 4) { size_t off = offs[rng() % 12] & 0xffffffffffffULL; size_t a0 = b; bool k1 = accept(m, a0 + off, n); if (big) continue; snprintf(lastop, 500, "mapBuffer %s offset %zu size %zu", hx(a0).c_str(), off, n); uint8_t* p = (uint8_t*)M.mapBuffer(a0, off, n);
          if (!!p != k1) fail("M01", lastop, k1 ? "non-null" : "null", p ? "non-null" : "null"); else if (p) { for (size_t i = 0; i < n; i++) if (p[i] != find(m, a0 + off)->second.bytes[off + i]) { fail("M02", lastop, "addressed bytes", "other bytes"); break; } p[n - 1] ^= 0x33; find(m, a0 + off)->second.bytes[off + n - 1] ^= 0x33; } }
        else { snprintf(lastop, 500, "getBuffer %s", d); auto q = M.getBuffer(a); bool k1 = find(m, a) != m.end(); if (!!q != k1) fail("M01", lastop, k1 ? "non-null" : "null", q ? "non-null" : "null"); }
        if (!checkAll(M, m, ok ? "M02" : "M01", lastop)) resync(M, m);
      }
      // atomics
      static const int ops[] = {AtomicAdd, AtomicAnd, AtomicDec, AtomicInc, AtomicMax, AtomicMin, AtomicOr, AtomicSub, AtomicXchg, AtomicXor};
      // straddling compare-exchange whose comparison succeeds on the bytes that are there
      for (size_t b : bases) if (m[b].size && m[b].size < 4096) for (int wd = 4; wd <= 8; wd += 4) for (int in = 1; in < wd; in++)
      {
        if (m[b].size < (size_t)in) continue;
        size_t o = m[b].size - in, a = b + o; uint8_t* p = (uint8_t*)M.getPointer(a); if (!p) continue;
        uint64_t c = 0; if (m[b].host) memcpy(&c, m[b].hostp + o, in); else for (int i = 0; i < wd; i++) ((volatile uint8_t*)&c)[i] = ((volatile uint8_t*)p)[i];
        if (wd == 4) docas<uint32_t>(M, m, a, (uint32_t)c, (uint32_t)(c ^ ((1ULL << 8 * in) - 1)), "uint"); else docas<uint64_t>(M, m, a, c, c ^ ((1ULL << 8 * in) - 1), "ulong");
      }
      static const uint64_t vals[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL};
      for (int k = 0; k < 40; k++)
      {
        size_t b = cand[rng() % cand.size()]; size_t sz = m.count(b) ? m[b].size : 16; size_t o = (rng() % 4) ? (rng() % (sz + 4)) & ~7ULL : (rng() & 0xffffffffffffULL); size_t a = b + o;
        if (accept(m, a, 8) && rng() % 2) { uint64_t x = vals[rng() % 10]; memcpy(find(m, a)->second.bytes.data() + o, &x, 8); M.store((uint8_t*)&x, a, 8); }
        uint64_t v = rng() % 3 ? vals[rng() % 10] : rng(); int op = ops[rng() % 10];
        switch (rng() % 6) { case 0: doatomic<uint32_t>(M, m, a, op, v, "uint"); break; case 1: doatomic<int32_t>(M, m, a, op, v, "int"); break; case 2: doatomic<uint64_t>(M, m, a, op, v, "ulong"); break; case 3: doatomic<int64_t>(M, m, a, op, v, "long"); break;
          case 4: { uint32_t c = v; if (accept(m, a, 4) && rng() % 2) memcpy(&c, find(m, a)->second.bytes.data() + o, 4); docas<uint32_t>(M, m, a, c, rng(), "uint"); break; }
          case 5: { uint64_t c = v; if (accept(m, a, 8) && rng() % 2) memcpy(&c, find(m, a)->second.bytes.data() + o, 8); docas<uint64_t>(M, m, a, c, rng(), "ulong"); break; } }
      }
      // histories
      for (int k = 0; k < 4; k++) { if (rng() % 2 && m.size() > 3) { auto i = m.begin(); std::advance(i, rng() % m.size()); dealloc(i->first); } else alloc((size_t[]){0, 1, 2, 7, 8, 16, 33, 64, 200}[rng() % 9], rng() % 3); }
    }
    for (int k = 0; k < 3 && m.size() > 1; k++) { auto i = m.begin(); std::advance(i, rng() % m.size()); dealloc(i->first); }
    lastprop = "M03"; strcpy(lastop, "clear"); cases++; M.clear(); if (M.getTotalAllocated()) fail("M03", "clear", "total 0", std::to_string(M.getTotalAllocated()));
    for (auto& e : m) { if (M.getBuffer(e.first)) fail("M03", "clear", "no live allocation", hx(e.first)); if (e.second.host && memcmp(e.second.hostp, e.second.bytes.data(), e.second.size)) fail("M03", "clear", "host memory kept", "changed"); }
    size_t a1 = M.allocateBuffer(4), a2 = M.allocateBuffer(4); if (!a1 || !a2 || a1 == a2) fail("M03", "allocate after clear", "two distinct addresses", hx(a1) + " " + hx(a2));
    for (size_t x : {a1, a2}) if (x && (!M.isAddressValid(x, 4) || M.isAddressValid(x, 5))) fail("M03", "allocate, deallocate, clear, then allocate twice", hx(x) + " designates 4 accessible bytes", "not accessible, or too large");
  }
  { // slot exhaustion
    lastprop = "M03"; strcpy(lastop, "exhaust slots"); Memory M(AddrSpaceLocal, 4, &ctx); std::vector<size_t> as;
    for (int i = 0; i < 14; i++) { cases++; size_t a = M.allocateBuffer(1); if (!a) fail("M03", "allocation " + std::to_string(i + 1) + " of 14 with 4 slot bits", "success", "failure"); as.push_back(a); }
    size_t t = M.getTotalAllocated(); if (M.allocateBuffer(1)) fail("M03", "15th allocation with 4 slot bits", "failure", "success"); if (M.getTotalAllocated() != t) fail("M03", "failed allocation", "total unchanged", "changed");
    M.deallocateBuffer(as[3]); size_t a = M.allocateBuffer(1); if (a != as[3] && a == 0) fail("M03", "reallocation of a freed slot", "success", "failure");
  }
  { // concurrency: every global atomic on one location is one step
    lastprop = "M04"; strcpy(lastop, "8 threads of atomics on one location"); Memory M(AddrSpaceGlobal, BITS, &ctx);
    for (int width = 0; width < 2; width++) for (int mix = 0; mix < 4; mix++)
    {
      size_t a = M.allocateBuffer(64); const int N = 20000; std::vector<std::thread> th; cases++;
      for (int t = 0; t < 8; t++) th.emplace_back([&, t] { for (int i = 0; i < N; i++) { int k = mix == 0 ? 0 : mix == 1 ? t % 3 : mix == 2 ? (t % 2 ? 2 : 3) : t % 2 ? 0 : 4;
        if (width == 0) { if (k == 0) M.atomic<uint32_t>(AtomicAdd, a + 4, 1); else if (k == 1) M.atomic<uint32_t>(AtomicInc, a + 4); else if (k == 2) M.atomic<int32_t>(AtomicSub, a + 4, -1); else if (k == 4) M.atomic<int32_t>(AtomicAdd, a + 4, 1); else { for (;;) { uint32_t o = M.atomic<uint32_t>(AtomicOr, a + 4, 0); if (M.atomicCmpxchg<uint32_t>(a + 4, o, o + 1) == o) break; } } }
        else { if (k == 0) M.atomic<uint64_t>(AtomicAdd, a + 8, 1); else if (k == 1) M.atomic<uint64_t>(AtomicInc, a + 8); else if (k == 2) M.atomic<int64_t>(AtomicSub, a + 8, -1); else if (k == 4) M.atomic<int64_t>(AtomicAdd, a + 8, 1); else { for (;;) { uint64_t o = M.atomic<uint64_t>(AtomicOr, a + 8, 0); if (M.atomicCmpxchg<uint64_t>(a + 8, o, o + 1) == o) break; } } } } });
      for (auto& t : th) t.join();
      uint64_t got = 0; if (width == 0) { uint32_t g; M.load((uint8_t*)&g, a + 4, 4); got = g; } else M.load((uint8_t*)&got, a + 8, 8);
      if (got != (uint64_t)N * 8) fail("M04", "8 threads x 20000 increments (mix " + std::to_string(mix) + ", width " + std::to_string(width ? 64 : 32) + ")", std::to_string(N * 8), std::to_string(got));
    }
  }
  printf("{\"cases\":%ld}\n", cases); fflush(stdout); _exit(0);
}
