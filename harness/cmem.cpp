// Interleavings of the concurrent allocators, for spec/MemTrace.tla.  -DPART=0: LocklessBlockPolicy, 1: RingAlloc, 2: GreedyAlloc, CacheAlloc and their policies.
#include "conc.h"
#include <memory>
#include <atomic>
#include "bss-util/bss_util.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/RingAlloc.h"
using namespace vp;
using namespace bss;
struct Base { virtual ~Base() {} virtual void* alloc(size_t n) = 0; virtual void dealloc(void* p, size_t n) = 0; virtual bool clear() { return false; } virtual size_t al() { return 1; } virtual int cls(size_t n) { return 1; } };
template<size_t N, size_t AL> struct alignas(AL) El { char c[N]; };
template<class T> struct ALockless : Base { LocklessBlockPolicy<T> a; ALockless(size_t init) : a(init) {} void* alloc(size_t) override { return a.allocate(1); } void dealloc(void* p, size_t) override { a.deallocate((T*)p, 1); } size_t al() override { return alignof(T); } };
struct ARing : Base { RingAllocVoid a; ARing(size_t s) : a(s) {} void* alloc(size_t n) override { return a.Alloc(n); } void dealloc(void* p, size_t) override { a.Dealloc(p); } bool clear() override { a.Clear(); return true; } };
struct ARingT : Base { RingAlloc<int64_t> a; ARingT(size_t s) : a(s) {} void* alloc(size_t n) override { return a.allocate(n / 8); } void dealloc(void* p, size_t) override { a.deallocate((int64_t*)p); } size_t al() override { return 8; } };
struct AGreedy : Base { GreedyAlloc a; size_t l; AGreedy(size_t init, size_t al_) : a(init, al_), l(al_) {} void* alloc(size_t n) override { return a.Alloc(n); } void dealloc(void* p, size_t) override { a.Dealloc(p); } bool clear() override { a.Clear(); return true; } size_t al() override { return l; } };
struct AGreedyP : Base { GreedyPolicy<int64_t> a; AGreedyP(size_t init) : a(init, 8) {} void* alloc(size_t n) override { return a.allocate(n / 8); } void dealloc(void* p, size_t) override { a.deallocate((int64_t*)p); } bool clear() override { a.Clear(); return true; } size_t al() override { return 8; } };
struct ACache : Base { CacheAlloc a; size_t m, l; ACache(size_t mx, size_t init, size_t al_) : a(mx, init, al_), m(mx), l(al_) {} void* alloc(size_t n) override { return a.Alloc(n); } void dealloc(void* p, size_t n) override { a.Dealloc(p, n); } size_t al() override { return l; } int cls(size_t n) override { return n > m ? 0 : (int)n; } };
struct Blk { void* p; size_t n; int id; unsigned char pat; };
struct Op { char k; int v; };
typedef std::vector<std::vector<Op>> Prog;
static int nid, nlive; static std::vector<Blk>* shared_; static std::vector<std::string>* badv; static Base* AL; static bool growing;
static J st() { std::string s = "{\"n\":" + std::to_string(nlive) + ",\"bad\":["; for(size_t i = 0; i < badv->size(); ++i) s += (i ? "," : "") + q((*badv)[i]); return raw(s + "]}"); }
static J ad(size_t o) { return A((int)(o >> 20), (int)(o & 0xfffff)); }
static Blk doAlloc(size_t n, bool seq) {
  long m0 = vps::mallocs(); void* p = AL->alloc(n); long m1 = vps::mallocs();
  VP_RECORD; Blk b{ p, n, nid++, (unsigned char)(1 + nid % 250) }; ++nlive;
  if(vps::liveTo(p) < n) badv->push_back("not inside live memory"); else memset(p, b.pat, n);
  size_t o = vps::off(p);
  ev("Alloc", A(0, b.id, (int)n, AL->cls(n)), raw("[" + ad(o).s + "," + ad(o + n).s + "," + (((uintptr_t)p % AL->al()) ? "false" : "true") + "," + (seq && (m1 != m0 || growing) ? "true" : "false") + "]"), st());
  return b;
}
static void doFree(const Blk& b) {
  { VP_RECORD; if(vps::liveTo(b.p) < b.n) badv->push_back("block memory gone"); else for(size_t i = 0; i < b.n; ++i) if(((unsigned char*)b.p)[i] != b.pat) { badv->push_back("contents"); break; }
    --nlive; ev("Dealloc", A(b.id), A(), st()); }
  AL->dealloc(b.p, b.n);
}
static Explorer* X;
static void scenario(const char* kind, const std::function<Base*()>& mk, const Prog& pr, const std::vector<Op>& warm, const std::vector<int>& sizes, bool seqGrow, bool cap, long s1, long s2, long s3) {
  X->explore(std::string("{\"kind\":\"") + kind + "\"}", [&] {
    { VP_RECORD; nid = 1; nlive = 0; shared_->clear(); badv->clear(); }
    AL = mk(); growing = !strcmp(kind, "cacheMT");
    for(auto& o : warm) {
      if(o.k == 'a') { Blk b = doAlloc(sizes[o.v % sizes.size()], false); VP_RECORD; shared_->push_back(b); }
      else { Blk b; { VP_RECORD; size_t k = o.v % shared_->size(); b = (*shared_)[k]; shared_->erase(shared_->begin() + k); } doFree(b); }
    }
    for(size_t t = 0; t < pr.size(); ++t) vps::spawn([&, t] {
      std::vector<Blk>* own; { VP_RECORD; own = new std::vector<Blk>(); }
      for(auto& o : pr[t]) {
        if(o.k == 'a') { Blk b = doAlloc(sizes[o.v % sizes.size()], false); VP_RECORD; own->push_back(b); }
        else if(o.k == 's') { VP_RECORD; if(own->size()) { shared_->push_back(own->back()); own->pop_back(); } }
        else { Blk b; bool have = false; { VP_RECORD; std::vector<Blk>& src = o.k == 'g' ? *shared_ : *own; if(src.size()) { size_t k = o.v % src.size(); b = src[k]; src.erase(src.begin() + k); have = true; } } if(have) doFree(b); }
      }
      { VP_RECORD; for(auto& b : *own) shared_->push_back(b); delete own; }
    });
    vps::joinAll();
    // alone again: everything is intact, everything can be freed, freed memory is used again
    for(;;) { Blk b; { VP_RECORD; if(shared_->empty()) break; b = shared_->back(); shared_->pop_back(); } doFree(b); }
    std::vector<Blk>* own; { VP_RECORD; own = new std::vector<Blk>(); }
    for(int i = 0; i < 4; ++i) { Blk b = doAlloc(sizes[i % sizes.size()], seqGrow); VP_RECORD; own->push_back(b); }
    if(cap) { // how many blocks does the pool serve before it asks for more memory?
      long m0 = vps::mallocs(); size_t owned = vps::liveBytes(), got = own->size(), chunks = vps::liveBlocks();
      for(int i = 0; i < 400; ++i) { void* p = AL->alloc(sizes[0]); if(vps::mallocs() != m0) { AL->dealloc(p, sizes[0]); break; } ++got; { VP_RECORD; own->push_back({ p, 0, 0, 0 }); } }
      note("Cap", A(), A((int)(got * sizes[0]), (int)owned, (int)chunks));
    }
    for(size_t i = 0; i < own->size(); ++i) { Blk b = (*own)[i]; if(b.n) doFree(b); else AL->dealloc(b.p, sizes[0]); }
    if(AL->clear()) { note("Clear", A(0), A()); vp::log().buf.replace(vp::log().buf.rfind("\"s\":[]"), 6, "\"s\":" + st().s); Blk b = doAlloc(sizes[0], false), c = doAlloc(sizes.back(), false); doFree(b); doFree(c); }
    delete AL; { VP_RECORD; delete own; nlive = 0; }
    { VP_RECORD; ev("End", A(), A((int)vps::liveBlocks()), st()); }
  }, s1, s2, s3);
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Explorer x(a.seed * 7919 + 5); X = &x; Rng g(a.seed * 31 + 7);
  shared_ = new std::vector<Blk>(); badv = new std::vector<std::string>();
  for(long i = 0; i < a.budget; ++i) {
    Prog pr(g.chance(40) ? 2 : 3); int style = g.below(4);
    for(auto& v : pr) for(int n = g.range(2, pr.size() == 2 ? 6 : 4); n > 0; --n) {
      int c = g.below(100);
      if(style == 0) v.push_back({ c < 50 ? 'a' : c < 80 ? 'd' : c < 90 ? 's' : 'g', (int)g.below(7) });
      else if(style == 1) v.push_back({ n % 2 == 0 ? 'a' : 'd', (int)g.below(7) });
      else if(style == 2) v.push_back({ c < 75 ? 'a' : 'd', (int)g.below(7) });
      else v.push_back({ c < 45 ? 'a' : c < 65 ? 's' : 'g', (int)g.below(7) });
    }
    std::vector<Op> warm; // what happened before the threads started
    if(g.chance(65)) { int n = g.range(1, 4); for(int k = 0; k < n; ++k) warm.push_back({ 'a', g.chance(70) ? 0 : (int)g.below(7) }); for(int k = g.chance(60) ? n : g.range(0, n); k > 0; --k) warm.push_back({ 'd', (int)g.below(7) }); }
    if(g.chance(30)) { // a longer quiet history of one size: some blocks freed, some taken again
      warm.clear(); int live = 0, freed = 0; for(int k = g.range(4, 12); k > 0; --k) { if(live && g.chance(k < 6 ? 40 : 55)) { warm.push_back({ 'd', (int)g.below(7) }); --live; ++freed; } else { warm.push_back({ 'a', 0 }); ++live; } }
      for(int k = freed ? g.below(3) : 2; k > 0 && live; --k, --live) warm.push_back({ 'd', (int)g.below(7) });
      for(auto& v : pr) for(auto& o : v) if(o.k == 'a') o.v = 0;
      if(g.chance(50)) { pr[0] = { { 'a', 0 }, { 'a', 0 } }; pr[1] = { { 'a', 0 }, { 'a', 0 }, { 'd', 0 }, { 'a', 0 } }; }
    }
    if(g.chance(25)) for(auto& v : pr) for(auto& o : v) if(o.k == 'a') o.v = 0;
    if(g.chance(15)) { pr[0] = { { 'a', 0 }, { 'a', 0 } }; pr[1] = { { 'a', 0 }, { 'a', 0 }, { 'd', 0 }, { 'a', 0 } }; }
    long s1 = 250, s2 = 180, s3 = 180;
#if PART == 0
    size_t init = 1 + g.below(4);
    switch(g.below(3)) {
    case 0: scenario("block", [=] { return new ALockless<El<8, 8>>(init); }, pr, warm, { 8 }, true, true, s1, s2, s3); break;
    case 1: scenario("block", [=] { return new ALockless<El<24, 8>>(init); }, pr, warm, { 24 }, true, true, s1, s2, s3); break;
    default: scenario("block", [=] { return new ALockless<El<48, 16>>(init); }, pr, warm, { 48 }, true, true, s1, s2, s3); break;
    }
#elif PART == 1
    std::vector<int> sz; for(int k = g.range(1, 3); k > 0; --k) sz.push_back(8 * g.range(1, g.chance(20) ? 30 : 8));
    size_t init = g.chance(50) ? 40 + g.below(60) : 100 + g.below(200);
    if(g.chance(30)) { int f = (int)T_FBNEXT(init); for(auto& v : sz) if(g.chance(60)) v = std::max(1, f + (int)g.below(48) - 32);
      if(g.chance(50)) { sz = { 8 * g.range(1, 3), std::max(1, f - (int)g.below(20)) }; warm = { { 'a', 0 }, { 'a', 1 }, { 'd', 0 }, { 'a', 1 }, { 'a', 1 } }; } } // a returned bucket nearly large enough // sizes near what the first bucket holds
    if(g.chance(75)) scenario("other", [=] { return new ARing(init); }, pr, warm, sz, false, false, s1, s2, s3);
    else { for(auto& v : sz) v = (v + 7) / 8 * 8; scenario("other", [=] { return new ARingT(init); }, pr, warm, sz, false, false, s1, s2, s3); }
#else
    int kind = g.below(4); size_t al = 1u << g.below(5); std::vector<int> sz; for(int k = g.chance(20) ? 7 : g.range(1, 3); k > 0; --k) sz.push_back(g.chance(50) ? 8 * g.range(1, 6) : g.range(1, 70));
    size_t init = g.chance(50) ? 16 + g.below(48) : 64 + g.below(100);
    if(kind == 0) scenario("other", [=] { return new AGreedy(init, al); }, pr, warm, sz, false, false, s1, s2, s3);
    else if(kind == 1) { for(auto& v : sz) v = (v + 7) / 8 * 8; scenario("other", [=] { return new AGreedyP(init); }, pr, warm, sz, false, false, s1, s2, s3); }
    else if(g.chance(25)) { // enough different sizes that the table of sizes grows while the threads run
      sz.clear(); for(int k = 1; k <= 30; ++k) sz.push_back(k); warm.clear(); int n = g.range(23, 25); for(int k = 0; k < n; ++k) warm.push_back({ 'a', k }); for(int k = 0; k < 3; ++k) warm.push_back({ 'd', n - 1 - 2 * k });
      for(auto& v : pr) for(auto& o : v) if(o.k == 'a') o.v = n - 3 + (int)g.below(6);
      scenario("cacheMT", [=] { return new ACache(48, 2000, al); }, pr, warm, sz, true, false, s1, s2, s3); }
    else scenario("cacheMT", [=] { return new ACache(48, init, al); }, pr, warm, sz, true, false, s1, s2, s3);
#endif
  }
  fprintf(stderr, "schedules=%ld bad=%ld maxlen=%ld\n", x.schedules, x.bad, x.maxlen);
  return finish();
}
