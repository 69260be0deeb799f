// Sequential histories of the pool allocators, for spec/MemTrace.tla.
#include "vp.h"
#include <memory>
#include <atomic>
#include <new>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static bool g_on = false; static long g_grew = 0; static const volatile void* g_out[65536]; static int g_nout = 0;
static void hookM(const volatile void* p, size_t) { if(g_on) { ++g_grew; if(g_nout < 65536) g_out[g_nout++] = p; } }
static void hookF(const volatile void* p) { for(int i = 0; i < g_nout; ++i) if(g_out[i] == p) { g_out[i] = g_out[--g_nout]; break; } }
static void* vp_aligned_alloc(size_t al, size_t n) { void* p = 0; if(posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) return 0; return p; }
#define aligned_alloc vp_aligned_alloc
#include "bss-util/bss_util.h"
#include "bss-util/BlockAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/Alloc.h"
using namespace vp;
using namespace bss;
struct On { On() { g_on = true; } ~On() { g_on = false; } };
struct Base {
  virtual ~Base() {}
  virtual void* alloc(size_t n) = 0;                       // n bytes (a multiple of unit())
  virtual void dealloc(void* p, size_t n) = 0;
  virtual void* re(void* p, size_t o, size_t n) { return 0; }
  virtual bool canRe() { return false; }
  virtual bool clear() { return false; }
  virtual Base* moveCtor() { return 0; }                   // new allocator move-constructed from this
  virtual bool moveAssign(Base& from) { return false; }
  virtual size_t unit() = 0;                               // allocation sizes are multiples of this
  virtual size_t maxUnits() = 0;
  virtual size_t al() = 0;
  virtual int cls(size_t n) { return 1; }
};
template<size_t N, size_t AL> struct alignas(AL) El { char c[N]; };
struct ABlock : Base { BlockAlloc a; size_t s, l; ABlock(size_t sz, size_t init, size_t align) : a(sz, init, align), s(sz), l(align) {} ABlock(ABlock&& m) : a(std::move(m.a)), s(m.s), l(m.l) {}
  void* alloc(size_t n) override { return n == s ? a.Alloc() : a.Alloc(n, l); } void dealloc(void* p, size_t) override { a.Dealloc(p); } bool clear() override { a.Clear(); return true; }
  Base* moveCtor() override { return new ABlock(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<ABlock&>(f).a); return true; }
  size_t unit() override { return s; } size_t maxUnits() override { return 1; } size_t al() override { return l; } };
template<class T> struct ABlockP : Base { BlockPolicy<T> a; ABlockP(size_t init) : a(init) {} ABlockP(ABlockP&& m) : a(std::move(m.a)) {}
  void* alloc(size_t n) override { return a.allocate(1); } void dealloc(void* p, size_t) override { a.deallocate((T*)p); } bool clear() override { a.Clear(); return true; }
  Base* moveCtor() override { return new ABlockP(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<ABlockP&>(f).a); return true; }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 1; } size_t al() override { return alignof(T); } };
template<class T, size_t S, size_t AL> struct ABlockS : Base { BlockPolicySize<S, AL> a; ABlockS(size_t init) : a(init) {}
  void* alloc(size_t n) override { return a.template allocate<T>(1); } void dealloc(void* p, size_t) override { a.deallocate((T*)p); } bool clear() override { a.Clear(); return true; }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 1; } size_t al() override { return alignof(T); } };
template<class T> struct ALockless : Base { LocklessBlockPolicy<T> a; ALockless(size_t init) : a(init) {} ALockless(ALockless&& m) : a(std::move(m.a)) {}
  void* alloc(size_t n) override { return a.allocate(1); } void dealloc(void* p, size_t) override { a.deallocate((T*)p); }
  Base* moveCtor() override { return new ALockless(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<ALockless&>(f).a); return true; }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 1; } size_t al() override { return alignof(T); } };
template<class T> struct AGreedyB : Base { GreedyBlockPolicy<T> a; AGreedyB(size_t init) : a(init) {} AGreedyB(AGreedyB&& m) : a(std::move(m.a)) {}
  void* alloc(size_t n) override { return a.allocate(n / sizeof(T)); } void dealloc(void* p, size_t) override { a.deallocate(p); } bool clear() override { a.Clear(); return true; }
  Base* moveCtor() override { return new AGreedyB(std::move(*this)); }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 9; } size_t al() override { return alignof(T); } };
struct AGreedy : Base { GreedyAlloc a; size_t l; AGreedy(size_t init, size_t align) : a(init, align), l(align) {} AGreedy(AGreedy&& m) : a(std::move(m.a)), l(m.l) {}
  void* alloc(size_t n) override { return a.Alloc(n); } void dealloc(void* p, size_t) override { a.Dealloc(p); } bool clear() override { a.Clear(); return true; }
  Base* moveCtor() override { return new AGreedy(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<AGreedy&>(f).a); return true; }
  size_t unit() override { return 1; } size_t maxUnits() override { return 90; } size_t al() override { return l; } };
template<class T> struct AGreedyP : Base { GreedyPolicy<T> a; AGreedyP(size_t init) : a(init, alignof(T)) {}
  void* alloc(size_t n) override { return a.allocate(n / sizeof(T)); } void dealloc(void* p, size_t n) override { a.deallocate((T*)p, n / sizeof(T)); } bool clear() override { a.Clear(); return true; }
  bool canRe() override { return true; } void* re(void* p, size_t o, size_t n) override { return a.allocate(n / sizeof(T), (T*)p, o / sizeof(T)); }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 20; } size_t al() override { return alignof(T); } };
struct ARing : Base { RingAllocVoid a; ARing(size_t init) : a(init) {} ARing(ARing&& m) : a(std::move(m.a)) {}
  void* alloc(size_t n) override { return a.Alloc(n); } void dealloc(void* p, size_t) override { a.Dealloc(p); } bool clear() override { a.Clear(); return true; }
  Base* moveCtor() override { return new ARing(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<ARing&>(f).a); return true; }
  size_t unit() override { return 1; } size_t maxUnits() override { return 120; } size_t al() override { return 1; } int cls(size_t n) override { return (int)n; } };
template<class T> struct ARingT : Base { RingAlloc<T> a; ARingT(size_t init) : a(init) {} ARingT(ARingT&& m) : a(std::move(m.a)) {}
  void* alloc(size_t n) override { return a.allocate(n / sizeof(T)); } void dealloc(void* p, size_t) override { a.deallocate((T*)p); } bool clear() override { a.Clear(); return true; }
  Base* moveCtor() override { return new ARingT(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<ARingT&>(f).a); return true; }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 12; } size_t al() override { return alignof(T); } int cls(size_t n) override { return (int)n; } };
struct ACache : Base { CacheAlloc a; size_t l, mx; ACache(size_t mxs, size_t init, size_t align) : a(mxs, init, align), l(align), mx(mxs) {} ACache(ACache&& m) : a(std::move(m.a)), l(m.l), mx(m.mx) {}
  void* alloc(size_t n) override { return a.Alloc(n); } void dealloc(void* p, size_t n) override { a.Dealloc(p, n); }
  Base* moveCtor() override { return new ACache(std::move(*this)); } bool moveAssign(Base& f) override { a = std::move(static_cast<ACache&>(f).a); return true; }
  size_t unit() override { return 1; } size_t maxUnits() override { return 40; } size_t al() override { return l; } int cls(size_t n) override { return n > mx ? 0 : (int)n; } };
template<class T> struct ACacheP : Base { CachePolicy<T> a; size_t mx; ACacheP(size_t m, size_t init) : a(m, init, alignof(T)), mx(m) {}
  void* alloc(size_t n) override { return a.allocate(n / sizeof(T)); } void dealloc(void* p, size_t n) override { a.deallocate((T*)p, n / sizeof(T)); }
  bool canRe() override { return true; } void* re(void* p, size_t o, size_t n) override { return a.allocate(n / sizeof(T), (T*)p, o / sizeof(T)); }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 8; } size_t al() override { return alignof(T); } int cls(size_t n) override { return n > mx ? 0 : (int)n; } };
template<class T, int AL> struct AStd : Base { StandardAllocator<T, AL> a; 
  void* alloc(size_t n) override { return a.allocate(n / sizeof(T)); } void dealloc(void* p, size_t n) override { a.deallocate((T*)p, n / sizeof(T)); }
  bool canRe() override { return true; } void* re(void* p, size_t o, size_t n) override { return a.allocate(n / sizeof(T), (T*)p, o / sizeof(T)); }
  size_t unit() override { return sizeof(T); } size_t maxUnits() override { return 30; } size_t al() override { return AL ? AL : alignof(T); } };

struct Blk { unsigned char* p; size_t n; unsigned char f; int o; };
static std::map<int, Blk> blocks;
static unsigned char pat(const Blk& b, size_t i) { return (unsigned char)(b.f + i * 7); }
static void fillB(Blk& b, size_t from = 0) { for(size_t i = from; i < b.n; ++i) b.p[i] = pat(b, i); }
static J st() { JA bad; for(auto& k : blocks) for(size_t i = 0; i < k.second.n; ++i) if(k.second.p[i] != pat(k.second, i)) { bad.push_back(k.first); break; } return raw("{\"n\":" + std::to_string(blocks.size()) + ",\"bad\":" + arr(bad).s + "}"); }
static J ad(const void* p) { uintptr_t x = (uintptr_t)p; return A((int)(x >> 24), (int)(x & 0xffffff)); }

static void drive(const char* kind, const char* name, Rng& g, const std::function<Base*()>& mk, int steps) {
  blocks.clear(); g_nout = 0;
  beginRun(std::string("{\"kind\":\"") + kind + "\",\"name\":\"" + name + "\"}");
  { std::vector<Base*> al(3, (Base*)0); // Base objects themselves are allocated outside the On scope
    auto make = [&](int i) { g_on = true; al[i] = mk(); g_on = false; };
    // the adapter object is counted too: it is freed at the end as well
    make(1); if(g.chance(30)) make(2);
    int nid = 1, style = g.below(4), target = g.range(2, 14);
    for(int s = 0; s < steps; ++s) {
      int o = (al[2] && g.chance(40)) ? 2 : 1; Base* b = al[o];
      std::vector<int> mine; for(auto& k : blocks) if(k.second.o == o) mine.push_back(k.first);
      int r = g.below(100);
      bool wantFree = (int)mine.size() >= target ? g.chance(75) : g.chance(25);
      if(r < 4 && b->clear()) { // memory of all its blocks is void from here on
        for(int id : mine) blocks.erase(id);
        ev("Clear", A(o), A(), st());
      } else if(r < 7) { // moves: allocator o continues in a fresh object (or assigned into the other slot)
        int t = 3 - o;
        if(!al[t]) { g_on = true; Base* n = b->moveCtor(); g_on = false; if(!n) continue; al[t] = n; }
        else { bool any = false; for(auto& k : blocks) any |= k.second.o == t; if(any) continue; g_on = true; bool ok = al[t]->moveAssign(*b); g_on = false; if(!ok) continue; }
        g_on = true; delete al[o]; g_on = false; al[o] = 0;
        for(auto& k : blocks) if(k.second.o == o) k.second.o = t;
        ev("Move", A(t, o), A(), st());
        if(!al[1]) make(1); // slot 1 is always usable
      } else if(b->canRe() && r < 25 && !mine.empty()) {
        int id = mine[g.below(mine.size())]; Blk ob = blocks[id]; size_t nn = b->unit() * g.range(1, (int)b->maxUnits());
        g_on = true; g_grew = 0; unsigned char* p = (unsigned char*)b->re(ob.p, ob.n, nn); g_on = false;
        blocks.erase(id); Blk nb = { p, nn, ob.f, o }; bool pre = p != 0;
        for(size_t i = 0; pre && i < std::min(nn, ob.n); ++i) pre = p[i] == pat(nb, i);
        int ni = nid++; if(p) { fillB(nb); blocks[ni] = nb; }
        ev("Realloc", A(o, id, ni, nn, b->cls(nn)), A(ad(p), ad(p + nn), ((uintptr_t)p % b->al()) == 0, g_grew != 0, pre), st());
      } else if(wantFree && !mine.empty()) {
        int id = style == 0 ? mine.back() : style == 1 ? mine.front() : mine[g.below(mine.size())]; Blk k = blocks[id]; blocks.erase(id);
        g_on = true; b->dealloc(k.p, k.n); g_on = false;
        ev("Dealloc", A(id), A(), st());
      } else {
        size_t n = b->unit() * (b->maxUnits() > 1 ? (g.chance(50) ? g.range(1, 3) : g.range(1, (int)b->maxUnits())) : 1);
        g_on = true; g_grew = 0; unsigned char* p = (unsigned char*)b->alloc(n); g_on = false;
        Blk nb = { p, n, (unsigned char)g.below(256), o }; int id = nid++; if(p) { fillB(nb); blocks[id] = nb; }
        ev("Alloc", A(o, id, n, b->cls(n)), A(ad(p), ad(p + n), p && ((uintptr_t)p % b->al()) == 0, g_grew != 0), st());
      }
    }
    if(g.chance(50) || !strcmp(kind, "std") || !strcmp(kind, "cache")) // what malloc serves directly must be freed
      while(!blocks.empty()) { int id = blocks.begin()->first; Blk k = blocks[id]; blocks.erase(id); g_on = true; al[k.o]->dealloc(k.p, k.n); g_on = false; ev("Dealloc", A(id), A(), st()); }
    for(Base* b : al) delete b;
  }
  blocks.clear();
  ev("End", A(), A(g_nout), st());
  endRun();
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 8);
  __sanitizer_install_malloc_and_free_hooks(hookM, hookF);
  typedef El<8, 8> E8; typedef El<24, 8> E24; typedef El<48, 16> E48; typedef El<64, 32> E64; typedef El<4, 1> E4; typedef El<6, 2> E6; typedef El<16, 16> E16;
  int n = (int)a.budget;
  for(int it = 0; it < n; ++it) {
    int st = g.range(10, 70);
    size_t in = g.chance(30) ? 1 : g.range(1, 10);
#define D(K, X) drive(K, #X, g, [&]() -> Base* { return new X; }, st)
    D("block", ABlock(8, in, 8)); { size_t s = 8 * g.range(1, 6); D("block", ABlock(s, in, 8)); } D("block", ABlock(40, in, 16)); D("block", ABlock(24, in, 32)); D("block", ABlock(13, in, 1));
    D("block", ABlockP<E8>(in)); D("block", ABlockP<E24>(in)); D("block", ABlockP<E48>(in)); D("block", ABlockP<E64>(in));
    drive("block", "ABlockS", g, [&]() -> Base* { return new ABlockS<E24, 32, 8>(in); }, st);
    drive("block", "ABlockS2", g, [&]() -> Base* { return new ABlockS<E48, 64, 16>(in); }, st);
    D("block", ALockless<E8>(in)); D("block", ALockless<E24>(in));
    D("greedy", AGreedyB<E24>(in)); D("greedy", AGreedyB<E48>(in)); D("greedy", AGreedyB<E64>(in)); D("greedy", AGreedyB<E6>(in));
    { size_t b = g.range(1, 200); D("greedy", AGreedy(b, 1)); D("greedy", AGreedy(b, 8)); D("greedy", AGreedy(b, 32)); D("greedy", AGreedyP<E8>(b)); D("greedy", AGreedyP<E48>(b)); D("greedy", AGreedyP<E6>(b)); }
    { size_t b = g.range(1, 300); D("ring", ARing(b)); D("ring", ARing(b)); D("ring", ARingT<E8>(b)); D("ring", ARingT<E16>(b)); D("ring", ARingT<E24>(b)); }
    { size_t b = g.range(1, 200), mx = g.range(4, 40); D("cache", ACache(mx, b, 1)); D("cache", ACache(mx, b, 8)); D("cache", ACache(mx, b, 16)); size_t m2 = 8 * g.range(1, 8);
      drive("cache", "ACacheP8", g, [&]() -> Base* { return new ACacheP<E8>(m2, b); }, st); drive("cache", "ACacheP4", g, [&]() -> Base* { return new ACacheP<E4>(m2, b); }, st); drive("cache", "ACacheP16", g, [&]() -> Base* { return new ACacheP<E16>(m2 * 2, b); }, st); }
    drive("std", "AStd", g, [&]() -> Base* { return new AStd<E4, 0>(); }, st); drive("std", "AStd16", g, [&]() -> Base* { return new AStd<E16, 16>(); }, st); drive("std", "AStd32", g, [&]() -> Base* { return new AStd<E64, 32>(); }, st); drive("std", "AStdA", g, [&]() -> Base* { return new AStd<E6, 0>(); }, st);
  }
  return finish();
}
