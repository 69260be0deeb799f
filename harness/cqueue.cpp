// Interleavings of the concurrent queues, for spec/FifoTrace.tla.  -DPART=0: LocklessQueue (one producer, one consumer), 1: MicroLockQueue.
#include "conc.h"
#include <memory>
#include <atomic>
#include "bss-util/bss_util.h"
#include "bss-util/LocklessQueue.h"
using namespace vp;
using namespace bss;
struct Pod { int v, c; Pod() : v(-7), c(0) {} Pod(int x) : v(x), c(~x) {} int get() const { return c == ~v ? v : -9; } };
struct Own { // owns heap memory: use after free, double destruction and leaks become visible
  int* p; Own() : p(0) {} Own(int x) : p((int*)malloc(sizeof(int))) { *p = x; }
  Own(const Own& o) : p(0) { if(o.p) { p = (int*)malloc(sizeof(int)); *p = *o.p; } } Own(Own&& o) : p(o.p) { o.p = 0; }
  ~Own() { if(p) free(p); p = 0; }
  Own& operator=(const Own& o) { if(&o != this) { if(p) free(p); p = 0; if(o.p) { p = (int*)malloc(sizeof(int)); *p = *o.p; } } return *this; }
  Own& operator=(Own&& o) { if(&o != this) { if(p) free(p); p = o.p; o.p = 0; } return *this; }
  int get() const { return p ? *p : -9; } };
#if PART == 0
template<class T, class L, class Al> using Q = LocklessQueue<T, L, Al>;
template<class N> using Pol = BlockPolicy<N>;
#else
template<class T, class L, class Al> using Q = MicroLockQueue<T, L, Al>;
template<class N> using Pol = LocklessBlockPolicy<N>;
#endif
struct Op { char k; int v; };
typedef std::vector<std::vector<Op>> Prog;
template<class QT, class T> static void doOp(QT& q, const Op& o) {
  if(o.k == 'p' || o.k == 'P') { inv("Push", A(o.v)); { T x(o.v); if(o.k == 'p') q.Push(x); else q.Push(std::move(x)); } ret(); }
  else if(o.k == 'g') { inv("Pop"); int r = -1; { T x; if(q.Pop(x)) r = x.get(); } ret(A(r)); }
  else { inv("Peek"); bool b = q.Peek(); ret(A((int)b)); }
}
template<class T> static int lenOf(...) { return -1; }
template<class QT> static auto lenOf(QT& q, int) -> decltype((int)q.Length()) { return (int)q.Length(); }
template<class QT> static int lenOf(QT& q, long) { return -1; }
static Explorer* X;
template<class T, class L, int AL> static void scenario(const Prog& pr, int init, const char* nm, long s1, long s2, long s3) {
  typedef internal::LQ_QNode<T> N; typedef Pol<N> P;
  typedef std::conditional_t<AL == 0, StandardAllocator<N>, PolymorphicAllocator<N, Pol>> Al;
  typedef Q<T, L, Al> QT;
  X->explore(std::string("{\"kind\":\"") + nm + "\"}", [&] {
    P* pol = 0; QT* q;
    if constexpr(AL == 0) q = new QT(); else { pol = new P(init); q = new QT(pol); }
    for(size_t t = 0; t < pr.size(); ++t) vps::spawn([&, t] { for(auto& o : pr[t]) doOp<QT, T>(*q, o); });
    vps::joinAll();
    { int n = lenOf(*q, 0); if(n != -1) { inv("Length"); ret(A(n)); } }
    doOp<QT, T>(*q, { '?', 0 });
    for(int i = 0; i < 12; ++i) { inv("Pop"); int r = -1; { T x; if(q->Pop(x)) r = x.get(); } ret(A(r)); if(r == -1) break; }
    { int n = lenOf(*q, 0); if(n != -1) { inv("Length"); ret(A(n)); } }
    doOp<QT, T>(*q, { 'P', 99 }); // one item left for the destructor
    delete q; if(pol) delete pol;
    note("End", A(), A((int)vps::liveBlocks()));
  }, s1, s2, s3);
}
template<class T> static void pick(int v, const Prog& pr, long s1, long s2, long s3) {
  switch(v % 5) {
  case 0: scenario<T, void, 1>(pr, 1, "pool1", s1, s2, s3); break;
  case 1: scenario<T, size_t, 1>(pr, 2, "pool2len", s1, s2, s3); break;
  case 2: scenario<T, void, 0>(pr, 0, "std", s1, s2, s3); break;
  case 3: scenario<T, size_t, 0>(pr, 0, "stdlen", s1, s2, s3); break;
  default: scenario<T, uint32_t, 1>(pr, 8, "pool8len", s1, s2, s3); break;
  }
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Explorer x(a.seed * 7919 + 5); X = &x; Rng g(a.seed * 31 + 7);
  for(long i = 0; i < a.budget; ++i) {
    Prog pr; int nv = 1;
    auto pushop = [&] { return Op{ g.chance(50) ? 'p' : 'P', nv++ }; };
#if PART == 0
    pr.resize(2);
    for(int n = g.range(1, 5); n > 0; --n) pr[0].push_back(g.chance(88) ? pushop() : Op{ '?', 0 });
    for(int n = g.range(1, 5); n > 0; --n) pr[1].push_back(Op{ g.chance(82) ? 'g' : '?', 0 });
#else
    pr.resize(g.chance(35) ? 2 : 3);
    int style = g.below(4);
    for(size_t t = 0; t < pr.size(); ++t) for(int n = g.range(1, pr.size() == 2 ? 4 : 3); n > 0; --n) {
      bool push = style == 0 ? g.chance(50) : style == 1 ? t == 0 : style == 2 ? t + 1 < pr.size() : g.chance(n % 2 ? 80 : 20);
      pr[t].push_back(g.chance(8) ? Op{ '?', 0 } : push ? pushop() : Op{ 'g', 0 });
    }
#endif
    int v = g.below(5); bool own = g.chance(40);
    if(own) pick<Own>(v, pr, 250, 150, 150); else pick<Pod>(v, pr, 250, 150, 150);
  }
  fprintf(stderr, "schedules=%ld bad=%ld maxlen=%ld\n", x.schedules, x.bad, x.maxlen);
  return finish();
}
