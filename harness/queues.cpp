// Histories of Stack, Queue, ArrayCircular and RandomQueue (C11).
#include "vp.h"
#include "bss-util/Stack.h"
#include "bss-util/Queue.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/RandomQueue.h"
using namespace bss; using namespace vp;
template<class T> struct El { static int get(const T& t) { return t.val(); } static const bool track = true; static long live() { return (long)life().live.size(); } };
template<> struct El<int> { static int get(int t) { return t; } static const bool track = false; static long live() { return 0; } };
template<> struct El<uint16_t> { static int get(int t) { return t; } static const bool track = false; static long live() { return 0; } };
enum { STACK, QUEUE, CIRC, RAND };
static const char* KN[] = { "stack", "queue", "circ", "rand" };

template<class C, class T, int K, bool COPY> struct D {
  typedef El<T> E; C* o[2]; long base; int caps[2];
  std::vector<int> view(int k, bool& ok) {
    C& c = *o[k]; const C& cc = c; std::vector<int> r; long n = (long)cc.Length();
    if(n < 0 || n > 10000) { ok = false; return r; }
    if constexpr(K == STACK) {
      for(long i = 0; i < n; ++i) r.push_back(E::get(cc[i]));
      if(n && (E::get(c.Peek()) != r[n - 1] || E::get(cc.Peek()) != r[n - 1])) ok = false;
    } else if constexpr(K == QUEUE) {
      if(c.Empty() != (n == 0)) ok = false;
      if constexpr(COPY) { C t(cc); while(t.Length() > 0 && r.size() < 10000) { int pk = E::get(t.Peek()); T x(t.Pop()); r.push_back(E::get(x)); if(pk != r.back()) ok = false; } }
      else { // rotate through: pop everything and push it back
        for(long i = 0; i < n; ++i) { T x(c.Pop()); r.push_back(E::get(x)); c.Push(std::move(x)); } }
      if((long)r.size() != n || (n && (E::get(cc.Peek()) != r[0] || E::get(c.Peek()) != r[0])) || (long)cc.Capacity() < n) ok = false;
    } else if constexpr(K == CIRC) {
      for(long i = n; i > 0;) r.push_back(E::get(cc[--i]));
      long j = n; for(auto p = c.begin(); p != c.end(); ++p) { --j; if(j < 0 || E::get(*p) != r[j]) { ok = false; break; } }
      j = n; for(auto p = cc.begin(); p != cc.end(); p++) { --j; if(j < 0 || E::get(*p) != r[j]) { ok = false; break; } }
      j = 0; for(auto p = cc.end(); !(p == cc.begin());) { --p; if(j >= n || E::get(*p) != r[j]) { ok = false; break; } ++j; } if(j != n) ok = false;
      j = 0; for(auto p = c.end(); !(p == c.begin());) { auto o2 = p--; if(!(o2 != p) || j >= n || E::get(*p) != r[j]) { ok = false; break; } ++j; }
      if(n && (E::get(c.Front()) != r[n - 1] || E::get(cc.Front()) != r[n - 1] || E::get(c.Back()) != r[0] || E::get(cc.Back()) != r[0])) ok = false;
    } else {
      if(c.Empty() != (n == 0)) ok = false;
      for(auto p = cc.begin(); p != cc.end(); ++p) r.push_back(E::get(*p));
      if((long)r.size() != n) ok = false;
      long j = 0; for(auto p = c.begin(); p != c.end(); ++p, ++j) if(j >= n || E::get(*p) != r[j] || &((T*)c)[j] != p || &((const T*)cc)[j] != p) { ok = false; break; }
    }
    return r;
  }
  int capOf(int k) { if constexpr(K == CIRC) return (int)o[k]->Capacity(); else return 0; }
  J state() { bool ok = true; std::vector<J> x; for(int k = 0; k < 2; ++k) x.push_back(J(view(k, ok)));
    return raw("{\"x\":" + arr(x).s + ",\"ok\":" + (ok ? "true" : "false") + ",\"live\":" + std::to_string(E::live() - base) + ",\"err\":" + std::to_string(E::track ? life().errors : 0) + ",\"cap\":[" + std::to_string(capOf(0)) + "," + std::to_string(capOf(1)) + "]}"); }
  void push(int k, int v, bool mv) { if(K == CIRC && capOf(k) == 0) return; if constexpr(COPY) { if(mv) o[k]->Push(T(v)); else { T t(v); o[k]->Push((const T&)t); } } else o[k]->Push(T(v)); ev("Push", A(k + 1, v), A(), state()); }
  XorshiftEngine<uint64_t> eng;
  void step(Rng& g, int maxlen) {
    int k = g.below(2), p = 1 - k, v = 1 + g.below(9); C& c = *o[k]; int n = (int)c.Length();
    switch(g.below(20)) {
    default: if(n < maxlen || K == CIRC) push(k, v, g.chance(50)); break;
    case 7: case 8: case 9: case 10: case 11:
      if(n) {
        if constexpr(K == STACK) { int r; { T x(c.Pop()); r = E::get(x); } ev("Pop", A(k + 1), A(r), state()); }
        else if constexpr(K == QUEUE) { int r; { T x(c.Pop()); r = E::get(x); } ev("PopOldest", A(k + 1), A(r), state()); }
        else if constexpr(K == CIRC) { int r; bool w = g.chance(50); { if(w) { T x(c.Pop()); r = E::get(x); } else { T x(c.PopBack()); r = E::get(x); } } ev(w ? "Pop" : "PopOldest", A(k + 1), A(r), state()); }
        else { int r; { if(g.chance(50)) { T x(c.Pop()); r = E::get(x); } else { T x(c.Pop(eng)); r = E::get(x); } } ev("PopAny", A(k + 1), A(r), state()); }
      } break;
    case 12: if(n) { if constexpr(K == STACK || K == QUEUE) { c.Discard(); ev("Discard", A(k + 1), A(), state()); } else if constexpr(K == RAND) { int i = g.below(n); c.Remove(i); ev("RemoveAt", A(k + 1, i), A(), state()); } } break;
    case 13: if(g.chance(25)) { c.Clear(); ev("Clear", A(k + 1), A(), state()); } break;
    case 14: if(n) { if constexpr(K == STACK) { int i = g.below(n); c[i] = T(v); ev("Write", A(k + 1, i + 1, v), A(), state()); }
        else if constexpr(K == CIRC) { int i = g.below(n); c[i] = T(v); ev("Write", A(k + 1, n - i, v), A(), state()); }
        else if constexpr(K == QUEUE) { c.Peek() = T(v); ev("Write", A(k + 1, 1, v), A(), state()); } } break;
    case 15: if constexpr(K == CIRC) { int m = g.chance(75) ? capOf(k) + g.below(5) : 1 + g.below(8); if(m < 1) m = 1; if(m > 24) m = 5; c.SetCapacity(m); ev("SetCap", A(k + 1, m), A(), state()); }
             else if constexpr((K == STACK || K == RAND) && COPY) { int m = g.below(maxlen); c.SetLength(m); if(!E::track) for(int i = n; i < m; ++i) { if constexpr(K == RAND) c.begin()[i] = T(0); else c[i] = T(0); } ev("SetLen", A(k + 1, m, 0), A(), state()); } break;
    case 16: if constexpr(COPY) { int w = g.below(5); if(w == 0) { c = c; ev("Copy", A(k + 1, k + 1), A(), state()); } else { if(w < 3) c = *o[p]; else { delete o[k]; o[k] = new C(*o[p]); } ev("Copy", A(k + 1, p + 1), A(), state()); } } break;
    case 17: if(g.chance(50)) { if(K == CIRC && capOf(p) == 0) break; if(g.chance(50)) c = std::move(*o[p]); else { delete o[k]; o[k] = new C(std::move(*o[p])); } ev("Move", A(k + 1, p + 1), A(), state());
        if constexpr(K == CIRC) if(capOf(p) == 0) { int m = 1 + g.below(5); o[p]->SetCapacity(m); ev("SetCap", A(p + 1, m), A(), state()); } } break;
    case 18: if constexpr(K == CIRC) { if(n && n == capOf(k)) { int i = 1 + g.below(n); int r = E::get(c[-i]); ev("Neg", A(k + 1, i), A(r), state()); } }
             else if constexpr(K == RAND && COPY) { if(n + (int)o[p]->Length() < maxlen) { if(g.chance(50)) c += *o[p]; else { C t(c + *o[p]); c = std::move(t); } ev("Append", A(k + 1, p + 1), A(), state()); } } break;
    }
  }
  void runs(Rng& g, long budget) {
    for(long r = 0; r < budget; ++r) {
      life().errors = 0; life().live.clear(); base = E::live(); int maxlen = g.chance(50) ? 6 : 20; int c0 = 1 + g.below(g.chance(50) ? 4 : 12), c1 = 1 + g.below(6);
      o[0] = new C(K == CIRC ? c0 : g.below(6)); o[1] = new C(K == CIRC ? c1 : g.below(6)); eng.seed(g.next() | 1);
      beginRun("{\"kind\":\"" + std::string(KN[K]) + "\",\"track\":" + (E::track ? "true" : "false") + ",\"cap\":[" + std::to_string(capOf(0)) + "," + std::to_string(capOf(1)) + "]}");
      int steps = 40 + g.below(60);
      for(int i = 0; i < steps; ++i) step(g, maxlen);
      int cf[2] = { capOf(0), capOf(1) }; delete o[0]; delete o[1];
      ev("End", A(), A(), raw("{\"x\":[[],[]],\"ok\":true,\"live\":" + std::to_string(E::live() - base) + ",\"err\":" + std::to_string(E::track ? life().errors : 0) + ",\"cap\":[" + std::to_string(K == CIRC ? cf[0] : 0) + "," + std::to_string(K == CIRC ? cf[1] : 0) + "]}"));
      endRun();
    }
  }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 11); long b = a.budget ? a.budget : 10;
  bssRandSeed(a.seed + 5);
  D<Stack<int>, int, STACK, true>().runs(g, b); D<Stack<Tracked, uint32_t, ARRAY_SAFE>, Tracked, STACK, true>().runs(g, b); D<Stack<MoveOnly, uint16_t, ARRAY_MOVE>, MoveOnly, STACK, false>().runs(g, b);
  D<Queue<int>, int, QUEUE, true>().runs(g, b); D<Queue<Tracked, int, ARRAY_SAFE>, Tracked, QUEUE, true>().runs(g, b); D<Queue<MoveOnly, ptrdiff_t, ARRAY_MOVE>, MoveOnly, QUEUE, false>().runs(g, b);
  D<ArrayCircular<int>, int, CIRC, true>().runs(g, b); D<ArrayCircular<uint16_t, int16_t>, uint16_t, CIRC, true>().runs(g, b); D<ArrayCircular<Tracked, int, ARRAY_SAFE>, Tracked, CIRC, true>().runs(g, 2 * b); D<ArrayCircular<MoveOnly, ptrdiff_t, ARRAY_MOVE>, MoveOnly, CIRC, false>().runs(g, b);
  D<RandomQueue<int>, int, RAND, true>().runs(g, b); D<RandomQueue<Tracked, uint32_t, ARRAY_SAFE>, Tracked, RAND, true>().runs(g, b);
  return finish();
}
