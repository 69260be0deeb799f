// Exploration of the interleavings of one concurrent scenario; include after vp.h, before the bss headers.
#ifndef CONC_H
#define CONC_H
#include "vp.h"
#include "vpsched.h"
#include "bss-util/lockless.h"
// inline assembly is invisible to the instrumentation: give each use a scheduling point of its own
namespace bss {
template<typename T> inline bool vp_asmbts(T* p, T bit) { vps::point(p, sizeof(T), true); T o = *(volatile T*)p; bool r = asmbts<T>(p, bit); vps::asmDone(o != *(volatile T*)p, p, sizeof(T)); return r; }
template<typename T> inline bool vp_asmbtr(T* p, T bit) { vps::point(p, sizeof(T), true); T o = *(volatile T*)p; bool r = asmbtr<T>(p, bit); vps::asmDone(o != *(volatile T*)p, p, sizeof(T)); return r; }
template<typename T> inline T vp_atomic_xadd(volatile T* p, T v = 1) { vps::point(p, sizeof(T), true); T o = *p; T r = atomic_xadd<T>(p, v); vps::asmDone(o != *p, p, sizeof(T)); return r; }
template<typename T> inline T vp_atomic_xchg(volatile T* p, T v) { vps::point(p, sizeof(T), true); T o = *p; T r = atomic_xchg<T>(p, v); vps::asmDone(o != *p, p, sizeof(T)); return r; }
}
#define asmbts vp_asmbts
#define asmbtr vp_asmbtr
#define atomic_xadd vp_atomic_xadd
#define atomic_xchg vp_atomic_xchg
namespace vp {
inline J none() { return A(); }
inline void inv(const char* op, const J& args = A()) { VP_RECORD; ev("i", raw("[" + std::to_string(vps::self()) + ",\"" + op + "\"," + args.s + "]"), A(), A()); }
inline void ret(const J& r = A(0)) { VP_RECORD; ev("r", A(vps::self()), r, A()); }
inline void note(const char* op, const J& a, const J& r = A()) { VP_RECORD; ev(op, a, r, A()); }
struct Explorer {
  Rng g; long schedules = 0, bad = 0, maxlen = 0;
  explicit Explorer(uint64_t seed) : g(seed) { log().dedupe = true; }
  vps::Outcome one(const std::string& cfg, const std::function<void()>& body, const vps::Strategy& s, bool want = false) {
    beginRun(cfg); ++schedules;
    vps::Outcome o = vps::run(s, body, want);
    if(!o.ok) { ++bad; ev(o.what.c_str(), A(), A(), A()); }
    if(o.steps > maxlen) maxlen = o.steps;
    endRun(); return o;
  }
  // one: every single preemption; two: sampled pairs/triples of preemptions; rnd: random and PCT schedules
  void explore(const std::string& cfg, const std::function<void()>& body, long single, long pairs, long rnd) {
    long bad0 = bad; vps::Strategy s; s.kind = vps::PREEMPT;
    for(int first = 0; first < 3 && bad == bad0; ++first) {
      s.seed = first; s.pre.clear(); vps::Outcome o = one(cfg, body, s, true);
      long N = (long)o.others.size(); if(!N) continue;
      std::vector<std::pair<long, int>> cand;
      for(long i = 0; i < N; ++i) for(int k = 0; k < o.others[i]; ++k) cand.push_back({ i + 1, k });
      for(long k = 0; k < (long)cand.size() && bad == bad0; ++k) {
        if((long)cand.size() > single && (long)g.below((uint32_t)cand.size()) >= single) continue;
        s.pre = { cand[k] }; one(cfg, body, s);
      }
      if(cand.empty()) break;
      for(long k = 0; k < pairs / 3 && bad == bad0; ++k) {
        int n = g.chance(70) ? 2 : g.chance(60) ? 3 : 4; s.pre.clear();
        long a = cand[g.below((uint32_t)cand.size())].first;
        for(int j = 0; j < n; ++j) { s.pre.push_back({ a, (int)g.below(3) }); a += g.chance(60) ? 1 + g.below(12) : 1 + g.below((uint32_t)N); }
        one(cfg, body, s);
      }
    }
    long len = 40;
    for(long k = 0; k < rnd && bad == bad0; ++k) {
      vps::Strategy r; r.seed = g.next() >> 8;
      if(g.chance(50)) { r.kind = vps::RANDOM; static const int P[] = { 4, 10, 25, 50, 80 }; r.switchPct = P[g.below(5)]; }
      else { r.kind = vps::PCT; r.depth = 1 + g.below(4); r.length = len; }
      long st = one(cfg, body, r).steps; if(st > len) len = st;
    }
  }
};
}
#endif
