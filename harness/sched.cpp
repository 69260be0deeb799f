// C23: Scheduler and HighPrecisionTimer under a virtual clock.  All times are logged in half milliseconds.
#include <time.h>
#include <stdint.h>
static uint64_t g_ns = 5000000000ull;
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { t->tv_sec = g_ns / 1000000000ull; t->tv_nsec = g_ns % 1000000000ull; return 0; }
#include "vp.h"
#include <memory>
#include <functional>
#include "bss-util/Scheduler.h"
using namespace bss; using namespace vp;
static const uint64_t HALF = 500000;
struct Driver;
static Driver* D = 0;
double fire(int id);
struct Cb { int id; Tracked t; Cb(int i = -5) : id(i), t(i) {} double operator()() const { t.chk(); if(t.v != id) ++life().errors; double r = fire(id); t.chk(); if(t.v != id) ++life().errors; return r; } };
template<class F> struct Mk;
template<> struct Mk<Cb> { static Cb mk(int id) { return Cb(id); } };
template<> struct Mk<std::function<double()>> { static std::function<double()> mk(int id) { auto p = std::make_shared<Cb>(id); int pad[8] = { id }; return [p, pad]() { return (pad[0] == p->id) ? (*p)() : -1.0; }; } };
template<> struct Mk<double(*)()> { static double zero() { return fire(0); } static double(*mk(int))() { return &zero; } };
struct Driver { virtual double onFire(int id) = 0; };
double fire(int id) { return D->onFire(id); }
template<class F, class ST> struct R : Driver {
  typedef Scheduler<F, ST> S;
  S* o[2]; HighPrecisionTimer* tm; Rng& g; int upd = -1, next = 1, maxid; int lastT = 0, adds = 0;
  R(Rng& gg) : g(gg) {}
  J state() { return raw("{\"n\":[" + std::to_string((int)o[0]->Length()) + "," + std::to_string((int)o[1]->Length()) + "],\"err\":" + std::to_string(life().errors) + ",\"t\":" + std::to_string((long)(tm->GetTimeNS() / HALF)) + ",\"tok\":" + (tm->GetTime() == (double)tm->GetTimeNS() / 1000000.0 ? "true" : "false") + "}"); }
  J idle() { return raw("{\"n\":[-1,-1],\"err\":" + std::to_string(life().errors) + ",\"t\":" + std::to_string((long)(tm->GetTimeNS() / HALF)) + ",\"tok\":true}"); }
  int ticks() { return g.chance(20) ? 0 : g.chance(30) ? 2 * (int)g.below(4) : g.chance(70) ? (int)g.below(12) : (int)g.below(60); }
  int nid() { return std::is_same<F, double(*)()>::value ? 0 : next++; }
  void add(int k, bool inside) {
    int id = nid(), t = g.chance(30) ? lastT : ticks(); lastT = t;
    F f(Mk<F>::mk(id));
    if(g.chance(50)) o[k]->Add(t / 2.0, f); else o[k]->Add(t / 2.0, std::move(f));
    ++adds;
    ev("Add", A(k + 1, id, t), A(), inside ? idle() : state());
  }
  double onFire(int id) override {
    if(upd < 0) { ev("FireOutside", A(id), A(), idle()); return 0; }
    ev("Fire", A(upd + 1, id), A(), idle());
    int n = adds < 30 && g.chance(40) ? 1 + g.below(g.chance(20) ? 12 : 2) : 0;
    for(int i = 0; i < n; ++i) add(g.chance(85) ? upd : 1 - upd, true);
    if(g.chance(20)) { int d = g.below(8); g_ns += d * HALF; ev("Tick", A(d), A(), idle()); } // time passing while a callback runs is not seen until the next update
    int r = g.chance(50) ? 0 : g.chance(15) ? -(int)(1 + g.below(9)) : 1 + (int)g.below(20);
    ev("FireEnd", A(upd + 1, id, r), A(), idle());
    return r / 2.0;
  }
  void run() {
    life().errors = 0; life().live.clear(); D = this; g_ns = 5000000000ull + (uint64_t)g.below(1000) * HALF;
    bool ctor = g.chance(40) && !std::is_same<F, double(*)()>::value;
    tm = new HighPrecisionTimer();
    if(ctor) { F f(Mk<F>::mk(next++)); o[0] = new S(3.0, f); o[1] = new S(1.5, Mk<F>::mk(next++)); } else { o[0] = new S(); o[1] = new S(); }
    beginRun(std::string("{\"pre\":") + (ctor ? "true" : "false") + "}");
    if(ctor) ev("Pre", A(1, 6, 2, 3), A(), state());
    int steps = 15 + g.below(30);
    for(int i = 0; i < steps; ++i) {
      int k = g.below(2);
      switch(g.below(12)) {
      case 0: case 1: case 2: case 3: if(o[k]->Length() < 40 && adds < 60) add(k, false); break;
      case 4: case 5: { int d = g.chance(12) ? -(int)g.below(20) : ticks(); g_ns += (int64_t)d * (int64_t)HALF; ev("Tick", A(d), A(), state()); break; }
      default: { upd = k; ev("Begin", A(k + 1), A(), idle()); o[k]->Update(); upd = -1; ev("Done", A(k + 1), A(), state()); break; }
      case 9: if(g.chance(60)) { int p = 1 - k; if(g.chance(60)) { delete o[k]; o[k] = new S(*o[p]); ev("Copy", A(k + 1, p + 1), A(), state()); }
              else { delete o[k]; o[k] = new S(std::move(*o[p])); ev("Move", A(k + 1, p + 1), A(), state()); } } break;
      case 10: { int w = g.below(5); if(w < 2) { double d = tm->Update(); ev("TUpdate", A(), A((long)(d * 2), (long)(tm->GetDelta() * 2), (long)(tm->GetDeltaNS() / HALF)), state()); }
                 else if(w == 2) { int x = ticks(); if(g.chance(50)) tm->Override((uint64_t)x * HALF); else tm->Override(x / 2.0); ev("TOver", A(x), A((long)(tm->GetDelta() * 2), (long)(tm->GetDeltaNS() / HALF)), state()); }
                 else if(w == 3) { tm->ResetTime(); ev("TReset", A(), A(), state()); } else { tm->ResetDelta(); ev("TResetDelta", A(), A((long)(tm->GetDelta() * 2), (long)(tm->GetDeltaNS() / HALF)), state()); } break; }
      }
    }
    delete o[0]; delete o[1]; delete tm;
    ev("End", A(), A((int)life().live.size()), raw("{\"n\":[0,0],\"err\":" + std::to_string(life().errors) + ",\"t\":0,\"tok\":true}"));
    endRun();
  }
};
template<class F, class ST> void runs(Rng& g, long b) { for(long i = 0; i < b; ++i) { R<F, ST> r(g); r.run(); } }
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 23 + atoi(a.part.c_str()) * 104729); long b = a.budget ? a.budget : 40;
  runs<Cb, size_t>(g, b); runs<Cb, uint8_t>(g, b / 2); runs<std::function<double()>, size_t>(g, b); runs<double(*)(), uint32_t>(g, b / 2);
  return finish();
}
