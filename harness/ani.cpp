// C28: keyframe animations and their players, for spec/AniTrace.tla.  Times in quarters, smooth values in eighths.
#include "vp.h"
#include <memory>
#include <math.h>
#include "bss-util/bss_util.h"
#include "bss-util/Serializer.h"
#include "bss-util/algo.h"
#include "bss-util/Animation.h"
#include "bss-util/Str.h"
using namespace bss; using namespace vp;
static double tm(int t) { return t / 4.0; }
static int it(double t) { double x = t * 4; return x == floor(x) && fabs(x) < 1e6 ? (int)x : 999999; }
static int i8(double v) { double x = v * 8; return x == floor(x) && fabs(x) < 1e8 ? (int)x : 99999999; }
struct Obj {
  std::vector<int> D, S; JA I; int id = 0;
  void disc(int v) { D.push_back(v); }
  void discS(Str v) { D.push_back(atoi(v.c_str())); }
  void smooth(float v) { S.push_back(i8(v)); }
  int open(int v) { I.push_back(A(1, v, ++id)); return id; }
  void close(int x) { I.push_back(A(0, 0, x)); }
  void clear() { D.clear(); S.clear(); I.clear(); }
};
template<class V> struct K;
template<> struct K<int> { typedef AniData<int> DT; static int mk(int v) { return v; } static int un(int v) { return v; } template<class D> using ST = AniStateDiscrete<Obj, D, int, &Obj::disc>; };
template<> struct K<Str> { typedef AniData<Str, void, ARRAY_SAFE> DT; static Str mk(int v) { return Str(std::to_string(v).c_str()); } static int un(const Str& v) { return atoi(v.c_str()); } template<class D> using ST = AniStateDiscrete<Obj, D, Str, &Obj::discS>; };
typedef AniDataSmooth<float> SM; typedef AniDataInterval<int> IV;
template<class V> struct Go {
  typedef typename K<V>::DT DT; typedef Animation<DT, SM, IV> AN;
  typedef AniState<Obj, AN, typename K<V>::template ST<DT>, AniStateSmooth<Obj, SM, float, &Obj::smooth>, AniStateInterval<Obj, IV, int, int, &Obj::open, &Obj::close>> PL;
  static J frames(AN& a) {
    JA d, s, i; for(auto& f : a.template Get<DT>().Frames()) d.push_back(A(it(f.time), K<V>::un(f.value))); for(auto& f : a.template Get<SM>().Frames()) s.push_back(A(it(f.time), (int)f.value)); for(auto& f : a.template Get<IV>().Frames()) i.push_back(A(it(f.time), f.value, it(f.data)));
    return A(arr(d), arr(s), arr(i)); }
  static J st(AN& a, PL* p) {
    JA d, s, i; for(auto& f : a.template Get<DT>().Frames()) d.push_back(A(it(f.time), K<V>::un(f.value))); for(auto& f : a.template Get<SM>().Frames()) s.push_back(A(it(f.time), (int)f.value)); for(auto& f : a.template Get<IV>().Frames()) i.push_back(A(it(f.time), f.value, it(f.data)));
    double lp = a.GetLoop(); std::string r = "{\"len\":" + std::to_string(it(a.GetLength())) + ",\"loop\":" + std::to_string(lp < 0 ? -1 : it(lp)) + ",\"time\":" + std::to_string(p ? it(p->GetTime()) : 0) + ",\"init\":" + std::to_string(p ? (int)std::get<0>(p->GetValues()) : 0);
    r += ",\"d\":" + arr(d).s + ",\"s\":" + arr(s).s + ",\"i\":" + arr(i).s + ",\"be\":" + A(it(a.template Get<DT>().Begin()), it(a.template Get<DT>().End())).s + "}";
    return raw(r); }
  static void run(Rng& g) {
    beginRun("{\"kind\":\"ani\"}");
    std::unique_ptr<AN> a(new AN()); std::unique_ptr<PL> p; Obj o; int f = g.below(4); // relative interpolation needs a frame at zero
    a->template Get<SM>().SetInterpolation(f == 0 ? &SM::NoInterpolate : f == 1 ? &SM::LerpInterpolate : f == 2 ? &SM::NoInterpolateRel : &SM::LerpInterpolateRel);
    ev("SetF", A(f), A(), st(*a, 0));
    int sl = -1; // last smooth frame
    auto fr = [&](typename DT::FRAME* out, int t, int v) { out->time = tm(t); out->value = K<V>::mk(v); };
    auto nextS = [&] { if(sl < 0) return f >= 2 || g.chance(40) ? 0 : 1 << g.below(4); return sl + (g.chance(15) ? 0 : 1 << g.below(4)); };
    auto edit = [&] {
      switch(g.below(12)) {
      case 0: case 1: case 2: { int t = g.below(14), v = g.below(100); size_t r; if(g.chance(50)) r = a->template Add<DT>(tm(t), K<V>::mk(v)); else { typename DT::FRAME x; fr(&x, t, v); r = a->template Add<DT>(x); } ev("Add", A("d", t, v), A((int)r), st(*a, 0)); break; }
      case 3: case 4: case 5: { int t = nextS(), v = (int)g.below(200) - 100; sl = t; size_t r = a->template Add<SM>(tm(t), (float)v); ev("Add", A("s", t, v), A((int)r), st(*a, 0)); break; }
      case 6: case 7: case 8: { int t = g.below(14), v = g.below(100), d = g.below(10); size_t r; IV::FRAME x = { tm(t), v, tm(d) };
        if(g.chance(50)) r = a->template Add<IV>(x); else if(g.chance(30)) { d = 0; r = a->template Add<IV>(tm(t), v); } else { r = a->template Get<IV>().Add(tm(t), v, tm(d)); a->SetLength(lenset); } ev("Add", A("i", t, v, d), A((int)r), st(*a, 0)); break; }
      case 9: { int w = g.below(2); size_t n = w ? a->template Get<IV>().Frames().length : a->template Get<DT>().Frames().length; int k = g.below((int)n + 2); bool r = w ? a->template Remove<IV>(k) : a->template Remove<DT>(k); ev("Remove", A(w ? "i" : "d", k), A(r), st(*a, 0)); break; }
      case 10: { int n = g.below(5); int t = 0; JA q; if(g.chance(50)) { std::vector<IV::FRAME> b; for(int i = 0; i < n; ++i) { t += g.below(5); int v = g.below(100), d = g.below(9); b.push_back(IV::FRAME{ tm(t), v, tm(d) }); q.push_back(A(t, v, d)); } if(g.chance(50)) a->template Get<IV>().Set(b.data(), n); else if(g.chance(50)) a->template Get<IV>() = IV(b.data(), n); else { IV y(b.data(), n); a->template Get<IV>() = y; } a->SetLength(lenset); ev("Set", A("i", arr(q)), A(), st(*a, 0)); }
        else { std::vector<typename DT::FRAME> b; for(int i = 0; i < n; ++i) { t += g.below(5); int v = g.below(100); b.emplace_back(); fr(&b.back(), t, v); q.push_back(A(t, v)); } a->template Get<DT>().Set(b.data(), n); a->SetLength(lenset); ev("Set", A("d", arr(q)), A(), st(*a, 0)); } break; }
      default: { switch(g.below(5)) { case 0: { std::unique_ptr<AN> b(new AN(*a)); a = std::move(b); break; } case 1: { std::unique_ptr<AN> b(new AN(std::move(*a))); a = std::move(b); break; } case 2: { AN b; b.template Add<IV>(IV::FRAME{ 9, 9, 9 }); b = *a; *a = b; break; } case 3: { AN b; b.template Add<DT>(7.0, K<V>::mk(3)); b = std::move(*a); *a = std::move(b); break; } default: { std::unique_ptr<AN> b(new AN()); *b = *a; a = std::move(b); } } ev("Renew", A(), A(), st(*a, 0)); } } };
    lenset = -1.0;
    for(int n = g.below(14); n > 0; --n) edit();
    for(int rounds = 1 + g.below(3); rounds > 0; --rounds) {
      if(g.chance(30)) { int t = g.chance(50) ? -1 : (int)g.below(24); lenset = t < 0 ? -1.0 : tm(t); a->SetLength(lenset); ev("SetLength", A(t), A(), st(*a, 0)); }
      if(g.chance(60) || a->GetLoop() >= a->GetLength()) { int L = it(a->GetLength()), t = L > 0 && g.chance(70) ? (int)g.below(L) : -1; a->SetLoop(t < 0 ? -1.0 : tm(t)); ev("SetLoop", A(t), A(), st(*a, 0)); }
      o.clear(); o.id = 0; int init = (int)g.below(100); p.reset(new PL(&o, a.get())); p->SetValues(typename PL::VALUES((float)init)); ev("Player", A(init), A(), st(*a, p.get()));
      for(int n = 1 + g.below(16); n > 0; --n) {
        o.clear(); int c = g.below(20);
        if(c < 15) { int d = g.chance(25) ? 0 : g.chance(80) ? (int)g.below(6) : (int)g.below(60); bool r = p->Interpolate(tm(d)); ev("Interpolate", A(d), A(r, o.D, o.S, arr(o.I)), st(*a, p.get())); }
        else if(c == 15) { p->Reset(); ev("Reset", A(), A(arr(o.I)), st(*a, p.get())); }
        else if(c < 18) { int t = g.below(24); p->SetTime(tm(t)); ev("SetTime", A(t), A(arr(o.I)), st(*a, p.get())); }
        else if(c == 18) { int v = g.below(50); p->SetValues(typename PL::VALUES((float)v)); ev("SetValues", A(v), A(), st(*a, p.get())); }
      }
      o.clear(); p.reset(); ev("Destroy", A(), A(arr(o.I)), st(*a, 0));
      for(int n = g.below(3); n > 0; --n) edit();
    }
    endRun();
  }
  static double lenset;
};
template<class V> double Go<V>::lenset = -1.0;
// progress along an easing curve: with the same curve for time and value it is the identity; with time even it is the value curve
static void ease(Rng& g) {
  beginRun("{\"kind\":\"ani\"}"); typedef AniLinearData<float> LD; typedef AniFrame<float, LD> FR; Obj o;
  for(int i = 0; i < 30; ++i) {
    int x = (int)g.below(100), y = (int)g.below(100), j = g.below(9), p1 = g.below(9), p2 = g.below(9), init = g.below(50); bool even = g.chance(50), rel = g.chance(30); size_t cur = rel ? 1 : g.below(2);
    FR f[2] = { { 0.0, (float)x, LD() }, { 1.0, (float)y, LD() } }; LD d = even ? LD(1.0 / 3, p1 / 8.0, 2.0 / 3, p2 / 8.0) : g.chance(40) ? LD() : LD(p1 / 8.0, p1 / 8.0, p2 / 8.0, p2 / 8.0); f[cur].data = d; if(!cur) f[0].value = (float)y;
    float v = rel ? LD::LinearInterpolateRel(f, 2, cur, j / 8.0, (float)init) : LD::LinearInterpolate(f, 2, cur, j / 8.0, (float)init);
    ev("Ease", A(cur ? x : init, y, j, p1, p2, even, rel ? init : 0), A((int)floor(v * 4096 + 0.5)), 0);
  }
  endRun();
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int k = 0, n = 1; if(!a.part.empty()) sscanf(a.part.c_str(), "%d/%d", &k, &n); Rng g(a.seed * 7151 + k);
  for(long i = 0; i < a.budget; ++i) { if(i % 40 == 0) ease(g); if(g.chance(70)) Go<int>::run(g); else Go<Str>::run(g); }
  return finish();
}
