// Histories of variants (PART 0), counted and owning pointers (PART 1), delegates and stored calls (PART 2).
#include "vp.h"
#include <memory>
#include <tuple>
#include "bss-util/bss_util.h"
#include "bss-util/Variant.h"
#include "bss-util/RefCounter.h"
#include "bss-util/SmartPtr.h"
#include "bss-util/Delegate.h"
using namespace vp; using namespace bss;
#ifndef PART
#define PART 0
#endif
#if PART == 0
struct alignas(32) Big { double d; char pad[40]; Big(int v = 0) : d(v) { memset(pad, (char)v, sizeof pad); } Big& operator=(const Big& o) { d = o.d; memcpy(pad, o.pad, sizeof pad); return *this; } Big(const Big& o) { d = o.d; memcpy(pad, o.pad, sizeof pad); } bool ok() const { for(char c : pad) if(c != (char)(int)d) return false; return true; } };
struct Tr2 : Tracked { std::string* s; Tr2() : s(new std::string("0")) {} Tr2(int v) : Tracked(v), s(new std::string(std::to_string(v))) {} Tr2(const Tr2& o) : Tracked(o), s(new std::string(*o.s)) {} Tr2(Tr2&& o) : Tracked(std::move(o)), s(new std::string(*o.s)) { *o.s = "-1"; }
  ~Tr2() { delete s; s = 0; } Tr2& operator=(const Tr2& o) { Tracked::operator=(o); *s = std::string(*o.s); return *this; } Tr2& operator=(Tr2&& o) { Tracked::operator=(std::move(o)); if(this != &o) { *s = *o.s; *o.s = "-1"; } return *this; } bool ok() const { return *s == std::to_string(v); } };
template<class... Ts> struct Driver {
  typedef Variant<Ts...> V; std::unique_ptr<V> v[4];
  J obs(V& x, bool& ok) { switch(x.tag()) { case -1: return A(-1, 0); 
    default: { J r; bool hit = false; get<Ts...>(x, r, ok, hit); if(!hit) ok = false; return r; } } }
  static J valOf(int x, bool&) { return x; } static J valOf(long long x, bool&) { return (int)x; } static J valOf(double x, bool&) { return (int)x; } static J valOf(char x, bool&) { return (int)x; } static J valOf(const Tracked& t, bool&) { return t.val(); } static J valOf(const Tr2& t, bool& ok) { if(!t.ok()) ok = false; return t.val(); } static J valOf(const Big& b, bool& ok) { if(!b.ok()) ok = false; return (int)b.d; }
  template<class T, class... R> void get(V& x, J& r, bool& ok, bool& hit) {
    if(x.template is<T>()) { if(hit) ok = false; hit = true; const V& cx = x; T& ref = x.template get<T>(); if(&cx.template get<T>() != &ref || V::template type<T>() != x.tag() || !V::template contains<T>()) ok = false; if((uintptr_t)&ref % alignof(T)) ok = false; r = A(x.tag(), valOf(ref, ok)); }
    if constexpr(sizeof...(R) > 0) get<R...>(x, r, ok, hit);
  }
  J st() { bool ok = true; std::string s; for(auto& p : v) { if(!s.empty()) s += ","; s += p ? obs(*p, ok).s : "[-1,0]"; } long live = life().live.size(); return raw("{\"x\":[" + s + "],\"ok\":" + (ok ? "true" : "false") + ",\"err\":" + std::to_string(life().errors) + ",\"live\":" + std::to_string(live) + "}"); }
  template<class T, int K> void storeT(Rng& g, int i, int val) {
    T tmp(val);
    int how = g.below(5);
    if(how == 0) *v[i] = tmp; else if(how == 1) *v[i] = T(val); else if(how == 2) { v[i].reset(); v[i].reset(new V(tmp)); } else if(how == 3) { v[i].reset(); v[i].reset(new V(T(val))); } else { const T& c = tmp; *v[i] = c; }
  }
  template<int K, class T, class... R> void store(Rng& g, int t, int i, int val) { if(K == t) storeT<T, K>(g, i, val); else if constexpr(sizeof...(R) > 0) store<K + 1, R...>(g, t, i, val); }
  template<int K, class T, class... R> void tset(int t, int i) { if(K == t) v[i]->template typeset<T>(); else if constexpr(sizeof...(R) > 0) tset<K + 1, R...>(t, i); }
  template<int K, class T, class... R> void write(int t, int i, int val) { if(K == t) v[i]->template get<T>() = T(val); else if constexpr(sizeof...(R) > 0) write<K + 1, R...>(t, i, val); }
  void run(Rng& g, const char* name, int steps) {
    life() = Life(); for(auto& p : v) p.reset(new V());
    beginRun(std::string("{\"name\":\"") + name + "\"}"); const int NT = sizeof...(Ts);
    for(int s = 0; s < steps; ++s) {
      int k = g.below(100), i = g.below(4), j = g.below(4), t = g.below(NT), val = g.range(0, 100);
      if(k < 30) { store<0, Ts...>(g, t, i, val); { ev("Store", A(i + 1, t, val), A(), st()); } }
      else if(k < 55) { if(g.chance(30) && i != j) { v[i].reset(new V((const V&)*v[j])); } else if(g.chance(30) && i != j) { v[i].reset(); v[i].reset(new V(*v[j])); } else if(g.chance(50)) *v[i] = *v[j]; else *v[i] = (const V&)*v[j]; ev("Copy", A(i + 1, j + 1), A(), st()); }
      else if(k < 75) { if(i == j) continue; if(g.chance(40)) { v[i].reset(); v[i].reset(new V(std::move(*v[j]))); } else *v[i] = std::move(*v[j]); ev("Move", A(i + 1, j + 1), A(), st()); }
      else if(k < 83) { tset<0, Ts...>(t, i); ev("TypeSet", A(i + 1, t), A(), st()); }
      else if(k < 90) { v[i].reset(); v[i].reset(new V()); ev("Reset", A(i + 1), A(), st()); }
      else if(v[i]->tag() >= 0) { t = v[i]->tag(); write<0, Ts...>(t, i, val); ev("Write", A(i + 1, t, val), A(), st()); }
    }
    for(auto& p : v) p.reset();
    ev("End", A(), A(), st()); endRun();
  }
};
struct NumDriver { void run(Rng& g, int steps) { typedef Variant<int, char, double, short, long long> V; life() = Life(); V v; beginRun("{\"name\":\"num\"}"); int cur = 0;
    // tags 1 and 3 are the tracked ones of the specification: use 0, 2 and 4 only
    for(int s = 0; s < steps; ++s) { int val = g.range(0, 100), k = g.below(3); if(g.chance(50)) { if(k == 0) v = val; else if(k == 1) v = (double)val; else v = (long long)val; cur = val;
        ev("Store", A(1, v.tag(), val), A(), st(v.tag(), cur)); } else if(v.tag() >= 0) { int r = g.chance(50) ? (int)v.convert<double>() : (int)v.convert<long long>(); ev("Conv", A(1), A(r), st(v.tag(), cur)); } }
    endRun(); }
  J st(int t, int c) { return raw("{\"x\":[[" + std::to_string(t) + "," + std::to_string(c) + "],[-1,0],[-1,0],[-1,0]],\"ok\":true,\"err\":0,\"live\":0}"); } };
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 22); int n = (int)a.budget;
  for(int it = 0; it < n; ++it) { int s = g.range(8, 60); Driver<int, Tracked, double, Tr2, Big>().run(g, "mix", s); Driver<char, Tr2, long long, Tracked>().run(g, "mix2", s); Driver<Big, Tracked, int>().run(g, "mix3", s); Driver<int, Tr2>().run(g, "two", s); NumDriver().run(g, s); }
  return finish();
}
#elif PART == 1
static std::map<const void*, int> ids; static std::set<int> aliveIds; static int nextId = 1; static long errs = 0;
static char* arena = (char*)malloc(1 << 24); static size_t apos = 0; // never reused, so an address names an object for ever
struct Mark { Mark() { ids[this] = nextId; aliveIds.insert(nextId++); } ~Mark() { if(!aliveIds.erase(ids[this])) ++errs; }
  static void* operator new(size_t n) { apos = (apos + 63) / 64 * 64; void* p = arena + apos; apos += n; return p; } static void operator delete(void* p) {} };
struct Obj : Mark, RefCounter { ref_ptr<Obj> next; };
struct Own : Mark { int x = 7; };
static J st(const JA& p) { JA al; for(int i : aliveIds) al.push_back(i); return raw("{\"p\":" + arr(p).s + ",\"alive\":" + arr(al).s + ",\"err\":" + std::to_string(errs) + "}"); }
static void refs(Rng& g, int steps) {
  ids.clear(); aliveIds.clear(); nextId = 1; errs = 0; apos = 0; 
  beginRun("{\"kind\":\"ref\"}");
  { std::unique_ptr<ref_ptr<Obj>> p[4]; for(auto& x : p) x.reset(new ref_ptr<Obj>());
  std::vector<Obj*> objs(1, (Obj*)0); std::map<int, int> hand;
  auto S = [&]() { JA q; for(auto& x : p) { Obj* o = *x; q.push_back(o ? ids[(Mark*)o] : 0); } return st(q); };
  for(int s = 0; s < steps; ++s) {
    int k = g.below(100), i = g.below(4), j = g.below(4);
    std::vector<int> al(aliveIds.begin(), aliveIds.end()); int o = al.empty() ? 0 : al[g.below(al.size())];
    if(k < 15 || !o) { objs.push_back(new Obj()); ev("New", A(), A(), S()); }
    else if(k < 35) { if(g.chance(15)) o = 0; if(g.chance(30)) p[i].reset(new ref_ptr<Obj>(objs[o])); else *p[i] = objs[o]; ev("Assign", A(i + 1, o), A(), S()); }
    else if(k < 50) { if(i != j && g.chance(40)) { p[i].reset(new ref_ptr<Obj>(*p[j])); } else *p[i] = (const ref_ptr<Obj>&)*p[j]; ev("Copy", A(i + 1, j + 1), A(), S()); }
    else if(k < 65) { if(i != j && g.chance(40)) { p[i].reset(new ref_ptr<Obj>(std::move(*p[j]))); } else *p[i] = std::move(*p[j]); ev("Move", A(i + 1, j + 1), A(), S()); }
    else if(k < 75) { Obj* q = *p[i]; int qi = q ? ids[(Mark*)q] : 0; if(qi && qi <= o) continue; objs[o]->next = *p[i]; ev("Link", A(o, i + 1), A(), S()); }
    else if(k < 85) { if(!*p[i]) continue; if(g.chance(50)) *p[i] = (*p[i])->next; else { Obj* nx = (*p[i])->next; *p[i] = nx; } ev("Advance", A(i + 1), A(), S()); }
    else if(k < 93) { int n = g.chance(70) ? 1 : g.range(1, 3); int r = n == 1 ? objs[o]->Grab() : objs[o]->Grab(n); hand[o] += n; ev("Grab", A(o, n), A(r), S()); }
    else { std::vector<int> h; for(auto& x : hand) if(x.second > 0) h.push_back(x.first); if(h.empty()) continue; o = h[g.below(h.size())]; --hand[o]; int r = objs[o]->Drop(); ev("Drop", A(o), A(r), S()); }
  }
  for(int i = 0; i < 4; ++i) { *p[i] = (Obj*)0; ev("Assign", A(i + 1, 0), A(), S()); } }
  endRun();
}
static void owners(Rng& g, int steps) {
  ids.clear(); aliveIds.clear(); nextId = 1; errs = 0; apos = 0;
  beginRun("{\"kind\":\"own\"}");
  typedef OwnerPtr<Own> P; std::unique_ptr<P> p[4]; for(auto& x : p) x.reset(new P()); std::map<int, Own*> objs;
  auto S = [&]() { JA q; for(auto& x : p) { Own* o = *x; q.push_back(o ? ids[(Mark*)o] : 0); } return st(q); };
  for(int s = 0; s < steps; ++s) {
    int k = g.below(100), i = g.below(4), j = g.below(4);
    if(k < 30) { if(g.chance(40)) { p[i].reset(); Own* o = new Own(); objs[nextId - 1] = o; p[i].reset(new P(o)); } else { Own* o = new Own(); objs[nextId - 1] = o; *p[i] = o; } ev("OwnNew", A(i + 1), A(), S()); }
    else if(k < 55) { if(i != j && g.chance(40)) { p[i].reset(); if(g.chance(50)) p[i].reset(new P((const P&)*p[j])); else p[i].reset(new P(*p[j])); } else *p[i] = (const P&)*p[j]; ev("OwnCopy", A(i + 1, j + 1), A(), S()); }
    else if(k < 80) { if(i != j && g.chance(40)) { p[i].reset(); p[i].reset(new P(std::move(*p[j]))); } else *p[i] = std::move(*p[j]); ev("OwnMove", A(i + 1, j + 1), A(), S()); }
    else if(k < 90) { std::vector<int> al(aliveIds.begin(), aliveIds.end()); if(al.empty()) continue; int o = al[g.below(al.size())]; if((Own*)*p[i] == objs[o]) continue; *p[i] = *objs[o]; ev("OwnBorrow", A(i + 1, o), A(), S()); }
    else { p[i].reset(); p[i].reset(new P()); ev("OwnReset", A(i + 1), A(), S()); }
  }
  for(int i = 0; i < 4; ++i) { p[i].reset(); p[i].reset(new P()); ev("OwnReset", A(i + 1), A(), S()); }
  endRun();
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 221); int n = (int)a.budget;
  for(int it = 0; it < n; ++it) { int s = g.range(8, 70); refs(g, s); owners(g, s); }
  return finish();
}
#else
static JA calls; // invocations of the current step: [target, [args]]
static int note(int t, std::initializer_list<int> args) { JA a; int r = t * 1000, k = 0; for(int x : args) { a.push_back(x); r += ++k * x; } calls.push_back(A(t, arr(a))); return r; }
static int f1(int a, int b) { return note(1, { a, b }); }
static int f2(Tracked a, int b) { return note(2, { a.val(), b }); }
static void v3(int a) { note(3, { a }); }
static int f4() { return note(4, {}); }
static int f9(Tracked t) { return note(9, { t.val() }); }
struct Cls { int base; int m(int a, int b) { return note(base, { a, b }); } int c(int a, int b) const { return note(base + 1, { a, b }); } int t(Tracked x, int b) { return note(base + 4, { x.val(), b }); } };
static int fc(Cls* c, int a, int b) { return note(c->base + 2, { a, b }); }
static int fcc(const Cls* c, int a, int b) { return note(c->base + 3, { a, b }); }
static J st() { J o = arr(calls); calls.clear(); return raw("{\"out\":" + o.s + ",\"err\":" + std::to_string(life().errors) + ",\"live\":" + std::to_string(life().live.size()) + "}"); }
typedef Delegate<int, int, int> D2;
struct Any { virtual ~Any() {} virtual int call() { return 0; } };
template<class F> struct Hold : Any { F f; template<class... A> Hold(A&&... a) : f(std::forward<A>(a)...) {} int call() override { return f(); } };
template<class F> struct HoldD : Any { F f; template<class... A> HoldD(A&&... a) : f(std::forward<A>(a)...) {} };
static void scope(Rng& g, int depth, int& nd) { // nested deferred calls run at the end of their scope, innermost first
  int i = ++nd; int a = g.range(0, 9), b = g.range(0, 9);
  switch(g.below(3)) {
  case 0: { auto d = defer<int, int, int>(&f1, (int)a, (int)b); ev("Defer", A(i, 1, A(a, b)), A(), st()); if(depth && g.chance(60)) scope(g, depth - 1, nd); break; }
  case 1: { Cls c{ 10 }; auto d = defer<int, int, int>(D2::From<Cls, &Cls::m>(&c), (int)a, (int)b); ev("Defer", A(i, 10, A(a, b)), A(), st()); if(depth && g.chance(60)) scope(g, depth - 1, nd); break; }
  default: { auto d = defer<int, Tracked>(&f9, Tracked(a)); ev("Defer", A(i, 9, A(a)), A(), st()); if(depth && g.chance(60)) scope(g, depth - 1, nd); break; }
  }
  ev("EndScope", A(i), A(), st());
}
static void run(Rng& g, int steps) {
  life() = Life(); calls.clear(); beginRun("{}");
  Cls ca{ 20 }, cb{ 40 }; D2 d[3]; std::function<int(int, int)> l1 = [](int a, int b) { return note(60, { a, b }); }, l2 = [&](int a, int b) { return note(61, { a, b }); };
  std::unique_ptr<Any> st5[6]; bool bound[6] = {};
  for(int s = 0; s < steps; ++s) {
    int k = g.below(100), i = g.below(3), j = g.below(3), a = g.range(0, 9), b = g.range(0, 9); Cls* c = g.chance(50) ? &ca : &cb;
    if(k < 25) { int t; switch(g.below(7)) { case 0: d[i] = D2::From<Cls, &Cls::m>(c); t = c->base; break; case 1: d[i] = D2::From<Cls, &Cls::c>(c); t = c->base + 1; break; case 2: d[i] = D2::FromC<Cls, &fc>(c); t = c->base + 2; break; case 3: d[i] = D2::FromC<Cls, &fcc>((const Cls*)c); t = c->base + 3; break; case 4: d[i] = D2(l1); t = 60; break; case 5: d[i] = D2(l2); t = 61; break; default: d[i] = D2::FromC<&f1>(); t = 1; }
      bound[i] = true; ev("Bind", A(i + 1, t, A()), A(), st()); if(t != 1) { bool em = d[i].IsEmpty(); ev("Empty", A(i + 1), A(em), st()); } }
    else if(k < 35) { if(g.chance(50)) d[i] = d[j]; else { D2 x(d[j]); d[i] = x; } bound[i] = bound[j]; ev("CopyB", A(i + 1, j + 1), A(), st()); }
    else if(k < 40) { d[i] = D2(); bound[i] = false; ev("Unbind", A(i + 1), A(), st()); bool em = d[i].IsEmpty(); ev("Empty", A(i + 1), A(em), st()); }
    else if(k < 60) { if(!bound[i]) continue; const D2& dd = d[i]; int r = dd(a, b); ev("Invoke", A(i + 1, A(a, b)), A(r), st()); }
    else if(k < 75) { int q = 3 + i; st5[q].reset(); int t; switch(g.below(5)) {
        case 0: st5[q].reset(new Hold<StoreFunction<int, int, int>>(&f1, (int)a, (int)b)); t = 1; break;
        case 1: st5[q].reset(new Hold<StoreFunction<int, Tracked, int>>(&f2, Tracked(a), (int)b)); t = 2; break;
        case 2: st5[q].reset(new Hold<StoreDelegate<int, int, int>>(D2::From<Cls, &Cls::m>(c), (int)a, (int)b)); t = c->base; break;
        case 3: st5[q].reset(new Hold<StoreDelegate<int, Tracked, int>>(Delegate<int, Tracked, int>::From<Cls, &Cls::t>(c), Tracked(a), (int)b)); t = c->base + 4; break;
        default: st5[q].reset(new Hold<StoreFunction<int>>(&f4)); t = 4; }
      bound[q] = true; ev("Bind", A(q + 1, t, t == 4 ? A() : A(a, b)), A(), st()); }
    else if(k < 90) { int q = 3 + i; if(!bound[q]) continue; int r = st5[q]->call(); ev("Invoke", A(q + 1, A()), A(r), st()); }
    else { int nd = 0; scope(g, 3, nd); }
  }
  for(int q = 0; q < 6; ++q) { st5[q].reset(); if(q < 3) d[q] = D2(); ev("Unbind", A(q + 1), A(), st()); }
  int nd = 0; scope(g, 1, nd);
  endRun();
}
int main(int argc, char** argv) { Args a = parse(argc, argv); Rng g(a.seed * 7919 + 222); int n = (int)a.budget; for(int it = 0; it < n; ++it) run(g, g.range(8, 50)); return finish(); }
#endif
