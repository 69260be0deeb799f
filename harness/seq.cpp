// Histories of Array / DynArray / CompactArray over several element types (C09).
#include "vp.h"
#include "bss-util/Array.h"
#include "bss-util/DynArray.h"
#include "bss-util/CompactArray.h"
using namespace bss; using namespace vp;

// Element kinds -----------------------------------------------------------------------------------
struct Counted { // relocatable by memcpy, so only counted (ARRAY_CONSTRUCT)
  static long live; int v;
  Counted() : v(0) { ++live; } Counted(int x) : v(x) { ++live; } Counted(const Counted& o) : v(o.v) { ++live; } Counted(Counted&& o) : v(o.v) { ++live; }
  ~Counted() { --live; } Counted& operator=(const Counted& o) { v = o.v; return *this; }
};
long Counted::live = 0;
struct Big { int v; char pad[13]; Big() {} Big(int x) : v(x) { memset(pad, x, sizeof pad); } };
template<class T> struct El { static int get(const T& t) { return t.val(); } static T mk(int v) { return T(v); } static const bool track = true, ctor = true; static long live() { return (long)life().live.size(); } };
template<> struct El<int> { static int get(int t) { return t; } static int mk(int v) { return v; } static const bool track = false, ctor = false; static long live() { return 0; } };
template<> struct El<uint8_t> { static int get(uint8_t t) { return t; } static uint8_t mk(int v) { return (uint8_t)v; } static const bool track = false, ctor = false; static long live() { return 0; } };
template<> struct El<Big> { static int get(const Big& t) { for(char c : t.pad) if(c != (char)t.v) return -77; return t.v; } static Big mk(int v) { return Big(v); } static const bool track = false, ctor = false; static long live() { return 0; } };
template<> struct El<Counted> { static int get(const Counted& t) { return t.v; } static Counted mk(int v) { return Counted(v); } static const bool track = true, ctor = true; static long live() { return Counted::live; } };
template<> struct El<std::string> { static int get(const std::string& t) { return t.empty() ? 0 : atoi(t.c_str() + 20); } static std::string mk(int v) { return v ? "a long enough string" + std::to_string(v) : std::string(); } static const bool track = false, ctor = true; static long live() { return 0; } };

enum Kind { KARRAY, KDYN, KCOMPACT };
template<class C> struct Info;
template<class T, class S, ARRAY_TYPE A, class Al> struct Info<Array<T, S, A, Al>> { static const Kind k = KARRAY; static const bool copy = A != ARRAY_MOVE; typedef S CT; };
template<class T, class S, ARRAY_TYPE A, class Al> struct Info<DynArray<T, S, A, Al>> { static const Kind k = KDYN; static const bool copy = A != ARRAY_MOVE; typedef S CT; };
template<class T, int I, class S, class Al> struct Info<CompactArray<T, I, S, Al>> { static const Kind k = KCOMPACT; static const bool copy = true; typedef S CT; };

template<class C, class T> struct Driver {
  typedef Info<C> In; typedef El<T> E; typedef typename In::CT CT;
  static const bool dyn = In::k != KARRAY;
  C* o[3]; char name[64];
  static size_t len(const C& c) { if constexpr(In::k == KARRAY) return c.Capacity(); else return c.Length(); }
  std::vector<int> view(int k, bool& ok) {
    C& c = *o[k]; const C& cc = c; std::vector<int> r; size_t n = len(c);
    if(n > 100000) { ok = false; return r; }
    for(size_t i = 0; i < n; ++i) r.push_back(E::get(cc[(CT)i]));
    size_t i = 0; for(auto p = c.begin(); p != c.end(); ++p, ++i) { if(i >= n || E::get(*p) != r[i]) { ok = false; break; } }
    if(i != n) ok = false;
    i = 0; for(auto p = cc.begin(); p != cc.end(); ++p, ++i) { if(i >= n || E::get(*p) != r[i]) { ok = false; break; } }
    if(i != n) ok = false;
    if(c.Empty() != (n == 0)) ok = false;
    if(n) { if(E::get(c.Front()) != r[0] || E::get(cc.Front()) != r[0] || E::get(c.Back()) != r[n - 1] || E::get(cc.Back()) != r[n - 1]) ok = false; }
    if constexpr(In::k != KCOMPACT) { auto sl = c.GetSlice(); if((size_t)sl.length != n || (n && sl.start != c.begin())) ok = false; }
    if(dyn && n > (size_t)c.Capacity()) ok = false;
    return r;
  }
  J state() {
    bool ok = true; std::vector<J> x; for(int k = 0; k < 3; ++k) x.push_back(J(view(k, ok)));
    long err = E::track ? life().errors : 0;
    return raw("{\"x\":" + arr(x).s + ",\"ok\":" + (ok ? "true" : "false") + ",\"live\":" + std::to_string(E::live() - base) + ",\"err\":" + std::to_string(err) + "}");
  }
  long base = 0;
  void begin() { life().errors = 0; life().live.clear(); base = E::live(); for(auto& p : o) p = new C(); beginRun(std::string("{\"kind\":\"") + name + "\",\"track\":" + (E::track ? "true" : "false") + "}"); }
  void end() { for(auto& p : o) delete p;
    long live = E::live() - base, err = E::track ? life().errors : 0;
    ev("End", A(), A(), raw("{\"x\":[[],[],[]],\"ok\":true,\"live\":" + std::to_string(live) + ",\"err\":" + std::to_string(err) + "}")); endRun(); }

  // operations, each logging itself
  void add(int k, int v, bool mv) { size_t r; C& c = *o[k];
    if constexpr(In::k == KCOMPACT) r = c.Add(E::mk(v));
    else if constexpr(In::copy) { if(mv) r = c.Add(E::mk(v)); else { T t(E::mk(v)); r = c.Add((const T&)t); } }
    else r = c.Add(E::mk(v));
    ev("Add", A(k + 1, v), A((int)r), state()); }
  void addConstruct(int k, int v) { C& c = *o[k]; if constexpr(In::k == KDYN) { size_t r; if constexpr(std::is_same_v<T, std::string>) r = c.AddConstruct(E::mk(v)); else r = c.AddConstruct(v); ev("Add", A(k + 1, v), A((int)r), state()); } else add(k, v, true); }
  void insert(int k, int v, int i, bool mv) { C& c = *o[k];
    if constexpr(In::copy) { if(mv) c.Insert(E::mk(v), (CT)i); else { T t(E::mk(v)); c.Insert((const T&)t, (CT)i); } } else c.Insert(E::mk(v), (CT)i);
    ev("Insert", A(k + 1, v, i), A(), state()); }
  void remove(int k, int i) { o[k]->Remove((CT)i); ev("Remove", A(k + 1, i), A(), state()); }
  void removeLast(int k) { o[k]->RemoveLast(); ev("RemoveLast", A(k + 1), A(), state()); }
  void write(int k, int i, int v) { (*o[k])[(CT)i] = E::mk(v); ev("Write", A(k + 1, i, v), A(), state()); }
  void setLength(int k, int n, int v) { C& c = *o[k]; size_t old = len(c);
    if constexpr(In::k == KARRAY) c.SetCapacity((CT)n); else c.SetLength((CT)n);
    int f = 0;
    if(!E::ctor) { f = v; size_t nn = len(c); for(size_t i = old; i < nn && i < 100000; ++i) c[(CT)i] = E::mk(v); } // new elements of simple arrays are uninitialised by contract
    ev("SetLength", A(k + 1, n, f), A(), state()); }
  void reserve(int k, int n) { C& c = *o[k]; if constexpr(dyn) { if(n > 0) c.SetCapacity((CT)n); else n = 0; ev("Reserve", A(k + 1, n), A((int)c.Capacity()), state()); } }
  void discard(int k, int n, int v) { if constexpr(In::k == KARRAY) { C& c = *o[k]; size_t was = len(c); if((size_t)n == was) return; c.SetCapacityDiscard((CT)n); int f = E::ctor ? 0 : v; if(!E::ctor) for(size_t i = 0; i < len(c); ++i) c[(CT)i] = E::mk(v); ev("SetAll", A(k + 1, J(std::vector<int>(n, f))), A(), state()); } }
  void clear(int k) { o[k]->Clear(); ev("Clear", A(k + 1), A(), state()); }
  void setAll(int k, const std::vector<int>& v, int how) {
    if constexpr(In::copy) {
      C& c = *o[k]; size_t tmpLive = 0; (void)tmpLive;
      { std::vector<T> t; t.reserve(v.size() + 1); for(int x : v) t.push_back(E::mk(x));
        Slice<const T, CT> sl(t.data(), (CT)t.size());
        switch(how) {
        case 0: c.Set(t.data(), (CT)t.size()); break;
        case 1: c.Set(sl); break;
        case 2: c = sl; break;
        case 3: if constexpr(dyn) { delete o[k]; o[k] = new C(sl); } else c.Set(sl); break;
        default: { delete o[k];
          switch(v.size()) {
          case 0: o[k] = new C(std::initializer_list<T>{}); break;
          case 1: o[k] = new C(std::initializer_list<T>{ t[0] }); break;
          case 2: o[k] = new C(std::initializer_list<T>{ t[0], t[1] }); break;
          case 3: o[k] = new C(std::initializer_list<T>{ t[0], t[1], t[2] }); break;
          default: o[k] = new C(); for(auto& x : t) o[k]->Add(x); } } }
      }
      ev("SetAll", A(k + 1, J(v)), A(), state());
    }
  }
  void copy(int k, int p, bool ctor) { if constexpr(In::copy) { if(ctor && k != p) { C* n = new C((const C&)*o[p]); delete o[k]; o[k] = n; } else *o[k] = (const C&)*o[p]; ev("Copy", A(k + 1, p + 1), A(), state()); } }
  void move(int k, int p, bool ctor) { if(k == p) return; if(ctor) { C* n = new C(std::move(*o[p])); delete o[k]; o[k] = n; } else *o[k] = std::move(*o[p]); ev("Move", A(k + 1, p + 1), A(), state()); }
  void append(int k, int p) { if constexpr(In::copy && In::k != KCOMPACT) { *o[k] += *o[p]; ev("Append", A(k + 1, p + 1), A(), state()); } }
  void concat(int k, int p, int q) { if constexpr(In::copy && In::k != KCOMPACT) { { C t(*o[p] + *o[q]); *o[k] = std::move(t); } ev("Concat", A(k + 1, p + 1, q + 1), A(), state()); } }
  std::vector<int> some(Rng& r, int maxn) { std::vector<int> v; int n = r.below(maxn + 1); for(int i = 0; i < n; ++i) v.push_back(1 + r.below(9)); return v; }

  void randomRun(Rng& r, int steps, int maxlen) {
    begin();
    for(int i = 0; i < steps; ++i) {
      int k = r.chance(60) ? 0 : r.below(3), p = r.below(3), q = r.below(3), v = 1 + r.below(9); int n = (int)len(*o[k]);
      int w = r.below(100);
      if(n >= maxlen && w < 40) w = 45 + r.below(12);
      if(w < 18) add(k, v, r.chance(50)); else if(w < 24) addConstruct(k, v);
      else if(w < 44) insert(k, v, r.chance(30) ? 0 : r.chance(30) ? n : r.below(n + 1), r.chance(50));
      else if(w < 57) { if(n) remove(k, r.chance(25) ? 0 : r.chance(25) ? n - 1 : r.below(n)); }
      else if(w < 61) { if(n) removeLast(k); }
      else if(w < 66) { if(n) write(k, r.below(n), v); }
      else if(w < 72) setLength(k, r.below(maxlen), v);
      else if(w < 75) reserve(k, r.below(maxlen + 4));
      else if(w < 77) clear(k);
      else if(w < 78) discard(k, r.below(maxlen), v);
      else if(w < 83) { int how = r.below(5); setAll(k, some(r, how == 4 ? 3 : maxlen / 2), how); }
      else if(w < 88) copy(k, p, r.chance(50));
      else if(w < 93) move(k, p, r.chance(50));
      else if(w < 97) { if(n + len(*o[p]) <= (size_t)maxlen * 2) append(k, p); }
      else { if(len(*o[q]) + len(*o[p]) <= (size_t)maxlen * 2) concat(k, p, q); }
    }
    end();
  }
  void systematic(int N) { // every insert/remove position at every length, from an array grown by Add
    for(int n = 0; n <= N; ++n) for(int i = 0; i <= n; ++i) {
      begin(); for(int k = 0; k < n; ++k) add(0, k + 1, k & 1);
      insert(0, 90, i, i & 1); remove(0, i); if(n) { remove(0, i < n ? i : n - 1); add(0, 91, true); } copy(1, 0, n & 1); move(2, 0, i & 1); append(1, 2); setLength(2, i, 5); setLength(2, n, 6);
      end();
    }
  }
  void all(Rng& r, long runs, const char* nm) { snprintf(name, sizeof name, "%s", nm); systematic(9); for(long i = 0; i < runs; ++i) randomRun(r, 10 + r.below(50), r.chance(20) ? 40 : 12); }
};
template<class C, class T> void go(const char* nm, Rng& r, long runs, int& ix, int k, int n) { if((ix++ % n) == k) { Driver<C, T> d; d.all(r, runs, nm); } }

int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng r(a.seed); int k = 0, n = 1; sscanf(a.part.c_str(), "%d/%d", &k, &n);
  long runs = a.budget ? a.budget : 100; int ix = 0;
#define G(T, ...) go<__VA_ARGS__, T>(#__VA_ARGS__, r, runs, ix, k, n)
  G(int, DynArray<int>);
  G(Counted, DynArray<Counted, size_t, ARRAY_CONSTRUCT>);
  G(Tracked, DynArray<Tracked, size_t, ARRAY_SAFE>);
  G(MoveOnly, DynArray<MoveOnly, size_t, ARRAY_MOVE>);
  G(int, Array<int>);
  G(Counted, Array<Counted, uint32_t, ARRAY_CONSTRUCT>);
  G(Tracked, Array<Tracked, size_t, ARRAY_SAFE>);
  G(MoveOnly, Array<MoveOnly, size_t, ARRAY_MOVE>);
  G(int, CompactArray<int, 4, uint32_t>);
  G(Big, CompactArray<Big, 3, uint32_t>);
  G(uint8_t, CompactArray<uint8_t, 19, uint64_t>);
  G(std::string, DynArray<std::string, uint32_t, ARRAY_SAFE>);
  G(Big, DynArray<Big, uint16_t>);
  G(std::string, Array<std::string, size_t, ARRAY_SAFE>);
  return finish();
}
