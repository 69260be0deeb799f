// Histories of the run-time-width array, scoped variable arrays and multi-dimensional views (C09, spec/ArbTrace.tla).
#include "vp.h"
#include <memory>
#include "bss-util/Array.h"
#include "bss-util/DynArray.h"
using namespace vp; using namespace bss;
typedef std::vector<int> Rec;
static Rec rrec(Rng& g, int w) { Rec r; for(int i = 0; i < w; ++i) r.push_back(g.below(256)); return r; }
template<int N> struct Bytes { uint8_t b[N]; };
template<class CT> struct Drv {
  typedef ArbitraryArray<CT> C; C* o[2];
  J state() {
    bool ok = true; JA x; std::vector<int> w;
    for(auto p : o) { const C& c = *p; JA s; if(c.Length() > 100000) { ok = false; x.push_back(A()); w.push_back(0); continue; }
      for(CT i = 0; i < c.Length(); ++i) { Rec r; const uint8_t* d = (const uint8_t*)c[i]; for(CT k = 0; k < c.Element(); ++k) r.push_back(d[k]); s.push_back(J(r)); ok = ok && (*p)[i] == d && p->Get(i) == d && c.Get(i) == d && &p->template Get<uint8_t>(i) == d; }
      if(c.Empty() != (c.Length() == 0)) ok = false;
      x.push_back(arr(s)); w.push_back(c.Element()); }
    return A(arr(x), J(w), ok);
  }
  static void fill(void* d, const Rec& r) { for(size_t i = 0; i < r.size(); ++i) ((uint8_t*)d)[i] = (uint8_t)r[i]; }
  CT addB(C& c, const Rec& r) { // Add takes its bytes from a typed item at least as wide as an element
    if(r.size() <= 1) { Bytes<1> b; fill(&b, r); return c.Add(b); } if(r.size() <= 2) { Bytes<2> b; fill(&b, r); return c.Add(b); }
    if(r.size() <= 3) { Bytes<3> b; fill(&b, r); return c.Add(b); } if(r.size() <= 5) { Bytes<5> b; fill(&b, r); return c.Add(b); } Bytes<16> b; fill(&b, r); return c.Add(b); }
  void run(Rng& g, int steps) {
    int w[2]; for(int k = 0; k < 2; ++k) { w[k] = 1 + g.below(9); o[k] = new C((CT)(g.chance(50) ? 0 : g.below(5)), (CT)w[k]); }
    beginRun("{\"kind\":\"ArbitraryArray\",\"w\":[" + std::to_string(w[0]) + "," + std::to_string(w[1]) + "]}");
    for(int s = 0; s < steps; ++s) {
      int k = g.chance(65) ? 0 : 1; C& c = *o[k]; int n = c.Length(), W = c.Element(); int x = g.below(100); if(x < 40 && n > 10) x = 45;
      if(x < 40) { Rec r = rrec(g, W); CT i = addB(c, r); ev("Add", A(k + 1, r), A((int)i), state()); }
      else if(x < 52) { if(n) { int i = g.below(n); c.Remove((CT)i); ev("Remove", A(k + 1, i), A(), state()); } }
      else if(x < 56) { if(n) { c.RemoveLast(); ev("RemoveLast", A(k + 1), A(), state()); } }
      else if(x < 62) { if(n) { int i = g.below(n); Rec r = rrec(g, W); fill(c[(CT)i], r); ev("Write", A(k + 1, i, r), A(), state()); } }
      else if(x < 68) { int m = g.below(12); Rec r = rrec(g, W); c.SetLength((CT)m); for(int i = n; i < m; ++i) fill(c[(CT)i], r); ev("Length", A(k + 1, m, r), A(), state()); }
      else if(x < 70) { c.Clear(); ev("Clear", A(k + 1), A(), state()); }
      else if(x < 80) { int v = 1 + g.below(9); c.SetElement((CT)v); ev("Width", A(k + 1, v), A(), state()); }
      else if(x < 90) { int v = 1 + g.below(9), m = g.below(6); std::vector<uint8_t> raw; JA recs; for(int i = 0; i < m; ++i) { Rec r = rrec(g, v); for(int b : r) raw.push_back(b); recs.push_back(J(r)); } raw.push_back(0);
        if(v == 4 && g.chance(50)) { std::unique_ptr<uint32_t[]> t(new uint32_t[m + 1]); memcpy(t.get(), raw.data(), m * 4); c.template SetElement<uint32_t>((const uint32_t*)t.get(), (CT)m); } else c.SetElement((const void*)raw.data(), (CT)v, (CT)m);
        ev("Set", A(k + 1, v, arr(recs)), A(), state()); }
      else if(x < 95) { int p = g.chance(20) ? k : 1 - k; if(g.chance(50) && p != k) { C* t = new C((const C&)*o[p]); delete o[k]; o[k] = t; } else *o[k] = (const C&)*o[p]; ev("Copy", A(k + 1, p + 1), A(), state()); }
      else { int p = 1 - k; if(g.chance(50)) { C* t = new C(std::move(*o[p])); delete o[k]; o[k] = t; } else *o[k] = std::move(*o[p]); ev("Move", A(k + 1, p + 1), A(), state()); }
    }
    JA e0; std::vector<int> ws; for(auto p : o) { ws.push_back(p->Element()); delete p; } ev("End", A(), A(), A(A(A(), A()), J(ws), true)); endRun();
  }
};
static J idle() { return A(A(A(), A()), A(1, 1), true); }
template<class T> static void scopedT(size_t n, int tag, long& len, long& sum) { VARARRAY(T, v, n); len = (long)v.Length(); const T* b = v.begin(); for(auto& x : v) x = T(tag); for(size_t i = 0; i < n; ++i) if(v[i].val() == tag && &v[i] == b + i) ++sum; if(v.end() - v.begin() != (long)n || (n && (&v.Front() != b || &v.Back() != b + n - 1))) sum = -1; }
static void scoped(Rng& g) {
  life().errors = 0; life().live.clear(); size_t n = g.chance(10) ? 2000 + g.below(9000) : g.below(40); int tag = 1 + g.below(9); long len = -1, same = 0; 
  long inside = 0; { struct Probe { long& r; Probe(long& x) : r(x) {} } p(inside); scopedT<Tracked>(n, tag, len, same); }
  ev("Scoped", A((int)n, (int)n), A((int)len, (int)same, (int)life().live.size(), (int)life().errors, (int)n), idle());
}
static void multi(Rng& g) {
  std::vector<int> d, c; int dims = 2 + g.below(3); for(int i = 0; i < dims; ++i) d.push_back(1 + g.below(6)), c.push_back(g.below(d.back()));
  int vol = 1; for(int x : d) vol *= x; std::vector<int> cells(vol); for(int i = 0; i < vol; ++i) cells[i] = i; long ix = -1; int* at = 0;
  if(dims == 2) { ArrayMultiRef<int, int, int> m(cells.data(), d[0], d[1]); ix = m.GetIndice(c[0], c[1]); at = &m(c[0], c[1]); }
  else if(dims == 3) { ArrayMultiRef<int, int, int, int> m(cells.data(), d[0], d[1], d[2]); ix = m.GetIndice(c[0], c[1], c[2]); at = &m(c[0], c[1], c[2]); }
  else { ArrayMultiRef<int, int, int, int, int> m(cells.data(), d[0], d[1], d[2], d[3]); ix = m.GetIndice(c[0], c[1], c[2], c[3]); at = &m(c[0], c[1], c[2], c[3]); }
  ev("Multi", A(J(d), J(c)), A((int)ix, (int)(at == cells.data() + ix)), idle());
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed); long n = a.budget ? a.budget : 100;
  for(long i = 0; i < n; ++i) {
    if(i & 1) Drv<size_t>().run(g, 10 + g.below(40)); else if(i & 2) Drv<uint32_t>().run(g, 10 + g.below(40)); else Drv<uint16_t>().run(g, 10 + g.below(40));
    if(i % 10 == 0) { beginRun("{\"kind\":\"scoped\",\"w\":[1,1]}"); for(int k = 0; k < 6; ++k) scoped(g); for(int k = 0; k < 10; ++k) multi(g); endRun(); }
  }
  return finish();
}
