// Histories of DisjointSet and its minimum spanning tree construction (C16).
#include "vp.h"
#include <memory>
#include "bss-util/DisjointSet.h"
using namespace bss; using namespace vp;
template<class T> struct D {
  typedef DisjointSet<T> S; S* o[2];
  std::string reps(int k) { std::string s = "["; for(T i = 0; i < o[k]->Length(); ++i) s += (i ? "," : "") + std::to_string((int)o[k]->Find(i)); return s + "]"; }
  J state() { return raw("{\"n\":[" + std::to_string((int)o[0]->Length()) + "," + std::to_string((int)o[1]->Length()) + "],\"sets\":[" + std::to_string((int)o[0]->NumSets()) + "," + std::to_string((int)o[1]->NumSets()) + "],\"rep\":[" + reps(0) + "," + reps(1) + "]}"); }
  void step(Rng& g) {
    int k = g.below(2); S& s = *o[k]; int n = (int)s.Length(), w = g.below(100); int x = g.below(n + 1), y = g.below(n + 1);
    if(w < 45) { if(g.chance(75) && n) { x = (int)s.Find((T)g.below(n)); y = (int)s.Find((T)g.below(n)); } bool r = s.Union((T)x, (T)y); ev("Union", A(k + 1, x, y), A(r), state()); }
    else if(w < 52) { if(n) { x = g.below(n); ev("Find", A(k + 1, x), A((int)s.Find((T)x)), state()); } }
    else if(w < 58) ev("IsName", A(k + 1, x), A(s.IsSetName((T)x)), state());
    else if(w < 66) ev("Count", A(k + 1, x), A((int)s.NumElements((T)x)), state());
    else if(w < 76) { if(n) { x = g.below(n); int c = (int)s.NumElements((T)x); std::vector<int> v; int got; if(g.chance(50)) { auto p = s.GetElements((T)x); for(int i = 0; i < c; ++i) v.push_back((int)p[i]); got = (int)s.GetElements((T)x, (T*)0); } else { std::vector<T> buf(c + 1); got = (int)s.GetElements((T)x, buf.data()); for(int i = 0; i < got && i <= c; ++i) v.push_back((int)buf[i]); } ev("Elements", A(k + 1, x), A(v, got), state()); } }
    else if(w < 78) { int m = g.below(4); if(n + m < 20) { s.AddSets((T)m); ev("Add", A(k + 1, m), A(), state()); } }
    else if(w < 79) { s.Reset(); ev("Reset", A(k + 1), A(), state()); }
    else if(w < 81) { if(g.chance(50)) s = *o[1 - k]; else { delete o[k]; o[k] = new S(*o[1 - k]); } ev("Copy", A(k + 1, 2 - k), A(), state()); }
    else if(w < 83) { if(g.chance(50)) s = std::move(*o[1 - k]); else { delete o[k]; o[k] = new S(std::move(*o[1 - k])); } ev("Move", A(k + 1, 2 - k), A(), state()); }
    else { int v = 1 + g.below(8), m = g.below(15); struct E { int u, v, w; }; std::vector<E> es; for(int i = 0; i < m; ++i) es.push_back({ (int)g.below(v), (int)g.below(v), (int)g.below(g.chance(50) ? 4 : 50) });
      std::stable_sort(es.begin(), es.end(), [](const E& a, const E& b) { return a.w < b.w; }); std::vector<std::pair<T, T>> in; std::string je = "["; for(auto& e : es) { in.push_back({ (T)e.u, (T)e.v }); je += (in.size() > 1 ? ",[" : "[") + std::to_string(e.u) + "," + std::to_string(e.v) + "," + std::to_string(e.w) + "]"; }
      auto t = S::MinSpanningTree((T)v, in.begin(), in.end()); std::string jt = "["; for(size_t i = 0; i < t.Capacity(); ++i) jt += (i ? ",[" : "[") + std::to_string((int)t[(T)i].first) + "," + std::to_string((int)t[(T)i].second) + "]";
      ev("MST", A(k + 1, v, raw(je + "]")), A(raw(jt + "]")), state()); }
  }
  void runs(Rng& g, long b) { for(long r = 0; r < b; ++r) { int n[2]; for(int k = 0; k < 2; ++k) { n[k] = g.below(g.chance(50) ? 6 : 18); o[k] = new S((T)n[k]); } beginRun("{\"n\":[" + std::to_string(n[0]) + "," + std::to_string(n[1]) + "]}"); for(int i = 0; i < 60; ++i) step(g); delete o[0]; delete o[1]; endRun(); } }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 31); long b = a.budget ? a.budget : 20;
  D<size_t>().runs(g, b); D<uint32_t>().runs(g, b); D<uint16_t>().runs(g, b); D<uint8_t>().runs(g, b);
  return finish();
}
