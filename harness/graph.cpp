// C17: Graph (edits, matrices, breadth-first search) and push-relabel / circulation.
#include "vp.h"
#include <memory>
#include "bss-util/Graph.h"
using namespace bss; using namespace vp;
static long liveEdges = 0;
template<class T> struct CountAlloc { typedef T value_type; typedef void policy_type; template<class U> using rebind = CountAlloc<U>; CountAlloc() = default; template<class U> CountAlloc(const CountAlloc<U>&) {}
  T* allocate(size_t n, T* p = nullptr, size_t = 0) { ++liveEdges; return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t = 0) { --liveEdges; memset((void*)p, 0xDD, sizeof(T)); free(p); } };
static bool edgeInt(const int* e) { return *e != 0; }
static std::vector<int> visited; static int stopAt = -1;
template<class CT> bool visit(CT c) { visited.push_back((int)c); return (int)c == stopAt || visited.size() > 500; }
template<class E, class V, class CT, class AL> struct D {
  typedef Graph<E, V, CT, AL> C; C* o[2]; Rng& g; int nextId = 1;
  static constexpr bool VE = std::is_void<E>::value, VV = std::is_void<V>::value, CNT = std::is_same<AL, CountAlloc<Edge<E, CT>>>::value;
  D(Rng& r) : g(r) {}
  template<class X> static int ed(X* e) { if constexpr(VE) return 0; else return e->data; }
  template<class X> static int nd(X& n) { if constexpr(VV) return 0; else return n.data; }
  J gs(int k, bool& ok) {
    C& c = *o[k]; JA ns; auto& n = c.GetNodes(); int cnt = 0, ne = 0; CT prev = (CT)-1; std::vector<int> idx;
    for(CT i = n.Front(); i != (CT)-1 && cnt < 300; n.Next(i)) {
      ++cnt; idx.push_back(i); JA out, in; Edge<E, CT>* p = 0; int lim = 0;
      for(auto e = c[i].to; e && lim < 500; p = e, e = e->next, ++lim) { if(e->from != i || e->prev != p) ok = false; out.push_back(A((int)e->to, ed(e))); ++ne; }
      p = 0; for(auto e = c[i].from; e && lim < 1000; p = e, e = e->alt.next, ++lim) { if(e->to != i || e->alt.prev != p) ok = false; in.push_back(A((int)e->from, ed(e))); }
      ns.push_back(A((int)i, nd(c[i]), arr(out), arr(in))); prev = i;
    }
    if(prev != c.Back() || (cnt == 0 && c.Front() != (CT)-1) || (int)c.NumNodes() != cnt || (int)c.NumEdges() != ne || c.Capacity() < c.NumNodes()) ok = false;
    std::vector<int> i2; for(auto it = c.begin(); it != c.end(); ++it) i2.push_back((int)it.cur); if(i2 != idx) ok = false;
    return arr(ns);
  }
  J state() { bool ok = true; J a = gs(0, ok), b = gs(1, ok); return raw("{\"g\":[" + a.s + "," + b.s + "],\"ok\":" + (ok ? "true" : "false") + ",\"live\":" + std::to_string(CNT ? (long)liveEdges : -1L) + "}"); }
  std::vector<CT> ids(int k) { std::vector<CT> v; auto& n = o[k]->GetNodes(); for(CT i = n.Front(); i != (CT)-1; n.Next(i)) v.push_back(i); return v; }
  void addNode(int k) { if constexpr(VV) { CT i = o[k]->AddNode(); ev("AddNode", A(k + 1, 0), A((int)i), state()); } else { int v = g.below(9); CT i; if(v == 0) i = g.chance(50) ? o[k]->AddNode() : o[k]->AddNode((V*)0); else { V x = v; i = o[k]->AddNode(&x); } ev("AddNode", A(k + 1, v), A((int)i), state()); } }
  void addEdge(int k, CT a, CT b) { int id = 0; if constexpr(VE) { if(g.chance(50)) o[k]->AddEdge(a, b); else o[k]->AddEdge(a, b, 0); } else { id = nextId++; E x = id; o[k]->AddEdge(a, b, &x); } ev("AddEdge", A(k + 1, (int)a, (int)b, id), A(), state()); }
  void matrix(int k) { // build from a matrix
    int n = g.below(5); std::vector<int> m, nv; JA jm; for(int i = 0; i < n * n; ++i) { int e = g.chance(40) ? (VE ? 1 : nextId++) : 0; m.push_back(e); } for(int i = 0; i < n; ++i) nv.push_back(VV ? 0 : 1 + g.below(9));
    if constexpr(VE) { delete o[k]; ev("Reset", A(k + 1), A(), J(0)); std::vector<char> c(m.begin(), m.end()); c.push_back(0); o[k] = new C((CT)n, c.data(), 0); }
    else { if(g.chance(50)) { delete o[k]; ev("Reset", A(k + 1), A(), J(0)); o[k] = new C(); } m.push_back(0); nv.push_back(0); o[k]->template FromMatrix<edgeInt>((CT)n, m.data(), nv.data()); m.pop_back(); nv.pop_back(); }
    ev("FromMatrix", A(k + 1, n, J(m), J(nv), VE), A(), state());
  }
  void toMatrix(int k) {
    typedef typename std::conditional<VE, char, E>::type ED; C& c = *o[k]; int n = c.NumNodes(); ED* m = (ED*)malloc(n * n * sizeof(ED) + 1); for(int i = 0; i < n * n; ++i) m[i] = -7; int r;
    std::vector<int> nv; if constexpr(VV) r = c.ToMatrix(m, 0); else { V* v = (V*)malloc(n * sizeof(V) + 1); for(int i = 0; i < n; ++i) v[i] = -9; r = c.ToMatrix(m, v); nv.assign(v, v + n); free(v); }
    if(VV) nv.assign(n, 0);
    std::vector<int> mm(m, m + n * n); free(m); ev("ToMatrix", A(k + 1, VE), A(r, J(mm), J(nv), (int)c.ToMatrix(0, 0)), state());
  }
  void run(int steps, int maxn) {
    liveEdges = 0; o[0] = new C(); o[1] = new C(); beginRun("{\"cnt\":" + std::string(CNT ? "true" : "false") + "}");
    if(g.chance(30)) { delete o[1]; int n = g.below(5); if constexpr(VV) o[1] = new C((CT)n); else { if(g.chance(50)) o[1] = new C((CT)n); else { std::vector<V> z(n + 1, 0); o[1] = new C((CT)n, z.data()); } } std::vector<int> m(n * n, 0), nv(n, 0); ev("FromMatrix", A(2, n, J(m), J(nv), true), A(), state()); }
    for(int s = 0; s < steps; ++s) {
      int k = g.chance(70) ? 0 : 1; auto v = ids(k); C& c = *o[k];
      switch(g.below(22)) {
      case 0: case 1: case 2: if((int)v.size() < maxn) addNode(k); break;
      default: if(v.size() && (int)c.NumEdges() < 3 * maxn) addEdge(k, v[g.below(v.size())], v[g.below(v.size())]); break;
      case 10: case 11: case 12: { if(v.empty()) break; CT i = v[g.below(v.size())]; auto e = g.chance(50) ? c[i].to : c[i].from; if(!e) break; bool outl = e == c[i].to; int n = g.below(3); while(n-- && (outl ? e->next : e->alt.next)) e = outl ? e->next : e->alt.next; int f = e->from, t = e->to, d = ed(e); c.RemoveEdge(e); ev("RemoveEdge", A(k + 1, f, t, d), A(), state()); break; }
      case 13: case 14: if(v.size()) { CT i = v[g.below(v.size())]; c.RemoveNode(i); ev("RemoveNode", A(k + 1, (int)i), A(), state()); } break;
      case 15: if(g.chance(40)) matrix(k); break;
      case 16: if(v.size() <= 8) toMatrix(k); break;
      case 17: case 18: case 19: { if(v.empty()) break; CT r = v[g.below(v.size())]; stopAt = g.chance(30) ? (int)v[g.below(v.size())] : -1; visited.clear();
        if(g.chance(50)) BreadthFirstGraph<C, visit<CT>>(c, r); else { CT* q = (CT*)malloc(v.size() * sizeof(CT)); BreadthFirstGraph<C, visit<CT>>(c, r, q); free(q); }
        ev("BFS", A(k + 1, (int)r, stopAt), A(J(visited)), state()); break; }
      case 20: { int p = 1 - k; if(!g.chance(40)) break; if(g.chance(50)) { C* n = new C(std::move(*o[p])); delete o[k]; o[k] = n; } else *o[k] = std::move(*o[p]); delete o[p]; o[p] = new C(); ev("Move", A(k + 1, p + 1), A(), state()); break; }
      }
    }
    delete o[0]; delete o[1]; ev("End", A(), A((int)(CNT ? liveEdges : 0)), J(0)); endRun();
  }
};
// ---- flows ------------------------------------------------------------------------------------
using internal::__edge_MaxFlow; using internal::__edge_LowerBound; using internal::__vertex_Demand;
template<class G> J flowState(G& c, std::map<void*, int>& id) { // [[from,to,cap,flow,id]...] in list order of nodes
  JA es, ns; auto& n = c.GetNodes(); for(auto i = n.Front(); i != (typename G::CT_)-1; n.Next(i)) { ns.push_back(J((int)i)); for(auto e = c[i].to; e; e = e->next) es.push_back(A((int)e->from, (int)e->to, e->data.capacity, e->data.flow)); }
  return raw("{\"n\":" + arr(ns).s + ",\"e\":" + arr(es).s + "}");
}
template<class CT> void maxflow(Rng& g, long b) {
  typedef Graph<__edge_MaxFlow<void>, void, CT, PolymorphicAllocator<Edge<__edge_MaxFlow<void>, CT>, BlockPolicy>> G;
  for(long r = 0; r < b; ++r) {
    G c; std::map<void*, int> id; int n = g.chance(60) ? 2 + g.below(4) : 2 + g.below(9), ex = g.chance(40) ? g.below(4) : 0; std::vector<CT> v; for(int i = 0; i < n + ex; ++i) v.push_back(c.AddNode());
    for(int i = 0; i < ex; ++i) { int k = g.below(v.size()); c.RemoveNode(v[k]); v.erase(v.begin() + k); } if(g.chance(30) && ex) v.push_back(c.AddNode());
    int m = g.below(g.chance(50) ? 2 * n : 4 * n + 1); bool loops = g.chance(30), layered = g.chance(40); int mx = g.chance(50) ? 4 : 100;
    for(int i = 0; i < m; ++i) { int a = g.below(v.size()), bb = g.below(v.size()); if(a == bb && !loops) continue; if(layered && a > bb) std::swap(a, bb); __edge_MaxFlow<void> e = { 0, (int)g.below(mx) }; c.AddEdge(v[a], v[bb], &e); }
    int s = layered ? 0 : g.below(v.size()), t = layered ? (int)v.size() - 1 : g.below(v.size()); if(s == t) t = (s + 1) % v.size();
    beginRun("{\"kind\":\"flow\"}"); ev("Net", A((int)v[s], (int)v[t]), A(), flowState(c, id));
    MaxFlow_PushRelabel(c, v[s], v[t]); ev("MaxFlow", A((int)v[s], (int)v[t]), A(), flowState(c, id)); endRun();
  }
}
template<class G> J circState(G& c) {
  JA es, ns; auto& n = c.GetNodes(); for(auto i = n.Front(); i != (typename G::CT_)-1; n.Next(i)) { ns.push_back(A((int)i, c[i].data.demand)); for(auto e = c[i].to; e; e = e->next) es.push_back(A((int)e->from, (int)e->to, e->data.capacity, e->data.flow, e->data.d.data.lowerbound)); }
  return raw("{\"n\":" + arr(ns).s + ",\"e\":" + arr(es).s + "}");
}
static void circ(Rng& g, long b) {
  typedef __edge_MaxFlow<__edge_LowerBound<void>> EG; typedef __vertex_Demand<void> VG; typedef Graph<EG, VG> G;
  for(long r = 0; r < b; ++r) {
    G c; int n = 2 + g.below(5); std::vector<uint16_t> v; std::vector<int> dem(n, 0); int m = 1 + g.below(3 * n); std::vector<std::array<int, 4>> es;
    // a random flow decides demands, so that most instances are feasible
    for(int i = 0; i < m; ++i) { int a = g.below(n), bb = g.below(n); if(a == bb) continue; int low = g.chance(40) ? g.below(3) : 0, f = low + g.below(4), cap = f + g.below(4); if(g.chance(8)) { low = cap > 0 ? cap : 0; } es.push_back({ a, bb, low, cap }); if(g.chance(90)) { dem[a] -= f; dem[bb] += f; } }
    if(g.chance(25)) { int a = g.below(n), bb = g.below(n); int d = 1 + g.below(3); dem[a] += d; dem[bb] -= d; } // may become infeasible
    if(g.chance(10)) dem[g.below(n)] += 1; // demands that do not sum to zero
    for(int i = 0; i < n; ++i) { VG x; x.demand = dem[i]; v.push_back(c.AddNode(&x)); }
    for(auto& e : es) { EG x; memset(&x, 0, sizeof x); x.capacity = e[3]; x.d.data.lowerbound = e[2]; c.AddEdge(v[e[0]], v[e[1]], &x); }
    beginRun("{\"kind\":\"circ\"}"); ev("CNet", A(), A(), circState(c));
    LowerBound_Circulation(c); ev("Lower", A(), A(), circState(c));
    uint16_t s, t; int tot = Circulation_MaxFlow(c, s, t); ev("Circ", A(), A((int)s, (int)t, tot), circState(c));
    MaxFlow_PushRelabel(c, s, t); ev("CFlow", A((int)s, (int)t), A(), circState(c));
    c.RemoveNode(s); c.RemoveNode(t); ev("CDone", A((int)s, (int)t), A(), circState(c)); endRun();
  }
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 17 + atoi(a.part.c_str()) * 104729); long b = a.budget ? a.budget : 40;
#if PART == 0
  for(long i = 0; i < b; ++i) {
    int maxn = g.chance(60) ? 4 + g.below(4) : 14;
    { D<int, int, uint16_t, CountAlloc<Edge<int, uint16_t>>> d(g); d.run(20 + g.below(40), maxn); }
    { D<int, int, uint8_t, PolymorphicAllocator<Edge<int, uint8_t>, BlockPolicy>> d(g); d.run(20 + g.below(40), maxn); }
    { D<void, void, uint16_t, CountAlloc<Edge<void, uint16_t>>> d(g); d.run(20 + g.below(40), maxn); }
    { D<void, void, uint32_t, CountAlloc<Edge<void, uint32_t>>> d(g); d.run(20 + g.below(30), maxn); }
  }
#else
  maxflow<uint16_t>(g, 4 * b); maxflow<uint8_t>(g, b); maxflow<uint32_t>(g, b); circ(g, 3 * b);
#endif
  return finish();
}
