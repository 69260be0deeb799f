// Histories of BinaryHeap, PriorityQueue and PriorityHeap (C15).
#include "vp.h"
#include <memory>
#include <array>
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
using namespace bss; using namespace vp;
struct KV { int k, v; };
static char cmpKV(const KV& a, const KV& b) { return (a.k > b.k) - (a.k < b.k); }
static char cmpKVi(const KV& a, const KV& b) { return (a.k < b.k) - (a.k > b.k); }
struct TK : Tracked { int k; TK() : k(0) {} TK(int kk, int v) : Tracked(v), k(kk) {} TK(const TK& o) : Tracked(o), k(o.k) {} TK(TK&& o) : Tracked(std::move(o)), k(o.k) {} TK& operator=(const TK& o) { Tracked::operator=(o); k = o.k; return *this; } TK& operator=(TK&& o) { Tracked::operator=(std::move(o)); k = o.k; return *this; } };
static char cmpTK(const TK& a, const TK& b) { a.chk(); b.chk(); return (a.k > b.k) - (a.k < b.k); }
typedef std::vector<std::pair<int, int>> Seq;
static std::string js(const Seq& s) { std::string r = "["; for(size_t i = 0; i < s.size(); ++i) r += (i ? ",[" : "[") + std::to_string(s[i].first) + "," + std::to_string(s[i].second) + "]"; return r + "]"; }
static J jit(std::pair<int, int> p) { return A(p.first, p.second); }
template<class D> struct Base {
  D& d() { return *static_cast<D*>(this); } int nextv = 1; bool life_ = false;
  J state() { bool ok = true; Seq w[2]; int n[2]; for(int k = 0; k < 2; ++k) w[k] = d().walk(k, n[k], ok);
    return raw("{\"n\":[" + std::to_string(n[0]) + "," + std::to_string(n[1]) + "],\"x\":[" + js(w[0]) + "," + js(w[1]) + "],\"ok\":" + (ok ? "true" : "false") + ",\"live\":" + std::to_string((int)life().live.size()) + ",\"err\":" + std::to_string((int)life().errors) + "}"); }
  void runs(Rng& g, const char* nm, bool array, bool lf, long b) {
    for(long r = 0; r < b; ++r) {
      life() = Life(); nextv = 1; d().make();
      beginRun(std::string("{\"kind\":\"") + nm + "\",\"array\":" + (array ? "true" : "false") + ",\"life\":" + (lf ? "true" : "false") + "}");
      int mode = g.below(3); int dom = mode == 0 ? 3 : mode == 1 ? 12 : 1000; int ins = 35 + g.below(25); int steps = mode == 2 ? 120 : 60;
      for(int i = 0; i < steps; ++i) d().step(g, g.below(2), (int)g.below(dom), i > steps * 2 / 3 ? 20 : ins);
      d().unmake(); endRun();
    }
  }
};
// element access
struct EKV { typedef KV T; static T mk(int k, int v) { return KV{ k, v }; } static std::pair<int, int> get(const T& t) { return { t.k, t.v }; } };
struct EKVi { typedef KV T; static T mk(int k, int v) { return KV{ -k, v }; } static std::pair<int, int> get(const T& t) { return { -t.k, t.v }; } };
struct ETK { typedef TK T; static T mk(int k, int v) { return TK(k, v); } static std::pair<int, int> get(const T& t) { return { t.k, t.val() }; } };
template<class H, class E> struct BH : Base<BH<H, E>> {
  H* o[2]; typedef typename E::T T;
  Seq walk(int k, int& n, bool& ok) { Seq r, r2; H& h = *o[k]; n = (int)h.Length(); const H& c = h; for(auto p = c.begin(); p != c.end(); ++p) r.push_back(E::get(*p)); for(size_t i = 0; i < (size_t)n; ++i) r2.push_back(E::get(h.Get(i))); if(r != r2 || h.Empty() != r.empty()) ok = false; return r; }
  void make() { o[0] = new H(); o[1] = new H(); }
  void unmake() { delete o[0]; delete o[1]; }
  void step(Rng& g, int k, int p, int ins) {
    H& h = *o[k]; int w = g.below(100), n = (int)h.Length();
    if(w < ins) { int v = this->nextv++; if(g.chance(50)) { const T t = E::mk(p, v); h.Insert(t); } else h.Insert(E::mk(p, v)); ev("Insert", A(k + 1, p, v), A(), this->state()); }
    else if(w < ins + 15) { if(n) { auto r = E::get(h.Pop()); ev("Pop", A(k + 1), A(jit(r)), this->state()); } }
    else if(w < ins + 18) { if(n) ev("Peek", A(k + 1), A(jit(E::get(h.Peek()))), this->state()); }
    else if(w < ins + 30) { int i = g.below(n + 1); bool r = h.Remove(i); ev("RemoveAt", A(k + 1, i + 1), A(r), this->state()); }
    else if(w < ins + 42) { int i = g.below(n + 1), v = this->nextv++; bool r; if(g.chance(50)) { const T t = E::mk(p, v); r = h.Set(i, t); } else r = h.Set(i, E::mk(p, v)); ev("SetAt", A(k + 1, i + 1, p, v), A(r), this->state()); }
    else if(w < ins + 43) { h.Clear(); ev("Clear", A(k + 1), A(), this->state()); }
    else if(w < ins + 45) { if(g.chance(20)) { H& s = h; h = s; ev("Copy", A(k + 1, k + 1), A(), this->state()); return; } if(g.chance(50)) h = *o[1 - k]; else { delete o[k]; o[k] = new H(*o[1 - k]); } ev("Copy", A(k + 1, 2 - k), A(), this->state()); }
    else if(w < ins + 47) { if(g.chance(50)) h = std::move(*o[1 - k]); else { delete o[k]; o[k] = new H(std::move(*o[1 - k])); } ev("Move", A(k + 1, 2 - k), A(), this->state()); }
    else { int m = g.below(12); Seq in; J jin;
      { std::vector<T> v; for(int i = 0; i < m; ++i) { v.push_back(E::mk((int)g.below(g.chance(50) ? 4 : 20), this->nextv++)); in.push_back(E::get(v.back())); }
        if(w < ins + 50) { delete o[k]; o[k] = new H(v.data(), m); }
        else if(w < ins + 52) { H::Heapify(v.data(), m); } else { H::HeapSort(v.data(), m); }
        if(w >= ins + 50) { Seq out; for(auto& t : v) out.push_back(E::get(t)); v.clear(); ev(w < ins + 52 ? "Heapify" : "Sort", A(raw(js(in))), A(raw(js(out))), this->state()); return; } }
      ev("Build", A(k + 1, raw(js(in))), A(), this->state()); }
  }
};
template<class V> struct DV; template<> struct DV<int> { static int mk(int v) { return v; } static int get(int v) { return v; } };
template<> struct DV<std::string> { static std::string mk(int v) { return "string payload " + std::to_string(v); } static int get(const std::string& s) { return s.size() > 15 ? atoi(s.c_str() + 15) : -6; } };
template<class Q, class V, int S> struct PQ : Base<PQ<Q, V, S>> {
  Q* o[2];
  template<class P> static std::pair<int, int> it(const P& p) { return { p.first * S, DV<V>::get(p.second) }; }
  Seq walk(int k, int& n, bool& ok) { Seq r; Q& q = *o[k]; n = (int)q.Length(); for(int i = 0; i < n; ++i) r.push_back(it(q.Get(i))); if(q.Empty() != r.empty()) ok = false; return r; }
  void make() { o[0] = new Q(); o[1] = new Q(); }
  void unmake() { delete o[0]; delete o[1]; }
  void step(Rng& g, int k, int p, int ins) {
    Q& q = *o[k]; int w = g.below(100), n = (int)q.Length(); const int kk = p * S;
    if(w < ins) { int v = this->nextv++; if(g.chance(50)) q.Push(kk, DV<V>::mk(v)); else q.Push(int(kk), DV<V>::mk(v)); ev("Insert", A(k + 1, p, v), A(), this->state()); }
    else if(w < ins + 20) { if(n) { auto r = it(q.Pop()); ev("Pop", A(k + 1), A(jit(r)), this->state()); } }
    else if(w < ins + 23) { if(n) ev("Peek", A(k + 1), A(jit(it(q.Peek()))), this->state()); }
    else if(w < ins + 26) { if(n) { q.Discard(); ev("Discard", A(k + 1), A(), this->state()); } }
    else if(w < ins + 36) { int i = g.below(n + 1); bool r = q.Remove(i); ev("RemoveAt", A(k + 1, i + 1), A(r), this->state()); }
    else if(w < ins + 37) { q.Clear(); ev("Clear", A(k + 1), A(), this->state()); }
    else if(w < ins + 40) { if(g.chance(50)) q = *o[1 - k]; else { delete o[k]; o[k] = new Q(*o[1 - k]); } ev("Copy", A(k + 1, 2 - k), A(), this->state()); }
    else if(w < ins + 42) { if(g.chance(50)) q = std::move(*o[1 - k]); else { delete o[k]; o[k] = new Q(std::move(*o[1 - k])); } ev("Move", A(k + 1, 2 - k), A(), this->state()); }
  }
};
template<class Q, class V> struct PH : Base<PH<Q, V>> { // handle heap: the payload is the priority; a handle stays with its item
  Q* o[2]; std::map<int, size_t> hd[2]; // id -> handle
  std::map<int, int> idOf(int k) { return {}; }
  struct Val { int k, v; };
  Seq walk(int k, int& n, bool& ok) { Seq r; Q& q = *o[k]; n = (int)q.Length(); std::set<size_t> seen; for(auto& p : hd[k]) { if(!seen.insert(p.second).second) ok = false; const auto& x = q.Get((decltype(q.Length()))p.second); r.push_back({ x.k, x.v }); if(x.v != p.first) ok = false; } if(q.Empty() != (n == 0)) ok = false; return r; }
  void make() { for(int k = 0; k < 2; ++k) { o[k] = new Q(); hd[k].clear(); } }
  void unmake() { delete o[0]; delete o[1]; }
  void step(Rng& g, int k, int p, int ins) {
    Q& q = *o[k]; int w = g.below(100), n = (int)q.Length();
    auto pick = [&]() { auto i = hd[k].begin(); std::advance(i, g.below((uint32_t)hd[k].size())); return *i; };
    if(w < ins) { int v = this->nextv++; size_t h; if(g.chance(50)) { const KV t{ p, v }; h = q.Push(t); } else h = q.Push(KV{ p, v }); hd[k][v] = h; ev("Insert", A(k + 1, p, v), A(), this->state()); }
    else if(w < ins + 15) { if(n) { KV r = q.Pop(); hd[k].erase(r.v); ev("Pop", A(k + 1), A(A(r.k, r.v)), this->state()); } }
    else if(w < ins + 18) { if(n) { auto& r = q.Peek(); ev("Peek", A(k + 1), A(A(r.k, r.v)), this->state()); } }
    else if(w < ins + 21) { if(n) { int v = q.Peek().v; q.Discard(); hd[k].erase(v); ev("Discard", A(k + 1), A(), this->state()); } }
    else if(w < ins + 31) { if(!hd[k].empty()) { auto x = pick(); bool r = q.Remove((decltype(q.Length()))x.second); hd[k].erase(x.first); ev("RemoveId", A(k + 1, x.first), A(r), this->state()); } }
    else if(w < ins + 44) { if(!hd[k].empty()) { auto x = pick(); bool r; if(g.chance(50)) { const KV t{ p, x.first }; r = q.Set((decltype(q.Length()))x.second, t); } else r = q.Set((decltype(q.Length()))x.second, KV{ p, x.first }); ev("SetId", A(k + 1, x.first, p), A(r), this->state()); } }
    else if(w < ins + 46) { if(g.chance(50)) q = *o[1 - k]; else { delete o[k]; o[k] = new Q(*o[1 - k]); } hd[k] = hd[1 - k]; ev("Copy", A(k + 1, 2 - k), A(), this->state()); }
    else if(w < ins + 48) { if(g.chance(50)) q = std::move(*o[1 - k]); else { delete o[k]; o[k] = new Q(std::move(*o[1 - k])); } hd[k] = hd[1 - k]; hd[1 - k].clear(); ev("Move", A(k + 1, 2 - k), A(), this->state()); }
  }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 29); long b = a.budget ? a.budget : 6;
  { BH<BinaryHeap<KV, size_t, cmpKV>, EKV> d; d.runs(g, "max", true, false, b); }
  { BH<BinaryHeap<KV, size_t, cmpKVi>, EKVi> d; d.runs(g, "min", true, false, b); }
  { BH<BinaryHeap<KV, uint16_t, cmpKV>, EKV> d; d.runs(g, "max/u16", true, false, b); }
  { BH<BinaryHeap<TK, size_t, cmpTK, ARRAY_SAFE>, ETK> d; d.runs(g, "tracked", true, true, b); }
  { PQ<PriorityQueue<int, int>, int, 1> d; d.runs(g, "pq", true, false, b); }
  { PQ<PriorityQueue<int, std::string, CompTInv<int>, uint32_t, ARRAY_SAFE>, std::string, -1> d; d.runs(g, "pq/min/string", true, false, b); }
  { PH<PriorityHeap<KV, size_t, cmpKV>, int> d; d.runs(g, "handles", false, false, 2 * b); }
  { PH<PriorityHeap<KV, uint32_t, cmpKV>, int> d; d.runs(g, "handles/u32", false, false, b); }
  return finish();
}
