// Histories of AVLTree, AATree, TRBtree, ArraySort and Map (C14).
#include "vp.h"
#include <memory>
#include <tuple>
#include "bss-util/AVLTree.h"
#include "bss-util/AATree.h"
#include "bss-util/TRBtree.h"
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
using namespace bss; using namespace vp;
struct KV { int k, v; };
static char cmpKV(const KV& a, const KV& b) { return (a.k > b.k) - (a.k < b.k); }
static char cmpRev(const int& a, const int& b) { return (b > a) - (b < a); }
static char cmpBig(const int& a, const int& b) { return a < b ? -1 : a > b; }
typedef std::vector<std::pair<int, int>> Seq;
static std::string js(const Seq& s) { std::string r = "["; for(size_t i = 0; i < s.size(); ++i) r += (i ? ",[" : "[") + std::to_string(s[i].first) + "," + std::to_string(s[i].second) + "]"; return r + "]"; }
static int posOf(const Seq& s, int k, int v) { for(size_t i = 0; i < s.size(); ++i) if(s[i].first == k && s[i].second == v) return (int)i + 1; return 0; }
static int gone(const Seq& before, const Seq& after) { // 1-based position of the item missing from after
  for(size_t i = 0; i < before.size(); ++i) if(i >= after.size() || before[i] != after[i]) return (int)i + 1; return 0; }
struct Shape { int hl, hr, sl, sr; bool operator<(const Shape& o) const { return std::tie(hl, hr, sl, sr) < std::tie(o.hl, o.hr, o.sl, o.sr); } };
template<class N, class F> static std::pair<int, int> shapes(N* n, F child, std::set<Shape>& out, int depth) { // (longest, shortest)
  if(!n) return { 0, 0 };
  if(depth > 200) { out.insert({ 999, 0, 0, 0 }); return { 0, 0 }; }
  auto L = shapes(child(n, 0), child, out, depth + 1), R = shapes(child(n, 1), child, out, depth + 1);
  out.insert({ L.first, R.first, L.second, R.second });
  return { std::max(L.first, R.first) + 1, std::min(L.second, R.second) + 1 };
}
static std::string jbal(const std::set<Shape>& s) { std::string r = "["; for(auto& n : s) { if(r.size() > 1) r += ","; r += "[" + std::to_string(n.hl) + "," + std::to_string(n.hr) + "," + std::to_string(n.sl) + "," + std::to_string(n.sr) + "]"; } return r + "]"; }
template<class D> struct Base {
  D& d() { return *static_cast<D*>(this); }
  bool ok = true; Seq w[2]; std::set<Shape> bal; int nextv = 1;
  J state(bool full) {
    ok = true; bal.clear();
    for(int k = 0; k < 2; ++k) w[k] = d().walk(k);
    return raw("{\"n\":[" + std::to_string((int)w[0].size()) + "," + std::to_string((int)w[1].size()) + "],\"full\":" + (full ? "true" : "false") + ",\"x\":[" + (full ? js(w[0]) + "," + js(w[1]) : "[],[]") + "],\"bal\":" + jbal(bal) + ",\"ok\":" + (ok ? "true" : "false") + "}");
  }
  Seq peek(int k) { bool o = ok; auto r = d().walk(k); ok = o; return r; }
  void runs(Rng& g, const char* nm, bool unique, const char* balk, long b) {
    for(long r = 0; r < b; ++r) {
      beginRun(std::string("{\"kind\":\"") + nm + "\",\"unique\":" + (unique ? "true" : "false") + ",\"bal\":\"" + balk + "\"}");
      d().make(g); nextv = 1; w[0].clear(); w[1].clear();
      int mode = g.below(4); int dom = mode == 0 ? 6 : mode == 1 ? 20 : mode == 2 ? 60 : 200; int steps = mode < 2 ? 70 : mode == 2 ? 150 : 320; bool big = mode > 1;
      int pattern = g.below(4), ins = 35 + g.below(25);
      for(int i = 0; i < steps; ++i) {
        int k = big ? (g.chance(90) ? 0 : 1) : g.below(2);
        int key = pattern == 0 ? i % dom : pattern == 1 ? dom - 1 - i % dom : (int)g.below(dom);
        if(g.chance(30)) key = g.below(dom);
        int bias = big && i > steps * 2 / 3 ? 15 : ins;
        d().step(g, k, key, dom, bias, !big || i % 20 == 19 || i + 1 == steps);
      }
      d().unmake(); endRun();
    }
  }
};
// ---- AVL
struct PInt { typedef int Data; static const bool map = true, copy = true; static int get(int v) { return v; } static int mk(int v) { return v; } };
struct PUniq { typedef std::unique_ptr<int> Data; static const bool map = true, copy = false; static int get(const Data& v) { return v ? *v : -7; } static Data mk(int v) { return Data(new int(v)); } };
struct PVoid { typedef void Data; static const bool map = false, copy = true; };
template<class T, class P, int SGN> struct AVL : Base<AVL<T, P, SGN>> {
  using B = Base<AVL>; T* o[2];
  static int key(int k) { return k * SGN; } // the comparator orders SGN * key
  template<class N> static std::pair<int, int> item(N& n) { if constexpr(P::map) return { n.first * SGN, P::get(n.second) }; else return { n * SGN, 0 }; }
  Seq walk(int k) {
    Seq r; size_t cap = 5000; bool over = false; Seq tr;
    auto child = [](auto* n, int s) { return s ? n->_right : n->_left; };
    if(o[k]->GetRoot()) shapes(o[k]->GetRoot(), child, this->bal, 0);
    std::function<void(decltype(o[k]->GetRoot()), int)> rec = [&](auto* n, int d) { if(!n || d > 200 || r.size() > cap) return; rec(n->_left, d + 1); r.push_back(item(n->_key)); rec(n->_right, d + 1); };
    rec(o[k]->GetRoot(), 0);
    o[k]->Traverse([&](auto& n) { tr.push_back(item(n)); });
    // in-order either way round, but the same items in sorted order
    Seq rv(tr.rbegin(), tr.rend()); if(tr != r && rv != r) this->ok = false;
    bool asc = true, desc = true; for(size_t i = 1; i < r.size(); ++i) { if(r[i].first < r[i - 1].first) asc = false; if(r[i].first > r[i - 1].first) desc = false; }
    if(!asc && !desc) this->ok = false; else if(!asc) std::reverse(r.begin(), r.end());
    return r;
  }
  void make(Rng&) { o[0] = new T(); o[1] = new T(); }
  void unmake() { delete o[0]; delete o[1]; }
  void step(Rng& g, int k, int ky, int dom, int bias, bool full) {
    T& t = *o[k]; int w = g.below(100); int K = key(ky);
    if(w < bias) { int v = P::map ? this->nextv++ : 0; auto* n = (decltype(t.GetRoot()))0;
      if constexpr(P::map) { if constexpr(P::copy) { if(g.chance(50)) n = t.Insert(K, (const typename P::Data&)P::mk(v)); else n = t.Insert(K, P::mk(v)); } else n = t.Insert(K, P::mk(v)); } else n = t.Insert(K);
      auto now = this->peek(k); bool good = !n || item(n->_key) == std::make_pair(ky, v);
      ev("InsertU", A(k + 1, ky, v), A(n != 0 && good, posOf(now, ky, v)), this->state(full)); }
    else if(w < bias + 25) { auto before = this->peek(k); bool r = t.Remove(K); auto now = this->peek(k); ev("RemoveKey", A(k + 1, ky), A(r, gone(before, now)), this->state(full)); }
    else if(w < bias + 30) { // ReplaceKey: old present, new absent or the same
      auto s = this->peek(k); if(s.empty()) return; auto it = s[g.below((uint32_t)s.size())]; bool pres = false; for(auto& x : s) if(x.first == ky) pres = true;
      if(pres && ky != it.first) return; int p = posOf(s, it.first, it.second); bool r = t.ReplaceKey(key(it.first), K); auto now = this->peek(k);
      ev("ReplaceAt", A(k + 1, p, ky, it.second), A(r ? posOf(now, ky, it.second) : 0), this->state(full)); }
    else if(w < bias + 33 && g.chance(30)) { if(g.chance(40)) { t.Clear(); ev("Clear", A(k + 1), A(), this->state(true)); } else { if(g.chance(50)) t = std::move(*o[1 - k]); else { delete o[k]; o[k] = new T(std::move(*o[1 - k])); delete o[1 - k]; o[1 - k] = new T(); } ev("Move", A(k + 1, 2 - k), A(), this->state(true)); } }
    else if(w < bias + 45) { auto* n = t.Near(K); ev("Nearest", A(k + 1, ky), n ? A(A(item(n->_key).first, item(n->_key).second)) : A(), this->state(full)); }
    else { auto* p = t.GetRef(K); if constexpr(P::map) { if constexpr(P::copy) ev("FindPay", A(k + 1, ky), A(p ? P::get(*p) : -1, P::get(t.Get(K, P::mk(-1)))), this->state(full)); else ev("FindPay", A(k + 1, ky), A(p ? P::get(*p) : -1), this->state(full)); }
      else { auto s = this->peek(k); int a = p ? posOf(s, *p * SGN, 0) : 0; int r = t.Get(K, 123456); ev("Find", A(k + 1, ky), A(a, r == 123456 ? 0 : posOf(s, r * SGN, 0)), this->state(full)); } }
  }
};
// ---- AA
static Seq* aaOut;
static void aaVisit(KV& v) { aaOut->push_back({ v.k, v.v }); }
template<class T> struct AAD : Base<AAD<T>> {
  T* o[2]; AANODE<KV>* nil[2];
  Seq walk(int k) {
    Seq r, tr; T& t = *o[k]; auto* root = t.GetRoot(); if((root == 0) != t.IsEmpty()) this->ok = false;
    // the sentinel is its own child
    auto child = [](AANODE<KV>* n, int s) { auto* c = s ? n->right : n->left; return c->left == c && c->right == c ? (AANODE<KV>*)0 : c; };
    if(root) shapes(root, child, this->bal, 0);
    std::function<void(AANODE<KV>*, int)> rec = [&](AANODE<KV>* n, int d) { if(!n || d > 200 || r.size() > 5000) return; rec(child(n, 0), d + 1); r.push_back({ n->data.k, n->data.v }); rec(child(n, 1), d + 1); };
    rec(root, 0); aaOut = &tr; t.template Traverse<&aaVisit>(); if(tr != r) this->ok = false;
    return r;
  }
  void make(Rng&) { o[0] = new T(); o[1] = new T(); }
  void unmake() { delete o[0]; delete o[1]; }
  void step(Rng& g, int k, int ky, int dom, int bias, bool full) {
    T& t = *o[k]; int w = g.below(100);
    if(w < bias) { int v = this->nextv++; t.Insert(KV{ ky, v }); ev("Insert", A(k + 1, ky, v), A(posOf(this->peek(k), ky, v)), this->state(full)); }
    else if(w < bias + 30) { auto b = this->peek(k); bool r = t.Remove(KV{ ky, -1 }); ev("RemoveKey", A(k + 1, ky), A(r, gone(b, this->peek(k))), this->state(full)); }
    else if(w < bias + 32) { if(g.chance(20)) { t.Clear(); ev("Clear", A(k + 1), A(), this->state(full)); } }
    else { auto* n = t.Get(KV{ ky, -1 }); auto s = this->peek(k); ev("Find", A(k + 1, ky), A(n ? posOf(s, n->data.k, n->data.v) : 0), this->state(full)); }
  }
};
// ---- threaded red-black
template<class T> struct TRBD : Base<TRBD<T>> {
  T* o[2]; std::map<int, TRB_Node<KV>*> h[2];
  Seq walk(int k) {
    Seq r, b, it; T& t = *o[k]; const T& ct = t; TRB_Node<KV>* last = 0;
    for(auto* n = t.Front(); n && r.size() < 5000; n = n->next) { r.push_back({ n->value.k, n->value.v }); if(n->prev != last) this->ok = false; last = n; auto f = h[k].find(n->value.v); if(f == h[k].end() || f->second != n) this->ok = false; }
    if(t.Back() != last) this->ok = false;
    for(auto* n = t.Back(); n && b.size() < 5000; n = n->prev) b.push_back({ n->value.k, n->value.v });
    std::reverse(b.begin(), b.end()); if(b != r) this->ok = false;
    for(auto i = ct.begin(); i != ct.end() && it.size() < 5000; ++i) it.push_back({ (*i)->value.k, (*i)->value.v }); if(it != r) this->ok = false;
    auto* root = const_cast<TRB_Node<KV>*>(t.GetRoot()); auto isnil = [](TRB_Node<KV>* n) { return n->left == n; };
    auto child = [&](TRB_Node<KV>* n, int s) { auto* c = s ? n->right : n->left; return isnil(c) ? (TRB_Node<KV>*)0 : c; };
    if(!isnil(root)) { shapes(root, child, this->bal, 0);
      Seq tree; std::function<void(TRB_Node<KV>*, int)> rec = [&](TRB_Node<KV>* n, int d) { if(!n || d > 200 || tree.size() > 5000) return; rec(child(n, 0), d + 1); tree.push_back({ n->value.k, n->value.v }); rec(child(n, 1), d + 1); };
      rec(root, 0); // one representative of each distinct key
      std::set<int> dk; for(auto& p : r) dk.insert(p.first); if(dk.size() != tree.size()) this->ok = false; size_t q = 0; for(int kk : dk) if(q < tree.size() && tree[q++].first != kk) this->ok = false;
      if(t.DEBUGVERIFY() == 0) this->ok = false; }
    else if(!r.empty()) this->ok = false;
    return r;
  }
  void make(Rng&) { for(int k = 0; k < 2; ++k) { o[k] = new T(); h[k].clear(); } }
  void unmake() { delete o[0]; delete o[1]; }
  void step(Rng& g, int k, int ky, int dom, int bias, bool full) {
    T& t = *o[k]; int w = g.below(100);
    if(w < bias) { int v = this->nextv++; auto* n = t.Insert(KV{ ky, v }); h[k][v] = n; ev("Insert", A(k + 1, ky, v), A(n->value.v == v ? posOf(this->peek(k), ky, v) : 0), this->state(full)); }
    else if(w < bias + 15) { auto b = this->peek(k); bool r = t.Remove(KV{ ky, -1 }); auto now = this->peek(k); int p = gone(b, now); if(p) h[k].erase(b[p - 1].second); ev("RemoveKey", A(k + 1, ky), A(r, p), this->state(full)); }
    else if(w < bias + 30) { if(h[k].empty()) { ev("RemoveAt", A(k + 1, 0), A(t.Remove((TRB_Node<KV>*)0)), this->state(full)); return; }
      auto b = this->peek(k); auto it = h[k].begin(); std::advance(it, g.below((uint32_t)h[k].size())); int v = it->first; auto* n = it->second; int p = posOf(b, n->value.k, v); h[k].erase(it); bool r = t.Remove(n); ev("RemoveAt", A(k + 1, p), A(r), this->state(full)); }
    else if(w < bias + 33) { if(g.chance(30)) { if(g.chance(40)) { t.Clear(); h[k].clear(); ev("Clear", A(k + 1), A(), this->state(true)); }
      else { if(g.chance(50)) t = std::move(*o[1 - k]); else { delete o[k]; o[k] = new T(std::move(*o[1 - k])); } h[k] = h[1 - k]; h[1 - k].clear(); for(auto* n = o[1 - k]->Front(); n; n = n->next) h[1 - k][n->value.v] = n; ev("Move", A(k + 1, 2 - k), A(), this->state(true)); } } }
    else if(w < bias + 45) { auto s = this->peek(k); if(s.empty()) return; bool bf = g.chance(50); int q = g.chance(50) ? ky : ky + (int)g.below(3) - 1; auto* n = t.GetNear(KV{ q, -1 }, bf); ev(bf ? "TBefore" : "TAfter", A(k + 1, q), A(n ? posOf(s, n->value.k, n->value.v) : 0), this->state(full)); }
    else { auto* n = t.Get(KV{ ky, -1 }); auto s = this->peek(k); ev("Find", A(k + 1, ky), A(n ? posOf(s, n->value.k, n->value.v) : 0), this->state(full)); }
  }
};
// ---- ArraySort
template<class T> struct ASD : Base<ASD<T>> {
  T* o[2]; typedef decltype(((T*)0)->Length()) CT;
  Seq walk(int k) { Seq r, r2; const T& t = *o[k]; for(auto& x : t) r.push_back({ x.k, x.v }); for(CT i = 0; i < t.Length(); ++i) r2.push_back({ t[i].k, t[i].v }); if(r != r2 || t.Empty() != r.empty()) this->ok = false; if(!r.empty() && (t.Front().v != r.front().second || t.Back().v != r.back().second)) this->ok = false; return r; }
  void make(Rng& g) { for(auto& p : o) p = new T((CT)g.below(4)); }
  void unmake() { delete o[0]; delete o[1]; }
  int pos(CT i) { return i == (CT)-1 ? 0 : (int)i + 1; }
  void step(Rng& g, int k, int ky, int dom, int bias, bool full) {
    T& t = *o[k]; int w = g.below(100); int n = (int)t.Length();
    if(w < bias) { if(n > 120) return; int v = this->nextv++; CT r; if(g.chance(50)) r = t.Insert(KV{ ky, v }); else { const KV c{ ky, v }; r = t.Insert(c); } ev("Insert", A(k + 1, ky, v), A(pos(r)), this->state(full)); }
    else if(w < bias + 15) { int i = g.chance(15) ? n + (int)g.below(2) : (int)g.below(n + 1); bool r = t.Remove((CT)i); ev("RemoveAt", A(k + 1, i + 1), A(r), this->state(full)); }
    else if(w < bias + 25) { if(!n) return; int i = g.below(n), v = this->nextv++; CT r = t.ReplaceData((CT)i, KV{ ky, v }); ev("ReplaceAt", A(k + 1, i + 1, ky, v), A(pos(r)), this->state(full)); }
    else if(w < bias + 26) { int m = g.below(5); t.Discard((CT)m); ev("DropLast", A(k + 1, m), A(), this->state(full)); }
    else if(w < bias + 27) { if(g.chance(30)) { t.Clear(); ev("Clear", A(k + 1), A(), this->state(full)); } else { t.SetCapacity((CT)(n + g.below(20))); ev("Reserve", A(k + 1), A(), this->state(full)); } }
    else if(w < bias + 29) { if(g.chance(50)) t = *o[1 - k]; else { delete o[k]; o[k] = new T(*o[1 - k]); } ev("Copy", A(k + 1, 2 - k), A(), this->state(true)); }
    else if(w < bias + 30) { if(g.chance(50)) t = std::move(*o[1 - k]); else { delete o[k]; o[k] = new T(std::move(*o[1 - k])); } ev("Move", A(k + 1, 2 - k), A(), this->state(true)); }
    else if(w < bias + 42) { bool bf = g.chance(50); CT r = t.FindNear(KV{ ky, -1 }, bf); ev(bf ? "Before" : "After", A(k + 1, ky), A(pos(r)), this->state(full)); }
    else { CT r = t.Find(KV{ ky, -1 }); ev("Find", A(k + 1, ky), A(pos(r)), this->state(full)); }
  }
};
// ---- Map
template<class V> struct MV; template<> struct MV<int> { static int mk(int v) { return v; } static int get(int v) { return v; } };
template<> struct MV<std::string> { static std::string mk(int v) { return "payload number " + std::to_string(v); } static int get(const std::string& s) { return s.size() > 15 ? atoi(s.c_str() + 15) : -6; } };
template<class T, class V> struct MAPD : Base<MAPD<T, V>> {
  T* o[2]; typedef decltype(((T*)0)->Length()) CT;
  Seq walk(int k) { Seq r, r2, r3; T& t = *o[k]; const T& c = t; for(auto& x : c) r.push_back({ std::get<0>(x), MV<V>::get(std::get<1>(x)) }); for(CT i = 0; i < t.Length(); ++i) { r2.push_back({ c.KeyIndex(i), MV<V>::get(c.DataIndex(i)) }); r3.push_back({ std::get<0>(t[i]), MV<V>::get(c(i)) }); } if(r != r2 || r != r3) this->ok = false; if(!r.empty() && (std::get<0>(c.Front()) != r.front().first || std::get<0>(c.Back()) != r.back().first)) this->ok = false; return r; }
  void make(Rng& g) { for(auto& p : o) p = new T((CT)g.below(4)); }
  void unmake() { delete o[0]; delete o[1]; }
  int pos(CT i) { return i == (CT)-1 ? 0 : (int)i + 1; }
  void step(Rng& g, int k, int ky, int dom, int bias, bool full) {
    T& t = *o[k]; int w = g.below(100); int n = (int)t.Length();
    if(w < bias) { if(n > 120) return; int v = this->nextv++; CT r; if(g.chance(50)) r = t.Insert(ky, MV<V>::mk(v)); else { const V c = MV<V>::mk(v); r = t.Insert(ky, c); } ev("Insert", A(k + 1, ky, v), A(pos(r)), this->state(full)); }
    else if(w < bias + 10) { int i = g.chance(15) ? n + (int)g.below(2) : (int)g.below(n + 1); bool r = t.RemoveIndex((CT)i) != 0; ev("RemoveAt", A(k + 1, i + 1), A(r), this->state(full)); }
    else if(w < bias + 18) { CT r = t.Remove(ky); ev("MapRemove", A(k + 1, ky), A(pos(r)), this->state(full)); }
    else if(w < bias + 24) { if(!n) return; int i = g.below(n), v = this->nextv++; CT r; if(g.chance(50)) r = t.Replace((CT)i, ky, MV<V>::mk(v)); else { const V c = MV<V>::mk(v); r = t.Replace((CT)i, ky, c); } ev("ReplaceAt", A(k + 1, i + 1, ky, v), A(pos(r)), this->state(full)); }
    else if(w < bias + 28) { if(!n) return; int i = g.below(n), v = MV<V>::get(t.DataIndex((CT)i)); CT r = t.ReplaceKey((CT)i, ky); ev("ReplaceAt", A(k + 1, i + 1, ky, v), A(pos(r)), this->state(full)); }
    else if(w < bias + 33) { int v = this->nextv++; CT r = t.Set(ky, MV<V>::mk(v)); ev("MapSet", A(k + 1, ky, v), A(pos(r)), this->state(full)); }
    else if(w < bias + 34) { int m = g.below(5); t.Discard((CT)m); ev("DropLast", A(k + 1, m), A(), this->state(full)); }
    else if(w < bias + 35) { if(g.chance(30)) { t.Clear(); ev("Clear", A(k + 1), A(), this->state(full)); } }
    else if(w < bias + 37) { if(g.chance(50)) t = *o[1 - k]; else { delete o[k]; o[k] = new T(*o[1 - k]); } ev("Copy", A(k + 1, 2 - k), A(), this->state(true)); }
    else if(w < bias + 38) { if(g.chance(50)) t = std::move(*o[1 - k]); else { delete o[k]; o[k] = new T(std::move(*o[1 - k])); } ev("Move", A(k + 1, 2 - k), A(), this->state(true)); }
    else if(w < bias + 48) { bool bf = g.chance(50); CT r = t.GetNear(ky, bf); ev(bf ? "Before" : "After", A(k + 1, ky), A(pos(r)), this->state(full)); }
    else { CT r = t.Get(ky); if(r != (CT)-1 && g.chance(50)) ev("FindPay", A(k + 1, ky), A(MV<V>::get(t.GetData(ky))), this->state(full)); else ev("MapGet", A(k + 1, ky), A(pos(r)), this->state(full)); }
  }
};
template<class N> using SA = StandardAllocator<N>;
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 23); long b = a.budget ? a.budget : 6;
  typedef AVLNode<std::pair<int, int>> NI; typedef AVLNode<std::pair<int, std::unique_ptr<int>>> NU; typedef AVLNode<int> NV;
  { AVL<AVLTree<int, int>, PInt, 1> d; d.runs(g, "avl", true, "avl", b); }
  { AVL<AVLTree<int, int, CompT<int>, StandardAllocator<NI>>, PInt, 1> d; d.runs(g, "avl/std", true, "avl", b); }
  { AVL<AVLTree<int, int, cmpRev, StandardAllocator<NI>>, PInt, -1> d; d.runs(g, "avl/reversed", true, "avl", b); }
  { AVL<AVLTree<int, std::unique_ptr<int>, CompT<int>, StandardAllocator<NU>>, PUniq, 1> d; d.runs(g, "avl/unique_ptr", true, "avl", b); }
  { AVL<AVLTree<int, void>, PVoid, 1> d; d.runs(g, "avl/set", true, "avl", b); }
  { AVL<AVLTree<int, void, CompT<int>, StandardAllocator<NV>>, PVoid, 1> d; d.runs(g, "avl/set/std", true, "avl", b); }
  { AAD<AATree<KV, cmpKV>> d; d.runs(g, "aa", false, "rb", b); }
  { AAD<AATree<KV, cmpKV, StandardAllocator<AANODE<KV>>>> d; d.runs(g, "aa/std", false, "rb", b); }
  { TRBD<TRBtree<KV, cmpKV>> d; d.runs(g, "trb", false, "rb", b); }
  { TRBD<TRBtree<KV, cmpKV, PolymorphicAllocator<TRB_Node<KV>, BlockPolicy>>> d; (void)d; }
  { ASD<ArraySort<KV, cmpKV>> d; d.runs(g, "arraysort", false, "rb", b); }
  { ASD<ArraySort<KV, cmpKV, uint8_t>> d; d.runs(g, "arraysort/u8", false, "rb", b); }
  { MAPD<Map<int, int>, int> d; d.runs(g, "map", false, "rb", b); }
  { MAPD<Map<int, std::string, CompT<int>, size_t, ARRAY_SAFE>, std::string> d; d.runs(g, "map/string", false, "rb", b); }
  return finish();
}
