// Histories of LinkedList, LinkedArray and the intrusive LLBase primitives (C12).
#include "vp.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/LLBase.h"
#include "bss-util/BlockAlloc.h"
using namespace bss; using namespace vp;
typedef std::vector<std::pair<int, int>> Nodes;
static J stateOf(const Nodes& a, const Nodes& b, bool ok) {
  auto f = [](const Nodes& n) { std::string s = "["; for(size_t i = 0; i < n.size(); ++i) s += (i ? ",[" : "[") + std::to_string(n[i].first) + "," + std::to_string(n[i].second) + "]"; return s + "]"; };
  return raw("{\"x\":[" + f(a) + "," + f(b) + "],\"ok\":" + (ok ? "true" : "false") + "}");
}
// every way of stepping an iterator (prefix, postfix, both directions) visits the nodes the walk found; at(it) = (id, value)
template<class I, class F> static bool iterOk(I b, I e, const Nodes& r, F at) {
  size_t i = 0; I it = b;
  for(; it != e; ++i) { if(i >= r.size() || it == e || !it || !it.IsValid() || at(it) != r[i]) return false; I was = it++; if(at(was) != r[i] || !(was == was) || was != was || was == it || !(was != it)) return false; }
  if(i != r.size() || !(it == e) || !!it || it.IsValid()) return false;
  i = 0; for(it = b; it != e; ++it, ++i) if(i >= r.size() || at(it) != r[i]) return false;
  if(i != r.size()) return false;
  if(r.empty()) return true;
  it = b; for(i = 1; i < r.size(); ++i) ++it;
  I jt = it; for(i = r.size(); i-- > 0; --it) { if(at(it) != r[i]) return false; I was = jt--; if(at(was) != r[i] || (i && at(jt) != r[i - 1])) return false; }
  return !it && !jt && it == e;
}
// ---- LinkedList --------------------------------------------------------------------------------
template<class Al, bool LAST, bool SIZE> struct LD {
  typedef LinkedList<int, Al, LAST, SIZE> C; typedef LLNode<int> N;
  C* o[2]; std::map<N*, int> ids[2]; int nextId = 0;
  int idNew(int k, N* n) { auto it = ids[k].find(n); if(it != ids[k].end()) return it->second; return ids[k][n] = ++nextId; }
  int idOf(int k, N* n) { if(!n) return 0; auto it = ids[k].find(n); return it == ids[k].end() ? -1 : it->second; }
  Nodes view(int k, bool& ok) {
    C& c = *o[k]; Nodes r; N* last = 0; size_t lim = ids[k].size() + 5;
    for(N* n = c.Front(); n; n = n->next) { if(n->prev != last) ok = false; int id = idOf(k, n); r.push_back({ id, n->item }); last = n; if(id < 0 || r.size() > lim) { ok = false; return r; } }
    if constexpr(LAST) { if(c.Back() != last) ok = false; }
    if constexpr(SIZE) { if(c.Length() != r.size()) ok = false; }
    size_t i = 0; for(auto it = c.begin(); it != c.end(); ++it, ++i) if(i >= r.size() || *it != r[i].second) { ok = false; break; }
    if(i != r.size()) ok = false;
    if(ok) ok = iterOk(c.begin(), c.end(), r, [&](auto& it) { return std::make_pair(idOf(k, it.cur), *it.operator->()); });
    return r;
  }
  J state() { bool ok = true; Nodes a = view(0, ok), b = view(1, ok); return stateOf(a, b, ok); }
  N* pick(int k, Rng& g) { if(ids[k].empty()) return 0; auto it = ids[k].begin(); // by id order, not address order
    std::vector<std::pair<int, N*>> v; for(auto& p : ids[k]) v.push_back({ p.second, p.first }); std::sort(v.begin(), v.end()); (void)it; return v[g.below(v.size())].second; }
  void step(Rng& g, int maxlen) {
    int k = g.below(2); C& c = *o[k]; int v = g.below(4); N* t = pick(k, g);
    switch(g.below(14)) {
    case 0: case 1: if((int)ids[k].size() < maxlen) { N* n = c.Add(v); int id = idNew(k, n); ev(LAST ? "AddBack" : "AddFront", A(k + 1, v), A(id), state()); } break;
    case 2: if((int)ids[k].size() < maxlen) { bool e = ids[k].empty(); N* n = c.Insert(v); int id = idNew(k, n); ev("AddFront", A(k + 1, v), A(id), state()); } break;
    case 3: case 4: case 5: if((int)ids[k].size() < maxlen) { if(t) { int ti = idOf(k, t); N* n = c.Insert(v, t); int id = idNew(k, n); ev("Before", A(k + 1, ti, v), A(id), state()); } } break;
    case 6: if(LAST && (int)ids[k].size() < maxlen) { N* n = c.Insert(v, (N*)0); int id = idNew(k, n); ev("AddBack", A(k + 1, v), A(id), state()); } break;
    case 7: case 8: if(t) { int ti = idOf(k, t); ids[k].erase(t); if(g.chance(50)) { LLIter<int> it(t); LLIter<int> d = it++; c.Remove(d); } else c.Remove(t); ev("Remove", A(k + 1, ti), A(), state()); } break;
    case 9: if(t) { int ti = idOf(k, t); bool bw = g.chance(50); ids[k].erase(t); N* r = c.Remove(t, bw); ev("RemoveDir", A(k + 1, ti, bw), A(idOf(k, r)), state()); } break;
    case 10: if(t) { int ti = idOf(k, t); t->item = v; ev("Write", A(k + 1, ti, v), A(), state()); } break;
    case 11: if(g.chance(30)) { c.Clear(); ids[k].clear(); ev("Clear", A(k + 1), A(), state()); } break;
    default: if(t) { bool from = g.chance(60); N* r; bool bw = false; if constexpr(LAST) { bw = g.chance(50); r = c.Item(v, from ? t : 0, bw); } else r = c.Item(v, from ? t : 0); ev("Search", A(k + 1, from ? idOf(k, t) : 0, bw, v), A(idOf(k, r)), state()); }
    }
  }
  void runs(Rng& g, const char* nm, long b) { for(long r = 0; r < b; ++r) { nextId = 0; for(int k = 0; k < 2; ++k) { o[k] = new C(); ids[k].clear(); } beginRun(std::string("{\"kind\":\"") + nm + "\"}"); int ml = g.chance(50) ? 4 : 10; for(int i = 0; i < 60; ++i) step(g, ml); for(auto p : o) delete p; endRun(); } }
};
// ---- LinkedArray -------------------------------------------------------------------------------
template<class CT> struct AD {
  typedef LinkedArray<int, CT> C; C* o[2]; std::set<int> live[2];
  // the array's iterators hold a reference, so they can be copied but not assigned
  template<class I, class F> static bool walk(I b, I e, const Nodes& r, F at) {
    size_t n = 0; I it(b); for(; it != e; ++n) { if(n >= r.size() || !it || at(it) != r[n] || *it != r[n].second) return false; I was(it++); if(at(was) != r[n] || was == it) return false; }
    if(n != r.size() || !!it || !(it == e)) return false;
    if(r.empty()) return true;
    I bk(b, (CT)(r.back().first - 1)); I pk(bk);
    for(n = r.size(); n-- > 0; --bk) { if(at(bk) != r[n]) return false; I was(pk--); if(at(was) != r[n]) return false; }
    return !bk && !pk;
  }
  Nodes view(int k, bool& ok) {
    C& c = *o[k]; const C& cc = c; Nodes r; CT last = (CT)-1; size_t lim = live[k].size() + 5;
    for(CT i = cc.Front(); i != (CT)-1; cc.Next(i)) { CT p = i; cc.Prev(p); if(p != last) ok = false; if((size_t)i >= (size_t)cc.Capacity()) { ok = false; return r; } r.push_back({ (int)i + 1, cc[i] }); last = i; if(r.size() > lim) { ok = false; return r; } }
    if(cc.Back() != last) ok = false;
    if((size_t)cc.Length() != r.size()) ok = false;
    size_t j = 0; for(auto it = c.begin(); it.IsValid(); ++it, ++j) if(j >= r.size() || *it != r[j].second || (int)it.cur + 1 != r[j].first) { ok = false; break; }
    if(j != r.size()) ok = false;
    j = 0; for(auto it = cc.begin(); it != cc.end(); it++, ++j) if(j >= r.size() || *it != r[j].second) { ok = false; break; }
    auto at = [&](auto& it) { return std::make_pair((int)it.cur + 1, (int)*it.operator->()); };
    if(ok) { bool a1 = walk(c.begin(), c.end(), r, at), a2 = walk(cc.begin(), cc.end(), r, at); ok = a1 && a2; }
    for(auto& p : r) if(c.GetItem((CT)(p.first - 1)) != p.second || *c.GetItemPtr((CT)(p.first - 1)) != p.second) ok = false;
    return r;
  }
  J state() { bool ok = true; Nodes a = view(0, ok), b = view(1, ok); return stateOf(a, b, ok); }
  void step(Rng& g, int ml) {
    int k = g.below(2), p = 1 - k; C& c = *o[k]; int v = g.below(100); bool room = (int)live[k].size() < ml;
    int t = 0; if(!live[k].empty()) { auto it = live[k].begin(); std::advance(it, g.below(live[k].size())); t = *it; }
    int id; const int cv = v;
    switch(g.below(16)) {
    case 0: case 1: if(room) { id = (int)(g.chance(50) ? c.Add(cv) : c.Add(int(v))) + 1; live[k].insert(id); ev("AddBack", A(k + 1, v), A(id), state()); } break;
    case 2: case 3: case 4: if(room && t) { id = (int)(g.chance(50) ? c.InsertBefore(cv, (CT)(t - 1)) : c.InsertBefore(int(v), (CT)(t - 1))) + 1; live[k].insert(id); ev("Before", A(k + 1, t, v), A(id), state()); } break;
    case 5: case 6: case 7: if(room && t) { id = (int)(g.chance(50) ? c.InsertAfter(cv, (CT)(t - 1)) : c.InsertAfter(int(v), (CT)(t - 1))) + 1; live[k].insert(id); ev("After", A(k + 1, t, v), A(id), state()); } break;
    case 8: if(room) { bool bf = g.chance(50); id = (int)(bf ? c.InsertBefore(cv, (CT)-1) : c.InsertAfter(cv, (CT)-1)) + 1; live[k].insert(id); ev("AddBack", A(k + 1, v), A(id), state()); } break;
    case 9: if(t) { live[k].erase(t); typename C::template cLAIter<false> it(c, (CT)(t - 1)); int r = *it; int nx; { typename C::template cLAIter<false> q(it); ++q; nx = (int)q.cur; } (it++).Remove(); if((int)it.cur != nx) r = -77; ev("RemoveVal", A(k + 1, t), A(r), state()); } break;
    case 10: case 11: if(t) { live[k].erase(t); int r = c.Remove((CT)(t - 1)); ev("RemoveVal", A(k + 1, t), A(r), state()); } break;
    case 12: if(t) { c[(CT)(t - 1)] = v; ev("Write", A(k + 1, t, v), A(), state()); } break;
    case 13: if(g.chance(30)) { c.Clear(); live[k].clear(); ev("Clear", A(k + 1), A(), state()); } else { int n = g.below(ml + 4); c.SetCapacity((CT)n); ev("Reserve", A(k + 1, n), A((int)c.Capacity()), state()); } break;
    case 14: if(g.chance(15)) { C& self = c; c = self; p = k; } else if(g.chance(50)) c = *o[p]; else { delete o[k]; o[k] = new C(*o[p]); } if(p != k) live[k] = live[p]; ev("Copy", A(k + 1, p + 1), A(), state()); break;
    default: if(g.chance(50)) { if(g.chance(50)) c = std::move(*o[p]); else { delete o[k]; o[k] = new C(std::move(*o[p])); } live[k] = live[p]; live[p].clear(); bool ok = true; for(auto& q : view(p, ok)) live[p].insert(q.first); ev("Move", A(k + 1, p + 1), A(), state()); }
    }
  }
  void runs(Rng& g, const char* nm, long b) { for(long r = 0; r < b; ++r) { for(int k = 0; k < 2; ++k) { o[k] = g.chance(50) ? new C() : new C((CT)g.below(6)); live[k].clear(); } beginRun(std::string("{\"kind\":\"") + nm + "\"}"); int ml = g.chance(50) ? 5 : 14; for(int i = 0; i < 60; ++i) step(g, ml); for(auto p : o) delete p; endRun(); } }
};
// ---- intrusive primitives ----------------------------------------------------------------------
struct IN : LLBase<IN> { int v; int id; LLBase<IN> alt; };
static LLBase<IN>& getAlt(IN* n) { return n->alt; }
struct ID { // variant 0: root+last primitives; variant 1: root only; variant 2: alternate accessor
  int variant; IN* root[2]; IN* last[2]; std::vector<IN*> live[2]; std::vector<IN*> all; int nextId = 0;
  IN* nx(IN* n) { return variant == 2 ? n->alt.next : n->next; } IN* pv(IN* n) { return variant == 2 ? n->alt.prev : n->prev; }
  Nodes view(int k, bool& ok) { Nodes r; IN* lp = 0; for(IN* n = root[k]; n; n = nx(n)) { if(pv(n) != lp) ok = false; r.push_back({ n->id, n->v }); lp = n; if(r.size() > live[k].size() + 3) { ok = false; break; } } if(variant == 0 && last[k] != lp) ok = false;
    if(variant != 2) { size_t i = 0; for(LLIterator<IN> it(root[k]); it.IsValid(); ++it, ++i) if(i >= r.size() || it->id != r[i].first) { ok = false; break; } if(i != r.size()) ok = false; if(ok) ok = iterOk(LLIterator<IN>(root[k]), LLIterator<IN>(), r, [](auto& it) { return std::make_pair((*it)->id, it->v); }); } return r; }
  J state() { bool ok = true; Nodes a = view(0, ok), b = view(1, ok); return stateOf(a, b, ok); }
  IN* mk(int v) { IN* n = new IN(); memset(n, 0xCD, sizeof *n); n->v = v; n->id = ++nextId; all.push_back(n); return n; }
  IN* tail(int k) { IN* n = root[k]; while(n && nx(n)) n = nx(n); return n; }
  void step(Rng& g, int ml) {
    int k = g.below(2), v = g.below(9); bool room = (int)live[k].size() < ml; IN* t = live[k].empty() ? 0 : live[k][g.below(live[k].size())]; IN* n;
    switch(g.below(8)) {
    case 0: case 1: if(room) { n = mk(v); if(variant == 0) LLAdd<IN>(n, root[k], last[k]); else if(variant == 1) LLAdd<IN>(n, root[k]); else AltLLAdd<IN, getAlt>(n, root[k]); live[k].push_back(n); ev("AddFront", A(k + 1, v), A(n->id), state()); } break;
    case 2: if(room && variant != 2) { n = mk(v); if(variant == 0) { if(t && g.chance(40)) last[k] = LLAddAfter<IN>(n, last[k]); else LLAddAfter<IN>(n, root[k], last[k]); } else { if(!t) { LLAdd<IN>(n, root[k]); } else LLAddAfter<IN>(n, tail(k)); } live[k].push_back(n); ev("AddBack", A(k + 1, v), A(n->id), state()); } break;
    case 3: if(room && t && variant != 2) { n = mk(v); if(t->prev && g.chance(50)) LLInsert<IN>(n, t); else LLInsert<IN>(n, t, root[k]); live[k].push_back(n); ev("Before", A(k + 1, t->id, v), A(n->id), state()); } break;
    case 4: if(room && t && variant != 2) { n = mk(v); if(variant == 1 || (t->next && g.chance(50))) LLInsertAfter<IN>(n, t); else LLInsertAfter<IN>(n, t, last[k]); live[k].push_back(n); ev("After", A(k + 1, t->id, v), A(n->id), state()); } break;
    default: if(t) { if(variant == 0) { if(t->prev && t->next && g.chance(30)) LLRemove<IN>(t); else LLRemove<IN>(t, root[k], last[k]); } else if(variant == 1) { if(t->prev && g.chance(30)) LLRemove<IN>(t); else LLRemove<IN>(t, root[k]); } else AltLLRemove<IN, getAlt>(t, root[k]);
        live[k].erase(std::find(live[k].begin(), live[k].end(), t)); int id = t->id; memset(t, 0xEE, sizeof *t); ev("Remove", A(k + 1, id), A(), state()); }
    }
  }
  void runs(Rng& g, int var, long b) { for(long r = 0; r < b; ++r) { variant = var; nextId = 0; for(int k = 0; k < 2; ++k) { root[k] = last[k] = 0; live[k].clear(); } beginRun("{\"kind\":\"intrusive" + std::to_string(var) + "\"}"); for(int i = 0; i < 50; ++i) step(g, 6); for(IN* n : all) delete n; all.clear(); endRun(); } }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 13); long b = a.budget ? a.budget : 10;
  LD<StandardAllocator<LLNode<int>>, false, false>().runs(g, "list", b); LD<StandardAllocator<LLNode<int>>, true, false>().runs(g, "list+last", b); LD<StandardAllocator<LLNode<int>>, false, true>().runs(g, "list+size", b); LD<StandardAllocator<LLNode<int>>, true, true>().runs(g, "list+last+size", b);
  AD<size_t>().runs(g, "larray", b); AD<uint32_t>().runs(g, "larray32", b); AD<uint8_t>().runs(g, "larray8", b);
  for(int v = 0; v < 3; ++v) ID().runs(g, v, b);
  return finish();
}
