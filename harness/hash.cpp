// Histories of Hash / HashIns over several key kinds, hash functions and value kinds (C13).
#include "vp.h"
#include "bss-util/Hash.h"
using namespace bss; using namespace vp;
// Key policies: mk(id, variant) builds a key, id(key) identifies it.
static khint_t hConst(const int&) { return 5; }
static khint_t hMod3(const int& k) { return (khint_t)(k % 3) * 31; }
static khint_t hId(const int& k) { return (khint_t)k; }
static khint_t hHigh(const int& k) { return (khint_t)k << 27; }
struct KInt { typedef int K; static K mk(int i, Rng&) { return i * 7 - 3; } static int id(const K& k) { return (k + 3) / 7; } };
struct KSmall { typedef int K; static K mk(int i, Rng&) { return i; } static int id(const K& k) { return k; } };
struct K64 { typedef uint64_t K; static K mk(int i, Rng&) { return (uint64_t)i << 33 | 1; } static int id(const K& k) { return (int)(k >> 33); } };
struct KU8 { typedef uint8_t K; static K mk(int i, Rng&) { return (uint8_t)i; } static int id(const K& k) { return k; } };
static std::string sname(int i) { return (i % 2 ? "Key" : "a rather longer key name ") + std::to_string(i); }
struct KStr { typedef std::string K; static K mk(int i, Rng&) { return sname(i); } static int id(const K& k) { size_t p = k.find_first_of("0123456789"); return p == std::string::npos ? -9 : sname(atoi(k.c_str() + p)) == k ? atoi(k.c_str() + p) : -9; } };
static std::vector<std::string*> pool;
struct KStrI { typedef std::string K; static K mk(int i, Rng& g) { std::string s = sname(i); for(auto& c : s) if(isalpha(c) && g.chance(50)) c = (char)(isupper(c) ? tolower(c) : toupper(c)); return s; }
  static int id(const K& k) { size_t p = k.find_first_of("0123456789"); return p == std::string::npos ? -9 : atoi(k.c_str() + p); } };
struct KCStr { typedef const char* K; static K mk(int i, Rng&) { pool.push_back(new std::string(sname(i))); return pool.back()->c_str(); } static int id(const K& k) { return KStr::id(std::string(k)); } };
struct KCStrI { typedef const char* K; static K mk(int i, Rng& g) { pool.push_back(new std::string(KStrI::mk(i, g))); return pool.back()->c_str(); } static int id(const K& k) { return KStrI::id(std::string(k)); } };
struct KPair { typedef std::pair<int, uint8_t> K; static K mk(int i, Rng&) { return K(i / 5, (uint8_t)(i % 5)); } static int id(const K& k) { return k.first * 5 + k.second; } };
struct KTup { typedef std::tuple<int, std::string> K; static K mk(int i, Rng&) { return K(i / 4, sname(i % 4)); } static int id(const K& k) { return std::get<0>(k) * 4 + KStr::id(std::get<1>(k)); } };
struct KWStr { typedef std::wstring K; static K mk(int i, Rng&) { std::string s = sname(i); std::wstring w(s.begin(), s.end()); w += (wchar_t)(0x3b1 + i % 3); return w; } static int id(const K& k) { if(k.empty()) return -9; std::string s; for(size_t i = 0; i + 1 < k.size(); ++i) s += (char)k[i]; return KStr::id(s); } };
struct KWStrI { typedef std::wstring K; static K mk(int i, Rng& g) { std::string s = KStrI::mk(i, g); return std::wstring(s.begin(), s.end()); } static int id(const K& k) { return KStrI::id(std::string(k.begin(), k.end())); } };
static std::vector<std::wstring*> wpool;
struct KWC { typedef const wchar_t* K; static K mk(int i, Rng& g) { wpool.push_back(new std::wstring(KWStr::mk(i, g))); return wpool.back()->c_str(); } static int id(const K& k) { return KWStr::id(std::wstring(k)); } };
// Value policies
enum class En : int16_t { };
struct VEnum { typedef En V; static V mk(int v) { return (En)v; } static int id(const V& v) { return (int)v; } static int get(En g) { return (int)g; } static const int none = -1; };
static int cells[64];
struct VPtr { typedef int* V; static V mk(int v) { return cells + v; } static int id(const V& v) { return v >= cells && v < cells + 64 ? (int)(v - cells) : -8; } static int get(int* g) { return g ? id(g) : -1; } static const int none = -1; };
struct VU64 { typedef uint64_t V; static V mk(int v) { return ((uint64_t)v << 40) | (unsigned)v; } static int id(const V& v) { return v == mk((int)(v >> 40)) ? (int)(v >> 40) : -8; } static int get(uint64_t g) { return g == ~0ULL ? -1 : id(g); } static const int none = -1; };
struct VInt { typedef int V; static V mk(int v) { return v; } static int id(const V& v) { return v; } static int get(int g) { return g; } static const int none = -1; };
struct VStr { typedef std::string V; static V mk(int v) { return "value " + std::to_string(v) + (v % 2 ? " and some more text" : ""); } static int id(const V& v) { return v.size() > 6 && mk(atoi(v.c_str() + 6)) == v ? atoi(v.c_str() + 6) : -8; } static int get(const char* g) { return g ? id(g) : -1; } static const int none = -1; };
struct VPod { int v, w; };
struct VP { typedef VPod V; static V mk(int v) { return V{ v, ~v }; } static int id(const V& v) { return v.w == ~v.v ? v.v : -8; } static int get(VPod* g) { return g ? id(*g) : -1; } static const int none = -1; };
struct VUniq { typedef std::unique_ptr<int> V; static V mk(int v) { return V(new int(v)); } static int id(const V& v) { return v ? *v : -8; } static int get(int* g) { return g ? *g : -1; } static const int none = -1; };
struct VVoid { static const int none = 0; };

template<class C, class KP, class VP_, bool COPY> struct D {
  typedef typename KP::K K; static const bool MAP = C::IsMap; C* o[2];
  std::vector<std::pair<int, int>> view(int k, bool& ok) {
    C& c = *o[k]; const C& cc = c; std::vector<std::pair<int, int>> r, r2;
    for(auto it = c.begin(); it != c.end(); ++it) {
      if constexpr(MAP) r.push_back({ KP::id(std::get<0>(*it)), VP_::id(std::get<1>(*it)) }); else r.push_back({ KP::id(*it), 0 });
      if(r.size() > 5000) { ok = false; break; } }
    for(khiter_t i = cc.Front(); i != cc.Back(); ++i) if(cc.ExistsIter(i)) { if constexpr(MAP) r2.push_back({ KP::id(cc.GetKey(i)), VP_::get(cc.GetValue(i)) }); else r2.push_back({ KP::id(cc.GetKey(i)), 0 }); }
    if(r != r2) ok = false;
    { size_t n = 0; for(auto it = cc.begin(); !(it == cc.end()); ++n) { auto was = it++; int key; if constexpr(MAP) key = KP::id(std::get<0>(*was)); else key = KP::id(*was); if(n >= r.size() || key != r[n].first || was == it) { ok = false; break; } } if(n != r.size()) ok = false; }
    std::vector<std::pair<int, int>> r3; auto e = cc.end(); --e; while(r3.size() <= r.size() && e != cc.end()) { if constexpr(MAP) r3.push_back({ KP::id(std::get<0>(*e)), VP_::id(std::get<1>(*e)) }); else r3.push_back({ KP::id(*e), 0 }); --e; }
    std::reverse(r3.begin(), r3.end()); if(c.Capacity() && r3 != r) ok = false;
    std::sort(r.begin(), r.end()); return r;
  }
  J state(bool full) {
    bool ok = true; std::string s = "{\"n\":[" + std::to_string((int)o[0]->Length()) + "," + std::to_string((int)o[1]->Length()) + "],\"full\":" + (full ? "true" : "false") + ",\"x\":[";
    for(int k = 0; k < 2; ++k) { if(k) s += ","; s += "["; if(full) { auto v = view(k, ok); for(size_t i = 0; i < v.size(); ++i) s += (i ? ",[" : "[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; } s += "]"; }
    return raw(s + "],\"ok\":" + (ok ? "true" : "false") + "}");
  }
  void find(int k, int id, Rng& g, bool full) {
    C& c = *o[k]; const C& cc = c; K key = KP::mk(id, g); std::vector<bool> ex; std::vector<int> vs; std::vector<J> exj;
    khiter_t it = cc.Iterator(key); exj.push_back(J(cc.Exists(key))); exj.push_back(J(cc.ExistsIter(it))); exj.push_back(J(cc(key)));
    if constexpr(MAP) {
      vs.push_back(VP_::get(cc.Get(key))); vs.push_back(VP_::get(cc[key])); vs.push_back(VP_::get(cc.GetValue(it)));
      auto* p = c.PointerValue(it); exj.push_back(J(p != 0)); if(p) vs.push_back(VP_::id(*p));
      if constexpr(COPY) { typename VP_::V out = VP_::mk(77); bool b = cc(key, out); exj.push_back(J(b)); if(b) vs.push_back(VP_::id(out)); }
      if(cc.ExistsIter(it)) { vs.push_back(VP_::id(cc.Value(it))); exj.push_back(J(KP::id(cc.GetKey(it)) == id)); }
    }
    ev("Find", A(k + 1, id), A(arr(exj), vs), state(full));
  }
  void step(Rng& g, int dom, bool full, int bias) {
    int k = g.below(2), p = 1 - k; C& c = *o[k]; int id = g.below(dom), v = g.below(50); int w = g.below(100);
    if(w < bias) { // insert
      K key = KP::mk(id, g); khiter_t it; int kk = -5, vv = -5;
      if constexpr(MAP) {
        if constexpr(COPY) switch(g.below(4)) {
          case 0: { auto val = VP_::mk(v); it = c.Insert((const K&)key, (const typename VP_::V&)val); break; }
          case 1: it = c.Insert((const K&)key, VP_::mk(v)); break;
          case 2: { auto val = VP_::mk(v); it = c.Insert(std::move(key), (const typename VP_::V&)val); break; }
          default: it = c.Insert(std::move(key), VP_::mk(v)); }
        else it = c.Insert((const K&)key, VP_::mk(v));
        if(c.ExistsIter(it)) { kk = KP::id(c.GetKey(it)); vv = VP_::id(c.Value(it)); }
      } else { v = 0; if(g.chance(50)) it = c.Insert((const K&)key); else it = c.Insert(std::move(key)); if(c.ExistsIter(it)) { kk = KP::id(c.GetKey(it)); vv = 0; } }
      ev("Insert", A(k + 1, id, v), A(kk, vv), state(full));
    } else if(w < bias + 25) { K key = KP::mk(id, g); bool r; if(g.chance(50)) r = c.Remove(key); else r = c.RemoveIter(c.Iterator(key)); ev("Remove", A(k + 1, id), A(r), state(full)); }
    else if(w < bias + 32) { if constexpr(MAP) { K key = KP::mk(id, g); bool r; if constexpr(COPY) { auto val = VP_::mk(v); if(g.chance(50)) r = c.Set(key, (const typename VP_::V&)val); else r = c.SetValue(c.Iterator(key), (const typename VP_::V&)val); } else r = g.chance(50) ? c.Set(key, VP_::mk(v)) : c.SetValue(c.Iterator(key), VP_::mk(v)); ev("Set", A(k + 1, id, v), A(r), state(full)); } }
    else if(w < 93) find(k, id, g, full);
    else if(w < 94) { if(g.chance(40)) { c.Clear(); ev("Clear", A(k + 1), A(), state(full)); } }
    else if(w < 96) { c.SetCapacity(g.below(150)); ev("Reserve", A(k + 1), A(), state(full)); }
    else if(w < 98) { if constexpr(COPY) { if(g.chance(15)) { c = c; ev("Copy", A(k + 1, k + 1), A(), state(full)); } else { if(g.chance(50)) c = *o[p]; else { delete o[k]; o[k] = new C(*o[p]); } ev("Copy", A(k + 1, p + 1), A(), state(full)); } } }
    else { if(g.chance(50)) c = std::move(*o[p]); else { delete o[k]; o[k] = new C(std::move(*o[p])); } ev("Move", A(k + 1, p + 1), A(), state(true)); }
  }
  // a sliding window of keys: every insertion is followed, sooner or later, by the removal of an old key, so tombstones pile up while the table stays small
  void churn(Rng& g, int domCap, bool full) {
    int k = g.below(2), win = 1 + g.below(12), head = 0, tail = 0, n = 60 + g.below(120);
    for(int i = 0; i < n; ++i) {
      C& c = *o[k]; int id = head++ % domCap, v = g.below(50); K key = KP::mk(id, g); int kk = -5, vv = -5; khiter_t it;
      if constexpr(MAP) { it = c.Insert((const K&)key, VP_::mk(v)); if(c.ExistsIter(it)) { kk = KP::id(c.GetKey(it)); vv = VP_::id(c.Value(it)); } } else { v = 0; it = c.Insert((const K&)key); if(c.ExistsIter(it)) { kk = KP::id(c.GetKey(it)); vv = 0; } }
      ev("Insert", A(k + 1, id, v), A(kk, vv), state(full || i % 10 == 9));
      while(head - tail > win) { int d = tail++ % domCap; K dk = KP::mk(d, g); bool r = c.Remove(dk); ev("Remove", A(k + 1, d), A(r), state(full)); }
      if(g.chance(10)) find(k, g.below(head) % domCap, g, full);
      if(g.chance(3)) win = 1 + g.below(12);
    }
  }
  void runs(Rng& g, const char* nm, long b, int domCap = 100000) {
    for(long r = 0; r < b; ++r) {
      for(auto& p : o) p = g.chance(70) ? new C() : new C(g.below(70));
      beginRun(std::string("{\"kind\":\"") + nm + "\",\"none\":" + std::to_string(VP_::none) + "}");
      int mode = g.below(3); int dom = std::min(domCap, mode == 0 ? 12 : mode == 1 ? 40 : 150); int steps = mode == 2 ? 350 : 90; int bias = 30 + g.below(25);
      for(int i = 0; i < steps; ++i) step(g, dom, mode < 2 || i % 25 == 24, mode == 2 && i > 200 ? 15 : bias);
      if(g.chance(30)) churn(g, domCap, false);
      for(auto p : o) delete p;
      for(auto s : wpool) delete s; wpool.clear();
      for(auto s : pool) delete s; pool.clear();
      endRun();
    }
  }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 17); long b = a.budget ? a.budget : 6;
  D<Hash<int, int>, KInt, VInt, true>().runs(g, "int", b);
  D<Hash<int, int, ARRAY_SIMPLE, &hConst>, KSmall, VInt, true>().runs(g, "const-hash", b);
  D<Hash<int, int, ARRAY_SIMPLE, &hMod3>, KSmall, VInt, true>().runs(g, "mod3-hash", b);
  D<Hash<int, VPod, ARRAY_SIMPLE, &hId>, KSmall, VP, true>().runs(g, "id-hash/pod", b);
  D<Hash<int, int, ARRAY_SIMPLE, &hHigh>, KSmall, VInt, true>().runs(g, "high-hash", b);
  D<Hash<uint64_t, std::string, ARRAY_SAFE>, K64, VStr, true>().runs(g, "u64/string", b);
  D<Hash<uint8_t, int>, KU8, VInt, true>().runs(g, "u8", b, 200);
  D<Hash<std::string, int, ARRAY_SAFE>, KStr, VInt, true>().runs(g, "string/int", b);
  D<Hash<std::string, std::string, ARRAY_SAFE>, KStr, VStr, true>().runs(g, "string/string", b);
  D<Hash<std::string, void, ARRAY_SAFE>, KStr, VVoid, true>().runs(g, "string set", b);
  D<Hash<int>, KInt, VVoid, true>().runs(g, "int set", b);
  D<Hash<int, std::unique_ptr<int>, ARRAY_MOVE>, KInt, VUniq, false>().runs(g, "int/unique_ptr", b);
  D<Hash<const char*, int>, KCStr, VInt, true>().runs(g, "cstr", b);
  D<HashIns<const char*, int>, KCStrI, VInt, true>().runs(g, "cstr nocase", b);
  D<HashIns<std::string, int, ARRAY_SAFE>, KStrI, VInt, true>().runs(g, "string nocase", b);
  D<Hash<std::pair<int, uint8_t>, int>, KPair, VInt, true>().runs(g, "pair", b);
  D<Hash<std::tuple<int, std::string>, int, ARRAY_SAFE>, KTup, VInt, true>().runs(g, "tuple", b);
  D<Hash<std::wstring, int, ARRAY_SAFE>, KWStr, VInt, true>().runs(g, "wstring", b);
  D<Hash<const wchar_t*, int>, KWC, VInt, true>().runs(g, "wide cstr", b);
  D<HashIns<std::wstring, En, ARRAY_SAFE>, KWStrI, VEnum, true>().runs(g, "wstring nocase/enum", b);
  D<Hash<int, int*>, KInt, VPtr, true>().runs(g, "int/pointer", b);
  D<Hash<int, En>, KInt, VEnum, true>().runs(g, "int/enum", b);
  D<Hash<int, uint64_t>, KInt, VU64, true>().runs(g, "int/u64", b);
  return finish();
}
