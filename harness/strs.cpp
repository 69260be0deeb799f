// C19: Trie and StringTable.  Strings are logged as sequences of byte values.
#include "vp.h"
#include <memory>
#include <sstream>
#include "bss-util/Trie.h"
#include "bss-util/StringTable.h"
using namespace bss; using namespace vp;
typedef std::string Sx;
static J js(const Sx& s) { std::vector<int> v; for(unsigned char c : s) v.push_back(c); return J(v); }
static J jss(const std::vector<Sx>& v) { JA a; for(auto& s : v) a.push_back(js(s)); return arr(a); }
static Sx fold(Sx s) { for(auto& c : s) if(c >= 'A' && c <= 'Z') c += 32; return s; }
static Sx flip(Rng& g, Sx s) { for(auto& c : s) if(g.chance(50)) { if(c >= 'A' && c <= 'Z') c += 32; else if(c >= 'a' && c <= 'z') c -= 32; } return s; }
static int alpha(Rng& g, int kind) { switch(kind) { case 0: return 'a' + g.below(2); case 1: return "abAB"[g.below(4)]; case 2: return 'A' + g.below(60); case 3: { static const int c[] = { 1, 2, 64, 65, 90, 91, 96, 97, 122, 123, 127, 128, 129, 200, 223, 254, 255 }; return c[g.below(17)]; } default: return 1 + g.below(255); } }
static Sx word(Rng& g, int kind, int maxlen) { Sx s; int n = g.below(maxlen + 1); for(int i = 0; i < n; ++i) s += (char)alpha(g, kind); return s; }

template<class T, bool IC> struct TD {
  typedef Trie<T, IC> C;
  static J one(long r) { return J(r); }
  static long res(T r) { return r == (T)-1 ? -1 : (long)r; }
  static void look(C& c, const Sx& w, Rng& g) {
    bool nul = w.find('\0') != Sx::npos; int how = g.below(3); T r;
    // exact-sized heap copies so that reading past the end of the key is seen
    if(how == 2 || nul) { char* p = (char*)malloc(w.size() ? w.size() : 1); memcpy(p, w.data(), w.size()); r = c.Get(p, (T)w.size()); free(p); }
    else { char* p = (char*)malloc(w.size() + 1); memcpy(p, w.c_str(), w.size() + 1); r = how ? c[p] : c.Get(p); free(p); }
    ev("Get", A(js(w)), A(res(r)), J(0));
  }
  static C* build(const std::vector<Sx>& k, Rng& g) {
    std::vector<char*> own; for(auto& s : k) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); own.push_back(p); }
    C* c; const char* const* p = own.data();
    if(k.size() == 3 && g.chance(50)) { const char* a[3] = { p[0], p[1], p[2] }; c = new C(a); }
    else if(k.size() == 3) c = new C((T)3, p[0], p[1], p[2]);
    else if(k.size() == 5 && g.chance(60)) c = new C((T)5, p[0], p[1], p[2], p[3], p[4]);
    else c = new C((T)k.size(), p);
    for(auto q : own) free(q); // the trie must not need them any more
    return c;
  }
  static void run(const std::vector<Sx>& k, const std::vector<Sx>& q, Rng& g) {
    beginRun(std::string("{\"kind\":\"trie\",\"ic\":") + (IC ? "true" : "false") + "}");
    C* c = build(k, g); ev("Build", A(jss(k)), A((long)c->Length()), J(0));
    C* d = 0;
    for(size_t i = 0; i < q.size(); ++i) {
      look(*c, q[i], g);
      if(g.chance(4)) { int w = g.below(5);
        if(w == 0) { C* n = new C(*c); delete c; c = n; } else if(w == 1) { C* n = new C(std::move(*c)); delete c; c = n; }
        else if(w == 2) { std::vector<Sx> o = { "zz", "b", "" }; C* n = build(o, g); *n = *c; delete c; c = n; }
        else if(w == 3) { std::vector<Sx> o = { "q" }; C* n = build(o, g); *n = std::move(*c); delete c; c = n; }
        else *c = *c;
        ev("Same", A(), A((long)c->Length()), J(0)); }
    }
    delete c; endRun();
  }
  static void random(Rng& g, long b) {
    for(long r = 0; r < b; ++r) {
      int kind = g.below(5), ml = 1 + g.below(g.chance(70) ? 4 : 9), n = 1 + g.below(sizeof(T) == 1 ? 24 : 40); std::vector<Sx> k; std::set<Sx> seen, pre;
      long nodes = 0;
      for(int t = 0; t < 3 * n && (int)k.size() < n; ++t) {
        Sx w = (k.size() && g.chance(50)) ? k[g.below(k.size())] + word(g, kind, 2) : (k.size() && g.chance(30)) ? k[g.below(k.size())].substr(0, g.below(4)) : word(g, kind, ml);
        if(w.size() > 12) continue;
        Sx f = IC ? fold(w) : w; if(!seen.insert(f).second) continue;
        std::set<Sx> p2; for(size_t i = 0; i <= f.size(); ++i) if(!pre.count(f.substr(0, i))) p2.insert(f.substr(0, i));
        if(sizeof(T) == 1 && 2 * (pre.size() + p2.size()) + 2 >= 250) continue; // safely below the number of nodes the index type can address
        for(auto& s : p2) pre.insert(s);
        k.push_back(w);
      }
      if(k.empty()) continue;
      std::vector<Sx> q;
      for(auto& w : k) { q.push_back(w); if(IC) q.push_back(flip(g, w)); if(g.chance(40)) q.push_back(w + Sx(1, (char)alpha(g, kind))); if(g.chance(30) && w.size()) q.push_back(w.substr(0, g.below(w.size()))); if(g.chance(30) && w.size()) { Sx x = w; x[g.below(x.size())] = (char)alpha(g, kind); q.push_back(x); } if(g.chance(10)) q.push_back(w + Sx(1, '\0')); if(g.chance(10) && w.size()) { Sx x = w; x[g.below(x.size())] = (char)(w[0] ^ (g.chance(50) ? 128 : 32)); q.push_back(x); } if(g.chance(10)) q.push_back(flip(g, w)); }
      for(int i = 0; i < 10; ++i) q.push_back(word(g, kind, ml + 1));
      q.push_back(""); q.push_back(Sx(1, '\0'));
      run(k, q, g);
    }
  }
  // every non-empty subset of the strings of length <= 2 over {x,y}, every query of length <= 3
  static void exhaustive(Rng& g, char x, char y, int part, int parts, int maxsub) {
    std::vector<Sx> u = { "" }; for(char a : { x, y }) { u.push_back(Sx(1, a)); for(char b : { x, y }) u.push_back(Sx(1, a) + b); }
    std::vector<Sx> q = { "" }; for(size_t i = 0; i < q.size(); ++i) if(q[i].size() < 3) { q.push_back(q[i] + x); q.push_back(q[i] + y); }
    for(int m = 1; m < maxsub; ++m) { if(m % parts != part) continue; std::vector<Sx> k; for(int i = 0; i < 7; ++i) if(m >> i & 1) k.push_back(u[i]); for(int i = (int)k.size() - 1; i > 0; --i) std::swap(k[i], k[g.below(i + 1)]); run(k, q, g); }
  }
};
// a trie close to the limits of an 8-bit index
static void big(Rng& g) {
  for(int r = 0; r < 4; ++r) {
    std::vector<Sx> k; int n = r == 0 ? 120 : 60 + g.below(60); for(int i = 0; i < n; ++i) k.push_back(Sx(1, (char)(r & 1 ? 255 - i : 1 + i)));
    if(r == 3) { k.clear(); Sx s; for(int i = 0; i < 200; ++i) { s += (char)('a' + i % 26); if(i % 17 == 3) k.push_back(s); } }
    for(int i = (int)k.size() - 1; i > 0; --i) std::swap(k[i], k[g.below(i + 1)]);
    std::vector<Sx> q = k; for(int i = 0; i < 30; ++i) q.push_back(word(g, 4, 2));
    TD<uint8_t, false>::run(k, q, g); TD<uint16_t, false>::run(k, q, g);
  }
}
template<class T> struct Len { static Sx str(const T* p) { Sx s; while(*p) s += (char)*p++; return s; } };
template<class T, class CT> struct SD {
  typedef StringTable<T, CT> C; C* o[2];
  typedef std::basic_string<T> TS;
  static TS conv(const Sx& s) { TS r; for(unsigned char c : s) r += (T)c; return r; }
  J state() { JA x; bool ok = true; for(int k = 0; k < 2; ++k) { JA v; CT tot = 0; for(CT i = 0; i < o[k]->Length(); ++i) { Sx s = Len<T>::str(o[k]->GetString(i)); if((*o[k])[i] != o[k]->GetString(i)) ok = false; tot += s.size() + 1; v.push_back(js(s)); } if(tot != o[k]->TotalWordCapacity()) ok = false; x.push_back(arr(v)); } return raw("{\"x\":" + arr(x).s + ",\"ok\":" + (ok ? "true" : "false") + "}"); }
  C* make(const std::vector<Sx>& v, Rng& g) {
    std::vector<T*> p; for(auto& s : v) { T* q = (T*)malloc((s.size() + 1) * sizeof(T)); TS t = conv(s); memcpy(q, t.c_str(), (t.size() + 1) * sizeof(T)); p.push_back(q); }
    C* r; if(v.size() == 2 && g.chance(50)) { const T* a[2] = { p[0], p[1] }; r = new C(a); } else r = new C((const T* const*)(p.size() ? p.data() : 0), (CT)p.size());
    for(auto q : p) free(q); return r;
  }
  std::vector<Sx> rnd(Rng& g) { std::vector<Sx> v; int n = g.below(5); for(int i = 0; i < n; ++i) v.push_back(word(g, g.below(5), g.chance(80) ? 4 : 20)); return v; }
  void run(Rng& g) {
    beginRun("{\"kind\":\"table\"}"); o[0] = make({}, g); o[1] = make({}, g);
    int steps = 10 + g.below(25);
    for(int i = 0; i < steps; ++i) {
      int k = g.below(2), p = 1 - k; CT tot = o[0]->TotalWordCapacity() + o[1]->TotalWordCapacity(); bool room = tot < 100;
      switch(g.below(10)) {
      case 0: case 1: { auto v = rnd(g); delete o[k]; o[k] = make(v, g); ev("Make", A(k + 1, jss(v)), A(), state()); break; }
      default: if constexpr(sizeof(T) == 1) if(room) { Sx s = word(g, g.below(5), g.chance(80) ? 4 : 20); char* q = (char*)malloc(s.size() + 1); memcpy(q, s.c_str(), s.size() + 1); if(g.chance(50)) o[k]->AppendString(q); else *o[k] += (const char*)q; free(q); ev("Add", A(k + 1, js(s)), A(), state()); } break;
      case 4: if(room) { int w = g.chance(30) ? k : p; *o[k] += *o[w]; ev("Cat", A(k + 1, k + 1, w + 1), A(), state()); } break;
      case 5: if(room) { int w = g.below(2); C t(*o[w] + *o[p]); delete o[k]; o[k] = new C(t); ev("Cat", A(k + 1, w + 1, p + 1), A(), state()); } break;
      case 6: { int w = g.chance(20) ? k : p; if(g.chance(50) || w == k) *o[k] = *o[w]; else { delete o[k]; o[k] = new C(*o[w]); } ev("Copy", A(k + 1, w + 1), A(), state()); break; }
      case 7: { if(g.chance(50)) *o[k] = std::move(*o[p]); else { delete o[k]; o[k] = new C(std::move(*o[p])); } delete o[p]; o[p] = make({}, g); ev("Move", A(k + 1, p + 1), A(), state()); break; }
      case 8: { std::stringstream s; o[p]->DumpToStream(&s); Sx d = s.str(); s.seekg(0); delete o[k]; o[k] = new C(&s, (CT)d.size()); ev("Copy", A(k + 1, p + 1), A(), state()); break; }
      }
    }
    delete o[0]; delete o[1]; endRun();
  }
  void runs(Rng& g, long b) { for(long i = 0; i < b; ++i) run(g); }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int part = atoi(a.part.c_str()), parts = 1; size_t sl = a.part.find('/'); if(sl != Sx::npos) parts = atoi(a.part.c_str() + sl + 1);
  Rng g(a.seed * 7919 + 19 + part * 104729); long b = a.budget ? a.budget : 40;
  TD<uint8_t, false>::exhaustive(g, 'a', 'b', part % parts, parts, 128); TD<uint16_t, true>::exhaustive(g, 'B', 'a', part % parts, parts, 128); TD<uint8_t, false>::exhaustive(g, (char)127, (char)128, part % parts, parts, 128);
  TD<uint8_t, false>::random(g, b); TD<uint8_t, true>::random(g, b); TD<uint16_t, false>::random(g, b); TD<uint32_t, true>::random(g, b / 2); TD<size_t, false>::random(g, b / 2);
  if(part == 0) big(g);
  SD<char, size_t>().runs(g, b); SD<char, uint8_t>().runs(g, b); SD<wchar_t, uint32_t>().runs(g, b / 2);
  return finish();
}
