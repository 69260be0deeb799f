// Records serialized to and parsed from XML, for spec/XmlRecTrace.tla.
#include "vp.h"
#include <memory>
#include <array>
#include <sstream>
#include "bss-util/bss_util.h"
#include "bss-util/XML.h"
using namespace vp;
using namespace bss;
typedef std::string S;
static J codes(const S& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
struct Leaf { int n = 0; Str s; template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Leaf>(GenPair("n", n), GenPair("s", s)); } };
struct Sub { int16_t k = 0; std::vector<Leaf> t; template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Sub>(GenPair("k", k), GenPair("t", t)); } };
struct Rec {
  int i = 0; int8_t w = 0; Str s; bool b = false; double g = 0; DynArray<int> d; std::vector<Str> f; int x[3] = { 0, 0, 0 }; Sub sub; DynArray<Sub, size_t, ARRAY_SAFE> list; std::tuple<short, Str, bool> u; std::vector<bool> dummy;
  template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<Rec>(GenPair("i", i), GenPair("w", w), GenPair("s", s), GenPair("b", b), GenPair("g", g), GenPair("d", d), GenPair("f", f), GenPair("x", x), GenPair("sub", sub), GenPair("list", list), GenPair("u", u)); }
};
static J jsub(const Sub& q) { JA t; for(auto& l : q.t) t.push_back(A(l.n, codes(l.s))); return A((int)q.k, arr(t)); }
static J jrec(const Rec& r) {
  JA d, f, x, l; for(size_t i = 0; i < r.d.Length(); ++i) d.push_back(r.d[i]); for(auto& s : r.f) f.push_back(codes(s)); for(int v : r.x) x.push_back(v); for(size_t i = 0; i < r.list.Length(); ++i) l.push_back(jsub(r.list[i]));
  return A(r.i, (int)r.w, codes(r.s), r.b, (int)(r.g * 4), arr(d), arr(f), arr(x), jsub(r.sub), arr(l), A((int)std::get<0>(r.u), codes(std::get<1>(r.u)), std::get<2>(r.u)));
}
static Rng* G;
static S word(int n, bool text) { static const char* T[] = { "a", "c", "<", ">", "&", "\"", "'", "/", "=", "?", "-", "]", "\xc3\xa9", "&amp;", " ", "\n" }; S s; for(int k = G->below(n + 1); k > 0; --k) s += T[G->below(16)];
  if(text && s.find_first_not_of(" \n") == S::npos) s = ""; return s; }
static S esc(const S& s) { S r; for(char c : s) { if(c == '<') r += "&lt;"; else if(c == '&') r += "&amp;"; else if(c == '>') r += "&gt;"; else if(c == '"') r += "&quot;"; else r += c; } return r; }
static S num(int lim) { int v = (int)G->range(-lim, lim); if(v >= 0 && G->chance(15)) { char b[16]; snprintf(b, sizeof b, "0x%X", v); return b; } return std::to_string(v); }
static S quarter() { char b[24]; snprintf(b, sizeof b, "%g", (int)G->range(-300, 300) / 4.0); return b; }
static S truth() { static const char* T[] = { "true", "false", "1", "0", "7" }; return T[G->below(5)]; }
static S node(const char* n, const S& v) { return S("<") + n + ">" + esc(v) + "</" + n + ">"; }
static S attr(const char* n, const S& v) { return S(" ") + n + "=\"" + esc(v) + "\""; }
static void shuffle(std::vector<S>& v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[G->below(i)]); }
static S join(const std::vector<S>& v) { S r; for(auto& s : v) r += s; return r; }
static S subText(const char* n) { std::vector<S> a, c; if(G->chance(80)) a.push_back(attr("k", num(3000))); if(G->chance(15)) a.push_back(attr("other", word(3, false)));
  for(int k = G->below(4); k > 0; --k) c.push_back(S("<t") + (G->chance(85) ? attr("n", num(99999)) : S()) + (G->chance(60) ? attr("s", word(4, false)) : S()) + "/>");
  if(G->chance(15)) c.push_back("<other><t n=\"5\"/></other>"); shuffle(a); return S("<") + n + join(a) + ">" + join(c) + "</" + n + ">"; }
static S recText() {
  std::vector<S> a, c;
  auto scalar = [&](const char* n, const S& v, bool text) { if(!G->chance(80)) return; if(G->chance(80) ) a.push_back(attr(n, v)); else if(!text || v.find_first_not_of(" \n") != S::npos) c.push_back(node(n, v)); };
  scalar("i", num(99999), false); scalar("w", num(127), false); scalar("s", word(5, false), true); scalar("b", truth(), false); scalar("g", quarter(), false);
  for(int k = G->below(5); k > 0; --k) c.push_back(node("d", num(9999)));
  for(int k = G->below(4); k > 0; --k) c.push_back(node("f", word(4, true)));
  for(int k = G->below(4); k > 0; --k) c.push_back(node("x", num(9999)));
  if(G->chance(70)) c.push_back(subText("sub"));
  for(int k = G->below(3); k > 0; --k) c.push_back(subText("list"));
  if(G->chance(20)) c.push_back("<other><i>5</i><d>6</d></other>"); if(G->chance(15)) a.push_back(attr("other", "5"));
  shuffle(a); shuffle(c);
  if(G->chance(40)) { c.push_back(node("u", num(999))); c.push_back(node("u", word(4, true))); c.push_back(node("u", truth())); }
  return S(G->chance(50) ? "<?xml version=\"1.0\"?>" : "") + "<rec" + join(a) + ">" + join(c) + "</rec>";
}
static void fill(Sub& q) { q.k = (int16_t)G->range(-3000, 3000); for(int k = G->below(4); k > 0; --k) { Leaf l; l.n = (int)G->range(-99999, 99999); l.s = word(4, false).c_str(); q.t.push_back(l); } }
static void fill(Rec& r) {
  r.i = (int)G->range(-2000000, 2000000); r.w = (int8_t)G->range(-128, 127); r.s = word(6, false).c_str(); r.b = G->chance(50); r.g = (int)G->range(-300, 300) / 4.0;
  for(int k = G->below(5); k > 0; --k) r.d.Add((int)G->range(-9999, 9999)); for(int k = G->below(4); k > 0; --k) r.f.push_back(Str(word(4, true).c_str()));
  for(int& v : r.x) v = (int)G->range(-999, 999); fill(r.sub); for(int k = G->below(3); k > 0; --k) { Sub q; fill(q); r.list.Add(q); }
  r.u = std::make_tuple((short)G->range(-999, 999), Str(word(4, true).c_str()), G->chance(50));
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 4783 + 29); G = &g;
  for(long it = 0; it < a.budget; ++it) {
    beginRun("{}"); Serializer<XMLEngine> s; // one serializer is used again and again
    for(int n = 1 + g.below(4); n > 0; --n) {
      if(g.chance(50)) { Rec r; fill(r); s.engine.pretty = g.chance(50); std::stringstream ss; s.Serialize(r, ss, "rec"); S t = ss.str(); Rec q; s.Parse(q, ss, "rec"); ev("Round", A(jrec(r)), A(codes(t), jrec(q)), A()); }
      else { S t = recText(); bool miss = g.chance(5); Rec r; std::istringstream ss(t); s.Parse(r, ss, miss ? "nope" : "rec"); ev("Parse", A(codes(t), miss), A(jrec(r)), A()); }
    }
    endRun();
  }
  return finish();
}
