// JSON documents written, parsed and streamed by the serializer, for spec/JsonTrace.tla.
#include "vp.h"
#include <memory>
#include <sstream>
#include <cstring>
#include "bss-util/bss_util.h"
#include "bss-util/Hash.h"
#include "bss-util/JSON.h"
#include "bss-util/CompactArray.h"
#include "bss-util/Stack.h"
#include "bss-util/Geometry.h"
using namespace vp;
using namespace bss;
static J codes(const std::string& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
static J kv(const char* k, J v) { return A(k, v); }
// ---- values
struct V { char k = 'n'; std::string s; int64_t i = 0; double d = 0; std::vector<V> a; std::vector<std::pair<std::string, V>> o; };
static std::string dec(double d) { char b[64]; snprintf(b, 64, "%.12g", d); return b; }
static J jv(const V& v) {
  JA r;
  switch(v.k) {
  case 's': return kv("s", codes(v.s));
  case 'i': return kv("i", codes(std::to_string(v.i)));
  case 'd': return kv("d", codes(dec(v.d)));
  case 'b': return kv("b", (int)(v.i != 0));
  case 'a': for(auto& x : v.a) r.push_back(jv(x)); return kv("a", arr(r));
  case 'o': for(auto& x : v.o) r.push_back(A(codes(x.first), jv(x.second))); return kv("o", arr(r));
  }
  return kv("n", 0);
}
static J jo(const JSONValue& v) {
  JA r;
  switch(v.tag()) {
  case JSONValue::Type<Str>::value: return kv("s", codes(v.get<Str>()));
  case JSONValue::Type<double>::value: return kv("d", codes(dec(v.get<double>())));
  case JSONValue::Type<int64_t>::value: return kv("i", codes(std::to_string(v.get<int64_t>())));
  case JSONValue::Type<bool>::value: return kv("b", (int)v.get<bool>());
  case JSONValue::Type<JSONValue::JSONArray>::value: for(auto& x : v.get<JSONValue::JSONArray>()) r.push_back(jo(x)); return kv("a", arr(r));
  case JSONValue::Type<JSONValue::JSONObject>::value: for(auto& x : v.get<JSONValue::JSONObject>()) r.push_back(A(codes(x.first), jo(x.second))); return kv("o", arr(r));
  }
  return kv("n", 0);
}
static void to(const V& v, JSONValue& r) {
  switch(v.k) {
  case 's': { Str s; s.assign(v.s.data(), v.s.size()); r = s; } break;
  case 'i': r = (int64_t)v.i; break;
  case 'd': r = v.d; break;
  case 'b': r = (v.i != 0); break;
  case 'a': { JSONValue::JSONArray a; for(auto& x : v.a) { a.AddConstruct(); to(x, a.Back()); } r = a; } break;
  case 'o': { JSONValue::JSONObject a; for(auto& x : v.o) { std::pair<Str, JSONValue> y; y.first = Str(x.first.c_str()); to(x.second, y.second); a.Add(y); } r = a; } break;
  }
}
static std::string rstr(Rng& g, bool key) {
  static const char* P[] = { "a", "b", "key", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", ",", "}", "]", "{", "[", ":", " ", "true", "null", "5", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01", "\x7f", "\xff", "u0041", "'" };
  std::string r; for(int n = g.below(4); n > 0; --n) r += P[g.below(sizeof(P) / sizeof(*P))];
  if(g.chance(15)) { static const int C[] = { 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x103ff, 0x10ffff, 0x1f }; int c = g.chance(50) ? C[g.below(12)] : 1 + (int)g.below(0xd000); // any code point
    if(c < 0x80) r += (char)c; else if(c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if(c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } }
  if(!key && g.chance(4)) r.push_back('\0'), r += "z";
  return r;
}
static int64_t rint(Rng& g) { static const int64_t X[] = { 0, 1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MIN + 1 };
  return g.chance(50) ? X[g.below(sizeof(X) / sizeof(*X))] : (int64_t)g.below(2000) - 1000; }
static double rdbl(Rng& g) { return ((int)g.below(16000) - 8000) / 8.0 / 10 * 10; }
static V rval(Rng& g, int depth) {
  V v; int c = g.below(depth > 0 ? 10 : 6);
  if(c == 0) v.k = 'n';
  else if(c == 1) v.k = 'b', v.i = g.below(2);
  else if(c == 2) { v.k = 'd'; do v.d = (double)((int)g.below(1600) - 800) / 8; while(v.d == (int64_t)v.d); }
  else if(c == 3) v.k = 'i', v.i = rint(g);
  else if(c < 6) v.k = 's', v.s = rstr(g, false);
  else if(c < 8) { v.k = 'a'; for(int n = g.below(4); n > 0; --n) v.a.push_back(rval(g, depth - 1)); }
  else { v.k = 'o'; for(int n = g.below(4); n > 0; --n) v.o.emplace_back(rstr(g, true), rval(g, depth - 1)); }
  return v;
}
static V rdoc(Rng& g, bool scalar) { for(;;) { V v = rval(g, 3); bool c = v.k == 'a' || v.k == 'o' || v.k == 's'; if(c || scalar) return v; } }
// ---- text from elsewhere: the same values as other writers would lay them out
static std::string ws(Rng& g) { static const char* W[] = { "", "", "", " ", "\n", "\t", " \r\n ", "  " }; return W[g.below(8)]; }
static std::string hex4(unsigned u, bool up) { char b[8]; snprintf(b, 8, up ? "%04X" : "%04x", u); return b; }
static std::string tstr(Rng& g, const std::string& s) {
  if(!s.empty() && s.find_first_not_of("-0123456789") == std::string::npos) return "\"" + s + "\""; // numbers given as strings come plainly
  std::string r = "\"";
  for(size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; unsigned cp = c; size_t n = 1;
    auto cont = [&](size_t n) { if(i + n >= s.size()) return false; for(size_t q = 1; q <= n; ++q) if((s[i + q] & 0xC0) != 0x80) return false; return true; };
    if(c >= 0xF0 && c < 0xF5 && cont(3)) cp = (c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63), n = 4;
    else if(c >= 0xE0 && c < 0xF0 && cont(2)) cp = (c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63), n = 3;
    else if(c >= 0xC0 && c < 0xE0 && cont(1)) cp = (c & 31) << 6 | (s[i + 1] & 63), n = 2;
    bool lone = n == 1 && c >= 0x80;
    if(!lone && (c < 32 || g.chance(25))) {
      const char* e = strchr("\"\\/\b\f\n\r\t", c);
      if(e && c && n == 1 && g.chance(70)) { r += '\\'; r += "\"\\/bfnrt"[e - "\"\\/\b\f\n\r\t"]; }
      else if(cp >= 0x10000) r += "\\u" + hex4(0xD800 + ((cp - 0x10000) >> 10), g.chance(50)) + "\\u" + hex4(0xDC00 + ((cp - 0x10000) & 1023), g.chance(50));
      else r += "\\u" + hex4(cp, g.chance(50));
    } else if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else r.append(s, i, n);
    i += n;
  }
  return r + '"';
}
static std::string text(Rng& g, const V& v) {
  std::string r; bool first = true;
  switch(v.k) {
  case 's': return tstr(g, v.s);
  case 'i': return std::to_string(v.i);
  case 'd': { if(v.d < 10000 && v.d > -10000 && g.chance(30)) { char b[64]; int p = (int)g.below(4); static const double M[] = { 1000, 100, 10, 0.1 }; static const char* E[] = { "e-3", "E-2", "e-01", "E+1" }; snprintf(b, 64, "%.10g", v.d * M[p]); return std::string(b) + E[p]; } return dec(v.d); }
  case 'b': return v.i ? "true" : "false";
  case 'a': r = "["; for(auto& x : v.a) { if(!first) r += ","; first = false; r += ws(g) + text(g, x) + ws(g); } if(v.a.empty()) r += ws(g); return r + "]";
  case 'o': r = "{"; for(auto& x : v.o) { if(!first) r += ","; first = false; r += ws(g) + tstr(g, x.first) + ws(g) + ":" + ws(g) + text(g, x.second) + ws(g); } if(v.o.empty()) r += ws(g); return r + "}";
  }
  return "null";
}
// ---- records
struct In {
  int a = 1; Str c = "in"; bool b = false; std::vector<int> v;
  template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<In>(GenPair("a", a), GenPair("c", c), GenPair("b", b), GenPair("v", v)); }
};
enum Col : int { RED = 0, BLUE = 7 };
typedef Variant<int, Str, In> Var;
struct Rec {
  int64_t i64 = -7; uint64_t u64 = 7; int32_t i32 = 3; uint16_t u16 = 4; int8_t i8 = 5; char ch = 6; uint8_t u8 = 7; bool b = true, b2 = false; double d = 0.5; float f = 0.25f; Str s = "dflt"; std::string ss = "std"; Col col = BLUE;
  In in; int fix[3] = { 1, 2, 3 }; std::array<short, 2> ar = { { 4, 5 } }; std::vector<Str> vs; DynArray<int> di; DynArray<bool> db; DynArray<Str, size_t, ARRAY_SAFE> ds; DynArray<In, size_t, ARRAY_SAFE> dn; std::vector<std::vector<int>> vv;
  std::tuple<short, Str, bool> tp; Hash<int, int> h; JSONValue any; DynArray<uint8_t> dc; CompactArray<int> ca; Stack<int> stk; Vector<int, 3> v3; Rect<int> rc; Array<int> ax; DynArray<std::pair<Str, int>, size_t, ARRAY_SAFE> pa; Hash<Str, Str, ARRAY_SAFE> hs; Matrix<int, 2, 2> mx; std::vector<bool> skip;
  Rec() : v3(4), rc(5, 6, 7, 8) { mx.v[0][0] = 1; mx.v[0][1] = 2; mx.v[1][0] = 3; mx.v[1][1] = 4; std::get<0>(tp) = 1; std::get<2>(tp) = true; }
  template<typename E> void Serialize(Serializer<E>& e, const char*) {
    e.template EvaluateType<Rec>(GenPair("i64", i64), GenPair("u64", u64), GenPair("i32", i32), GenPair("u16", u16), GenPair("i8", i8), GenPair("ch", ch), GenPair("u8", u8), GenPair("b", b), GenPair("b2", b2), GenPair("d", d), GenPair("f", f), GenPair("s", s), GenPair("ss", ss), GenPair("col", col),
      GenPair("in", in), GenPair("fix", fix), GenPair("ar", ar), GenPair("vs", vs), GenPair("di", di), GenPair("db", db), GenPair("ds", ds), GenPair("dn", dn), GenPair("vv", vv), GenPair("tp", tp), GenPair("h", h), GenPair("any", any), GenPair("dc", dc), GenPair("ca", ca), GenPair("stk", stk), GenPair("v3", v3), GenPair("rc", rc), GenPair("ax", ax), GenPair("pa", pa), GenPair("hs", hs), GenPair("mx", mx));
  }
};
static V vi(int64_t i) { V v; v.k = 'i'; v.i = i; return v; }
static V vs(const std::string& s) { V v; v.k = 's'; v.s = s; return v; }
static V vb(bool b) { V v; v.k = 'b'; v.i = b; return v; }
static V vd(double d) { V v; v.k = 'd'; v.d = d; return v; }
template<class C> static V va(C& c) { V v; v.k = 'a'; for(auto&& x : c) { if constexpr(std::is_same_v<remove_cvref_t<decltype(x)>, Str>) v.a.push_back(vs(x)); else v.a.push_back(vi((int64_t)x)); } return v; }
static V vin(In& x) { V v; v.k = 'o'; v.o = { { "a", vi(x.a) }, { "c", vs(x.c) }, { "b", vb(x.b) }, { "v", va(x.v) } }; return v; }
static V vstk(Stack<int>& s) { V v; v.k = 'a'; Stack<int> t(s); while(t.Length() > 0) v.a.insert(v.a.begin(), vi(t.Pop())); return v; }
static V vmx(Matrix<int, 2, 2>& m) { V v; v.k = 'a'; v.a = { va(m.v[0]), va(m.v[1]) }; return v; }
template<class C> static V vpa(C& c) { V v; v.k = 'o'; for(auto& x : c) v.o.emplace_back(std::string(x.first), vi(x.second)); return v; }
static J jrec(Rec& r) {
  JA m; auto f = [&](const char* n, const V& v) { m.push_back(A(codes(n), jv(v))); };
  f("i64", vi(r.i64)); m.push_back(A(codes("u64"), kv("i", codes(std::to_string(r.u64))))); f("i32", vi(r.i32)); f("u16", vi(r.u16)); f("i8", vi(r.i8)); f("ch", vi(r.ch)); f("u8", vi(r.u8)); f("b", vb(r.b)); f("b2", vb(r.b2)); f("d", vd(r.d)); f("f", vd(r.f)); f("s", vs(r.s)); f("ss", vs(r.ss)); f("col", vi(r.col));
  f("in", vin(r.in)); f("fix", va(r.fix)); f("ar", va(r.ar)); f("vs", va(r.vs)); f("di", va(r.di));
  { V v; v.k = 'a'; for(size_t i = 0; i < r.db.Length(); ++i) v.a.push_back(vb(r.db[i])); f("db", v); }
  f("ds", va(r.ds)); { V v; v.k = 'a'; for(auto& x : r.dn) v.a.push_back(vin(x)); f("dn", v); } { V v; v.k = 'a'; for(auto& x : r.vv) v.a.push_back(va(x)); f("vv", v); }
  { V v; v.k = 'a'; v.a = { vi(std::get<0>(r.tp)), vs(std::get<1>(r.tp)), vb(std::get<2>(r.tp)) }; f("tp", v); }
  { JA h; for(auto x : r.h) h.push_back(A(codes(std::to_string(std::get<0>(x))), jv(vi(std::get<1>(x))))); m.push_back(A(codes("h"), kv("h", arr(h)))); }
  m.push_back(A(codes("any"), jo(r.any))); f("dc", va(r.dc));
  f("ca", va(r.ca)); f("stk", vstk(r.stk)); f("v3", va(r.v3.v)); f("rc", va(r.rc.ltrb)); f("ax", va(r.ax)); f("pa", vpa(r.pa)); { JA h; for(auto x : r.hs) h.push_back(A(codes(std::string(std::get<0>(x))), jv(vs(std::get<1>(x))))); m.push_back(A(codes("hs"), kv("h", arr(h)))); } f("mx", vmx(r.mx));
  return arr(m);
}
static void rin(Rng& g, In& x) { x.a = (int)rint(g); x.c = rstr(g, true).c_str(); x.b = g.chance(50); x.v.clear(); for(int n = g.below(3); n > 0; --n) x.v.push_back((int)g.below(9)); }
static double frac(Rng& g) { double d; do d = (double)((int)g.below(1600) - 800) / 8; while(d == (int64_t)d); return d; }
static Str S(const std::string& s) { Str r; r.assign(s.data(), s.size()); return r; }
static void rrec(Rng& g, Rec& r) {
  r.i64 = rint(g); r.u64 = g.chance(20) ? UINT64_MAX - g.below(2) : (uint64_t)rint(g); r.i32 = (int32_t)rint(g); r.u16 = (uint16_t)rint(g); r.i8 = (int8_t)rint(g); r.ch = (char)rint(g); r.u8 = (uint8_t)rint(g); r.b = g.chance(50); r.b2 = g.chance(50); r.d = frac(g); r.f = (float)frac(g); r.s = S(rstr(g, false)); r.ss = rstr(g, false); r.col = g.chance(50) ? RED : BLUE;
  rin(g, r.in); for(auto& x : r.fix) x = (int)rint(g); for(auto& x : r.ar) x = (short)rint(g);
  for(int n = g.below(4); n > 0; --n) r.vs.push_back(S(rstr(g, false)));
  for(int n = g.below(4); n > 0; --n) r.di.Add((int)rint(g));
  for(int n = g.below(4); n > 0; --n) r.db.Add(g.chance(50));
  for(int n = g.below(4); n > 0; --n) r.ds.Add(S(rstr(g, false)));
  for(int n = g.below(3); n > 0; --n) { In x; rin(g, x); r.dn.Add(x); }
  for(int n = g.below(4); n > 0; --n) { r.vv.emplace_back(); for(int k = g.below(3); k > 0; --k) r.vv.back().push_back((int)g.below(100)); }
  r.tp = std::make_tuple((short)rint(g), S(rstr(g, false)), g.chance(50));
  for(int n = g.below(4); n > 0; --n) r.h.Insert((int)g.below(50) - 10, (int)rint(g));
  to(rval(g, 2), r.any);
  for(int n = g.below(4); n > 0; --n) r.dc.Add((uint8_t)rint(g));
  for(int n = g.below(6); n > 0; --n) r.ca.Add((int)rint(g));
  for(int n = g.below(4); n > 0; --n) r.stk.Push((int)rint(g));
  for(auto& x : r.v3.v) x = (int)rint(g);
  for(auto& x : r.rc.ltrb) x = (int)rint(g);
  { int n = g.below(4); r.ax.SetCapacity(n); for(int i = 0; i < n; ++i) r.ax[i] = (int)rint(g); }
  for(int n = g.below(4); n > 0; --n) r.pa.Add(std::pair<Str, int>(Str(rstr(g, true).c_str()), (int)rint(g)));
  for(int n = g.below(4); n > 0; --n) r.hs.Insert(Str(rstr(g, true).c_str()), S(rstr(g, false)));
  for(auto& w : r.mx.v) for(auto& x : w) x = (int)rint(g);
}
// the record's own members as another writer would give them: some left out, in another order, with members it does not know in between
static V vrec(Rng& g, Rec& r) {
  V v; v.k = 'o'; auto& o = v.o; V x; x.k = 'a';
  o = { { "i64", vi(r.i64) }, { "i32", vi(r.i32) }, { "u16", vi(r.u16) }, { "i8", vi(r.i8) }, { "ch", vi(r.ch) }, { "u8", vi(r.u8) }, { "b", vb(r.b) }, { "b2", vb(r.b2) }, { "d", vd(r.d) }, { "f", vd(r.f) }, { "s", vs(r.s) }, { "ss", vs(r.ss) }, { "col", vi(r.col) }, { "in", vin(r.in) }, { "fix", va(r.fix) }, { "ar", va(r.ar) }, { "vs", va(r.vs) }, { "di", va(r.di) }, { "ds", va(r.ds) }, { "dc", va(r.dc) } };
  x.a.clear(); for(auto& y : r.dn) x.a.push_back(vin(y)); o.emplace_back("dn", x);
  x.a.clear(); for(auto& y : r.vv) x.a.push_back(va(y)); o.emplace_back("vv", x);
  x.a = { vi(std::get<0>(r.tp)), vs(std::get<1>(r.tp)), vb(std::get<2>(r.tp)) }; o.emplace_back("tp", x);
  { V h; h.k = 'o'; for(auto y : r.h) h.o.emplace_back(std::to_string(std::get<0>(y)), vi(std::get<1>(y))); o.emplace_back("h", h); }
  o.emplace_back("ca", va(r.ca)); o.emplace_back("stk", vstk(r.stk)); o.emplace_back("v3", va(r.v3.v)); o.emplace_back("rc", va(r.rc.ltrb)); o.emplace_back("ax", va(r.ax)); o.emplace_back("pa", vpa(r.pa)); o.emplace_back("mx", vmx(r.mx));
  { V h; h.k = 'o'; for(auto y : r.hs) h.o.emplace_back(std::string(std::get<0>(y)), vs(std::get<1>(y))); o.emplace_back("hs", h); }
  o.emplace_back("any", rval(g, 2));
  for(auto& m : o) { V& w = m.second; if(m.first == "any") continue;
    if(w.k == 'i' && g.chance(15)) { if(g.chance(60)) w = vs(std::to_string(w.i)); else w = V(); }
    else if(w.k == 'b' && g.chance(20)) w = vi(g.below(3) * 5);
    else if((w.k == 'a' || w.k == 'o' || w.k == 'd') && g.chance(8)) w = V(); }
  for(size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.below(i)]);
  int keep = 1 + g.below((int)o.size()); while((int)o.size() > keep) o.pop_back();
  for(int n = g.below(3); n > 0; --n) { static const char* U[] = { "x", "unknown", "i", "i644", "", "dd", "I64", "st" }; o.insert(o.begin() + g.below((int)o.size() + 1), { U[g.below(8)], rval(g, 2) }); }
  return v;
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 6271 + 11);
  for(long it = 0; it < a.budget; ++it) {
    beginRun("{}"); std::stringstream s; std::vector<char> kinds; bool scalar = false;
    auto left = [&]() { s.clear(); auto p = s.tellg(); s.seekg(0, std::ios::end); auto q = s.tellg(); s.seekg(p); return (int)(q - p); };
    for(int n = 1 + g.below(6); n > 0 || !kinds.empty(); --n) {
      s.clear();
      if(!kinds.empty() && (scalar || n <= 0 || g.chance(45))) {
        if(kinds[0] == 'v') { JSONValue v; if(g.chance(50)) to(rval(g, 1), v); ParseJSON(v, s); int q = left(); ev("Parse", A(), A(jo(v), q), 0); }
        else { Rec r; J old = jrec(r); ParseJSON(r, s); int q = left(); ev("ParseRec", A(old), A(jrec(r), q), 0); }
        kinds.erase(kinds.begin()); scalar = false; continue;
      }
      if(n <= 0) break;
      std::ostringstream o; size_t pretty = g.chance(50); int c = g.below(10);
      if(c < 4) { V v = rdoc(g, kinds.empty() && g.chance(30)); JSONValue j; to(v, j); WriteJSON(j, o, pretty); scalar = strchr("ibnd", v.k) != 0; ev("Write", A(jv(v)), A(codes(o.str())), 0); kinds.push_back('v'); }
      else if(c < 6) { Rec r; rrec(g, r); WriteJSON(r, o, pretty); ev("WriteRec", A(jrec(r)), A(codes(o.str())), 0); kinds.push_back('r'); }
      else if(c < 8) { Rec r; rrec(g, r); std::string t = text(g, vrec(g, r)) + ws(g); o << t; ev("Put", A(codes(t)), A(), 0); kinds.push_back('r'); }
      else { V v = rdoc(g, kinds.empty() && g.chance(30)); std::string t = text(g, v); scalar = strchr("ibnd", v.k) != 0; t += ws(g); o << t; ev("Put", A(codes(t)), A(), 0); kinds.push_back('v'); }
      s.seekp(0, std::ios::end); s << o.str();
    }
    endRun();
  }
  return finish();
}
