// UBJSON documents written, parsed and streamed by the serializer, for spec/UbjTrace.tla.
#include "vp.h"
#include <memory>
#include <sstream>
#include <cstring>
#include "bss-util/bss_util.h"
#include "bss-util/Hash.h"
#include "bss-util/UBJSON.h"
#include "bss-util/CompactArray.h"
#include "bss-util/Stack.h"
#include "bss-util/Geometry.h"
using namespace vp;
using namespace bss;
typedef UBJSONTuple U;
static J codes(const std::string& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
template<class T> static std::string be(T v) { std::string r((const char*)&v, sizeof v); return std::string(r.rbegin(), r.rend()); }
// ---- values: tag and bytes
struct V { char k = 'Z'; std::string s; std::vector<V> a; std::vector<std::pair<std::string, V>> o; };
static J jv(const V& v) { JA r;
  if(v.k == '[') for(auto& x : v.a) r.push_back(jv(x)); else if(v.k == '{') for(auto& x : v.o) r.push_back(A(codes(x.first), jv(x.second))); else return A((int)v.k, codes(v.s));
  return A((int)v.k, arr(r)); }
static V of(const U& u) { V v; v.k = u.Type;
  switch(u.Type) {
  case U::TYPE_NONE: v.k = 'Z'; break;
  case U::TYPE_CHAR: case U::TYPE_INT8: v.s = be(u.Int8); break; case U::TYPE_UINT8: v.s = be(u.UInt8); break; case U::TYPE_INT16: v.s = be(u.Int16); break; case U::TYPE_INT32: v.s = be(u.Int32); break; case U::TYPE_INT64: v.s = be(u.Int64); break;
  case U::TYPE_FLOAT: v.s = be(u.Float); break; case U::TYPE_DOUBLE: v.s = be(u.Double); break;
  case U::TYPE_BIGNUM: case U::TYPE_STRING: v.s.assign(u.String, (size_t)u.Length); break;
  case U::TYPE_ARRAY: for(auto& x : u.Array) v.a.push_back(of(x)); break;
  case U::TYPE_OBJECT: for(auto& x : u.Object) v.o.emplace_back(x.first, of(x.second)); break;
  default: break; }
  return v; }
template<class T> static T un(const std::string& s) { T v; std::string r(s.rbegin(), s.rend()); memcpy(&v, r.data(), sizeof v); return v; }
static void to(const V& v, U* u) { // builds over a default value
  U::TYPE t = (U::TYPE)v.k;
  switch(v.k) {
  case 'C': case 'i': new(u) U(t, un<char>(v.s)); break; case 'U': new(u) U(t, un<uint8_t>(v.s)); break; case 'I': new(u) U(t, un<short>(v.s)); break; case 'l': new(u) U(t, un<int32_t>(v.s)); break; case 'L': new(u) U(t, un<int64_t>(v.s)); break;
  case 'd': new(u) U(t, un<float>(v.s)); break; case 'D': new(u) U(t, un<double>(v.s)); break;
  case 'S': case 'H': { char* p = new char[v.s.size() + 1]; memcpy(p, v.s.data(), v.s.size()); p[v.s.size()] = 0; new(u) U(t, (int64_t)v.s.size(), p); } break;
  case '[': u->Type = t; new(&u->Array) U::UBJSONArray(v.a.size() ? 1 : 0); for(auto& x : v.a) { u->Array.AddConstruct(); to(x, &u->Array.Back()); } break;
  case '{': u->Type = t; new(&u->Object) U::UBJSONObject(v.o.size() ? 1 : 0); for(auto& x : v.o) { u->Object.AddConstruct(); u->Object.Back().first.assign(x.first.data(), x.first.size()); to(x.second, &u->Object.Back().second); } break;
  default: u->Type = t; break; }
}
static std::string rstr(Rng& g, bool key) { static const char* P[] = { "a", "b", "key", "\"", "\xff", "[", "]", "}", "N", "#", "$", "Z", "\xc3\xa9", "long string past the small buffer ...", "\x01" };
  std::string r; for(int n = g.below(4); n > 0; --n) r += P[g.below(sizeof(P) / sizeof(*P))];
  if(!key && g.chance(6)) r.push_back('\0'), r += "z";
  if(g.chance(3)) r.append(130 + g.below(200), 'x'); return r; }
static int64_t rint(Rng& g) { static const int64_t X[] = { 0, 1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX, INT64_MIN, INT64_MIN + 1 };
  return g.chance(60) ? X[g.below(sizeof(X) / sizeof(*X))] : (int64_t)g.below(2000) - 1000; }
static V rval(Rng& g, int depth, int force = -1) {
  static const char K[] = "ZTFCiUIlLdDSSH"; V v; int c = force >= 0 ? force : (int)g.below(depth > 0 ? 20 : 14);
  if(c < 14) { v.k = K[c]; int64_t n = rint(g);
    switch(v.k) { case 'C': v.s = be((char)g.below(128)); break; case 'i': v.s = be((char)n); break; case 'U': v.s = be((uint8_t)n); break; case 'I': v.s = be((short)n); break; case 'l': v.s = be((int32_t)n); break; case 'L': v.s = be(n); break; case 'd': v.s = be((float)n / 8); break; case 'D': v.s = be((double)n / 8); break; case 'S': v.s = rstr(g, false); break; case 'H': v.s = std::to_string(n) + "00000000000000000000"; break; }
    return v; }
  int n = g.below(5), same = g.chance(50) ? (int)g.below(depth > 1 ? 20 : 14) : -1;
  if(c < 17) { v.k = '['; for(; n > 0; --n) v.a.push_back(rval(g, depth - 1, same)); }
  else { v.k = '{'; for(; n > 0; --n) v.o.emplace_back(rstr(g, true), rval(g, depth - 1, same)); }
  return v; }
// ---- bytes from elsewhere
static std::string nop(Rng& g) { return g.chance(10) ? std::string(1 + g.below(2), 'N') : ""; }
static std::string blen0(Rng& g, size_t n) { int64_t v = (int64_t)n; for(;;) switch(g.below(5)) { case 0: if(n < 128) return "i" + be((char)v); break; case 1: if(n < 256) return "U" + be((uint8_t)v); break; case 2: return "I" + be((short)v); case 3: return "l" + be((int32_t)v); default: return "L" + be(v); } }
static std::string blen(Rng& g, size_t n) { return nop(g) + blen0(g, n); }
static std::string body(Rng& g, const V& v, bool typed) { // without the tag
  std::string r, head; bool same = true, counted = g.chance(50); size_t n = v.k == '[' ? v.a.size() : v.o.size(); char t = 0;
  for(size_t i = 0; i < n; ++i) { char k = v.k == '[' ? v.a[i].k : v.o[i].second.k; if(!t) t = k; else if(t != k) same = false; }
  if(v.k == 'S' || v.k == 'H') return blen(g, v.s.size()) + v.s;
  if(v.k != '[' && v.k != '{') return v.s;
  bool ty = n && same && counted && g.chance(60); if(ty) r = std::string("$") + t; if(counted) r += "#" + blen(g, n);
  for(size_t i = 0; i < n; ++i) { const V& x = v.k == '[' ? v.a[i] : v.o[i].second; if(v.k == '{') r += blen(g, v.o[i].first.size()) + v.o[i].first; if(!ty) r += nop(g) + x.k; r += body(g, x, ty); }
  if(!counted) r += v.k == '[' ? "]" : "}";
  return r; }
static std::string bytes(Rng& g, const V& v) { return nop(g) + v.k + body(g, v, false); }
// ---- records
struct In { int a = 1; Str c = "in"; bool b = false; std::vector<int> v; template<typename E> void Serialize(Serializer<E>& e, const char*) { e.template EvaluateType<In>(GenPair("a", a), GenPair("c", c), GenPair("b", b), GenPair("v", v)); } };
enum Col : int { RED = 0, BLUE = 7 };
struct Rec {
  int64_t i64 = -7; uint64_t u64 = 7; int32_t i32 = 3; uint32_t u32 = 9; short i16 = 2; uint16_t u16 = 4; int8_t i8 = 5; char ch = 6; uint8_t u8 = 7; bool b = true, b2 = false; double d = 0.5; float f = 0.25f; Str s = "dflt"; std::string ss = "std"; Col col = BLUE;
  In in; int fix[3] = { 1, 2, 3 }; std::array<short, 2> ar = { { 4, 5 } }; std::vector<Str> vs; DynArray<int> di; DynArray<bool> db; DynArray<Str, size_t, ARRAY_SAFE> ds; DynArray<In, size_t, ARRAY_SAFE> dn; std::vector<std::vector<int>> vv;
  std::tuple<short, Str, bool> tp; Hash<int, int> h; DynArray<uint8_t> dc; std::vector<uint8_t> vc; std::vector<char> vh; DynArray<uint16_t> dw; std::vector<uint32_t> vu; std::vector<uint64_t> vq; std::vector<int64_t> vl; DynArray<double> dd; int8_t fc[3] = { 1, 2, 3 }; std::vector<std::array<short, 2>> va2; U any; CompactArray<int> ca; Stack<int> stk; Vector<int, 3> v3; Rect<int> rc; Array<int> ax; Array<uint8_t> ab; CompactArray<uint8_t> cb; DynArray<std::pair<Str, int>, size_t, ARRAY_SAFE> pa; Hash<Str, Str, ARRAY_SAFE> hs; Matrix<int, 2, 2> mx;
  Rec() : v3(4), rc(5, 6, 7, 8) { mx.v[0][0] = 1; mx.v[0][1] = 2; mx.v[1][0] = 3; mx.v[1][1] = 4; std::get<0>(tp) = 1; std::get<2>(tp) = true; }
  template<typename E> void Serialize(Serializer<E>& e, const char*) {
    e.template EvaluateType<Rec>(GenPair("i64", i64), GenPair("u64", u64), GenPair("i32", i32), GenPair("u32", u32), GenPair("i16", i16), GenPair("u16", u16), GenPair("i8", i8), GenPair("ch", ch), GenPair("u8", u8), GenPair("b", b), GenPair("b2", b2), GenPair("d", d), GenPair("f", f), GenPair("s", s), GenPair("ss", ss), GenPair("col", col),
      GenPair("in", in), GenPair("fix", fix), GenPair("ar", ar), GenPair("vs", vs), GenPair("di", di), GenPair("db", db), GenPair("ds", ds), GenPair("dn", dn), GenPair("vv", vv), GenPair("tp", tp), GenPair("h", h), GenPair("dc", dc), GenPair("vc", vc), GenPair("vh", vh), GenPair("dw", dw), GenPair("vu", vu), GenPair("vq", vq), GenPair("vl", vl), GenPair("dd", dd), GenPair("fc", fc), GenPair("va2", va2), GenPair("any", any), GenPair("ca", ca), GenPair("stk", stk), GenPair("v3", v3), GenPair("rc", rc), GenPair("ax", ax), GenPair("ab", ab), GenPair("cb", cb), GenPair("mx", mx), GenPair("pa", pa), GenPair("hs", hs));
  }
};
// normal forms: 1 integer, 2 boolean, others as written
static J ni(int64_t i) { return A(1, codes(be(i))); }
static J nu(uint64_t i) { return i > (uint64_t)INT64_MAX ? A((int)'H', codes(std::to_string(i))) : ni((int64_t)i); }
static J nb(bool b) { return A(2, (int)b); }
static J ns(const std::string& s) { return A((int)'S', codes(s)); }
static J nd(double d) { return A((int)'D', codes(be(d))); }
static J norm(const V& v) { JA r;
  switch(v.k) { case 'i': return ni(un<signed char>(v.s)); case 'U': return ni(un<uint8_t>(v.s)); case 'I': return ni(un<short>(v.s)); case 'l': return ni(un<int32_t>(v.s)); case 'L': return ni(un<int64_t>(v.s)); case 'T': return nb(true); case 'F': return nb(false);
  case '[': for(auto& x : v.a) r.push_back(norm(x)); return A((int)'[', arr(r)); case '{': for(auto& x : v.o) r.push_back(A(codes(x.first), norm(x.second))); return A((int)'{', arr(r)); }
  return A((int)v.k, codes(v.s)); }
template<class C> static J na(C& c) { JA r; for(auto&& x : c) { typedef remove_cvref_t<decltype(x)> T; if constexpr(std::is_same_v<T, Str>) r.push_back(ns(x)); else if constexpr(std::is_same_v<T, double>) r.push_back(nd(x)); else if constexpr(std::is_same_v<T, uint64_t>) r.push_back(nu(x)); else if constexpr(std::is_arithmetic_v<T>) r.push_back(ni((int64_t)x)); else r.push_back(na(x)); } return A((int)'[', arr(r)); }
static J nin(In& x) { JA r; r.push_back(A(codes("a"), ni(x.a))); r.push_back(A(codes("c"), ns(x.c))); r.push_back(A(codes("b"), nb(x.b))); r.push_back(A(codes("v"), na(x.v))); return A((int)'{', arr(r)); }
static std::vector<int> fstk(Stack<int>& s) { std::vector<int> v; Stack<int> t(s); while(t.Length() > 0) v.insert(v.begin(), t.Pop()); return v; }
static J jrec(Rec& r) {
  JA m; auto f = [&](const char* n, J v) { m.push_back(A(codes(n), v)); };
  f("i64", ni(r.i64)); f("u64", nu(r.u64)); f("i32", ni(r.i32)); f("u32", ni(r.u32)); f("i16", ni(r.i16)); f("u16", ni(r.u16)); f("i8", ni(r.i8)); f("ch", ni(r.ch)); f("u8", ni(r.u8)); f("b", nb(r.b)); f("b2", nb(r.b2)); f("d", nd(r.d)); f("f", A((int)'d', codes(be(r.f)))); f("s", ns(r.s)); f("ss", ns(r.ss)); f("col", ni(r.col));
  f("in", nin(r.in)); f("fix", na(r.fix)); f("ar", na(r.ar)); f("vs", na(r.vs)); f("di", na(r.di));
  { JA v; for(size_t i = 0; i < r.db.Length(); ++i) v.push_back(nb(r.db[i])); f("db", A((int)'[', arr(v))); }
  f("ds", na(r.ds)); { JA v; for(auto& x : r.dn) v.push_back(nin(x)); f("dn", A((int)'[', arr(v))); } f("vv", na(r.vv));
  { JA v; v.push_back(ni(std::get<0>(r.tp))); v.push_back(ns(std::get<1>(r.tp))); v.push_back(nb(std::get<2>(r.tp))); f("tp", A((int)'[', arr(v))); }
  { JA v; for(auto x : r.h) v.push_back(A(codes(std::to_string(std::get<0>(x))), ni(std::get<1>(x)))); f("h", A((int)'h', arr(v))); }
  f("dc", na(r.dc)); f("vc", na(r.vc)); f("vh", na(r.vh)); f("dw", na(r.dw)); f("vu", na(r.vu)); f("vq", na(r.vq)); f("vl", na(r.vl)); f("dd", na(r.dd)); f("fc", na(r.fc)); f("va2", na(r.va2)); f("any", norm(of(r.any)));
  { std::vector<int> t = fstk(r.stk); f("ca", na(r.ca)); f("stk", na(t)); f("v3", na(r.v3.v)); f("rc", na(r.rc.ltrb)); f("ax", na(r.ax)); f("ab", na(r.ab)); f("cb", na(r.cb)); f("mx", na(r.mx.v)); }
  { JA v; for(auto& x : r.pa) v.push_back(A(codes(std::string(x.first)), ni(x.second))); f("pa", A((int)'{', arr(v))); } { JA v; for(auto x : r.hs) v.push_back(A(codes(std::string(std::get<0>(x))), ns(std::get<1>(x)))); f("hs", A((int)'h', arr(v))); }
  return arr(m);
}
static Str S(const std::string& s) { Str r; r.assign(s.data(), s.size()); return r; }
static void rin(Rng& g, In& x) { x.a = (int)rint(g); x.c = S(rstr(g, false)); x.b = g.chance(50); x.v.clear(); for(int n = g.below(3); n > 0; --n) x.v.push_back((int)g.below(9)); }
template<class F> static void times(Rng& g, F f) { for(int n = g.below(4); n > 0; --n) f(); }
static void rrec(Rng& g, Rec& r) {
  r.i64 = rint(g); r.u64 = (uint64_t)rint(g); r.i32 = (int32_t)rint(g); r.u32 = (uint32_t)rint(g); r.i16 = (short)rint(g); r.u16 = (uint16_t)rint(g); r.i8 = (int8_t)rint(g); r.ch = (char)rint(g); r.u8 = (uint8_t)rint(g); r.b = g.chance(50); r.b2 = g.chance(50); r.d = rint(g) / 8.0; r.f = (float)rint(g) / 8; r.s = S(rstr(g, false)); r.ss = rstr(g, false); r.col = g.chance(50) ? RED : BLUE;
  rin(g, r.in); for(auto& x : r.fix) x = (int)rint(g); for(auto& x : r.ar) x = (short)rint(g);
  times(g, [&] { r.vs.push_back(S(rstr(g, false))); }); times(g, [&] { r.di.Add((int)rint(g)); }); times(g, [&] { r.db.Add(g.chance(50)); }); times(g, [&] { r.ds.Add(S(rstr(g, false))); }); times(g, [&] { In x; rin(g, x); r.dn.Add(x); });
  times(g, [&] { r.vv.emplace_back(); times(g, [&] { r.vv.back().push_back((int)rint(g)); }); });
  r.tp = std::make_tuple((short)rint(g), S(rstr(g, false)), g.chance(50));
  times(g, [&] { r.h.Insert((int)g.below(50) - 10, (int)rint(g)); });
  times(g, [&] { r.dc.Add((uint8_t)rint(g)); }); times(g, [&] { r.vc.push_back((uint8_t)rint(g)); }); times(g, [&] { r.vh.push_back((char)rint(g)); }); times(g, [&] { r.dw.Add((uint16_t)rint(g)); }); times(g, [&] { r.vu.push_back((uint32_t)rint(g)); }); times(g, [&] { r.vq.push_back((uint64_t)rint(g)); }); times(g, [&] { r.vl.push_back(rint(g)); }); times(g, [&] { r.dd.Add(rint(g) / 8.0); });
  for(auto& x : r.fc) x = (int8_t)rint(g); times(g, [&] { r.va2.push_back({ { (short)rint(g), (short)rint(g) } }); });
  to(rval(g, 2), &r.any);
  for(int n = g.below(6); n > 0; --n) r.ca.Add((int)rint(g));
  times(g, [&] { r.stk.Push((int)rint(g)); }); for(auto& x : r.v3.v) x = (int)rint(g); for(auto& x : r.rc.ltrb) x = (int)rint(g); for(auto& w : r.mx.v) for(auto& x : w) x = (int)rint(g);
  { int n = g.below(4); r.ax.SetCapacity(n); for(int i = 0; i < n; ++i) r.ax[i] = (int)rint(g); n = g.below(4); r.ab.SetCapacity(n); for(int i = 0; i < n; ++i) r.ab[i] = (uint8_t)rint(g); }
  for(int n = g.below(20); n > 0; --n) r.cb.Add((uint8_t)rint(g));
  times(g, [&] { r.pa.Add(std::pair<Str, int>(Str(rstr(g, true).c_str()), (int)rint(g))); }); times(g, [&] { r.hs.Insert(Str(rstr(g, true).c_str()), S(rstr(g, false))); });
}
// members of a record as another writer would lay them out
static V vi(Rng& g, int64_t n, bool wide) { V v; v.k = 'L'; v.s = be(n); if(wide) return v; if(n >= 0 && n < 256 && g.chance(60)) v.k = 'U', v.s = be((uint8_t)n); else if(n >= -128 && n < 128 && g.chance(60)) v.k = 'i', v.s = be((char)n); else if(n >= -32768 && n < 32768 && g.chance(60)) v.k = 'I', v.s = be((short)n); else if(n == (int32_t)n && g.chance(60)) v.k = 'l', v.s = be((int32_t)n); return v; }
static V vstr(const std::string& s) { V v; v.k = 'S'; v.s = s; return v; }
static V vbool(bool b) { V v; v.k = b ? 'T' : 'F'; return v; }
template<class C> static V varr(Rng& g, C& c) { V v; v.k = '['; bool small = g.chance(40); for(auto&& x : c) { typedef remove_cvref_t<decltype(x)> T; if constexpr(std::is_same_v<T, Str>) v.a.push_back(vstr(x)); else if constexpr(std::is_same_v<T, int> || std::is_same_v<T, int64_t> || std::is_same_v<T, short>) { if(small) x = (T)(x & 127); v.a.push_back(small ? V{ 'U', be((uint8_t)x), {}, {} } : vi(g, x, false)); } else if constexpr(std::is_arithmetic_v<T>) v.a.push_back(vi(g, (int64_t)x, false)); else v.a.push_back(varr(g, x)); } return v; }
static V vin(Rng& g, In& x) { V v; v.k = '{'; v.o = { { "v", varr(g, x.v) }, { "a", vi(g, x.a, false) }, { "b", vbool(x.b) }, { "c", vstr(x.c) } }; std::swap(v.o[0], v.o[3]); std::swap(v.o[1], v.o[0]); return v; }
static V vrec(Rng& g, Rec& r) {
  V v; v.k = '{'; auto& o = v.o; V x; x.k = '[';
  o = { { "i64", vi(g, r.i64, false) }, { "i32", vi(g, r.i32, false) }, { "u32", vi(g, r.u32, false) }, { "i16", vi(g, r.i16, g.chance(50)) }, { "u16", vi(g, r.u16, false) }, { "i8", vi(g, r.i8, false) }, { "u8", vi(g, r.u8, g.chance(50)) }, { "b", vbool(r.b) }, { "b2", vbool(r.b2) }, { "s", vstr(r.s) }, { "ss", vstr(r.ss) }, { "col", vi(g, r.col, false) }, { "fix", varr(g, r.fix) }, { "ar", varr(g, r.ar) }, { "vs", varr(g, r.vs) }, { "di", varr(g, r.di) }, { "vv", varr(g, r.vv) }, { "dc", varr(g, r.dc) }, { "vc", varr(g, r.vc) }, { "dw", varr(g, r.dw) }, { "vu", varr(g, r.vu) }, { "vl", varr(g, r.vl) } };
  x.k = 'D'; x.s = be(r.d); o.emplace_back("d", x); x.k = 'd'; x.s = be(r.f); o.emplace_back("f", x); x.s.clear();
  // vin lists its members in another order, which the record's own normal form does not: only records with their members in order
  o.emplace_back("any", rval(g, 2));
  { std::vector<int> t = fstk(r.stk); o.emplace_back("stk", varr(g, t)); } o.emplace_back("ca", varr(g, r.ca)); o.emplace_back("v3", varr(g, r.v3.v)); o.emplace_back("rc", varr(g, r.rc.ltrb)); o.emplace_back("ax", varr(g, r.ax)); o.emplace_back("ab", varr(g, r.ab)); o.emplace_back("cb", varr(g, r.cb));
  { V p; p.k = '{'; for(auto& y : r.pa) p.o.emplace_back(std::string(y.first), vi(g, y.second, false)); o.emplace_back("pa", p); p.o.clear(); for(auto y : r.hs) p.o.emplace_back(std::string(std::get<0>(y)), vstr(std::get<1>(y))); o.emplace_back("hs", p); p.o.clear(); p.k = '['; p.a = { varr(g, r.mx.v[0]), varr(g, r.mx.v[1]) }; o.emplace_back("mx", p); }
  for(size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.below(i)]);
  int keep = 1 + g.below((int)o.size()); while((int)o.size() > keep) o.pop_back();
  for(int n = g.below(3); n > 0; --n) { static const char* UK[] = { "x", "unknown", "i", "i644", "", "ddd", "I64", "st" }; o.insert(o.begin() + g.below((int)o.size() + 1), { UK[g.below(8)], rval(g, 2) }); }
  return v;
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 6397 + 13);
  for(long it = 0; it < a.budget; ++it) {
    beginRun("{}"); std::stringstream s; std::vector<char> kinds;
    auto left = [&]() { s.clear(); auto p = s.tellg(); s.seekg(0, std::ios::end); auto q = s.tellg(); s.seekg(p); return (int)(q - p); };
    for(int n = 1 + g.below(6); n > 0 || !kinds.empty(); --n) {
      s.clear();
      if(!kinds.empty() && (n <= 0 || g.chance(45))) {
        Serializer<UBJSONEngine> e;
        if(kinds[0] == 'v') { U v; e.Parse(v, s); int q = left(); ev("Parse", A(), A(jv(of(v)), q), 0);
          if(g.chance(30)) { J b = jv(of(v)); U c(v); J cc = jv(of(c)); J o = jv(of(v)); U m(std::move(c)); ev("Copy", A(b), A(g.chance(50) ? cc : jv(of(m)), o), 0); } }
        else { Rec r; J old = jrec(r); e.Parse(r, s); int q = left(); ev("ParseRec", A(old), A(jrec(r), q), 0); }
        kinds.erase(kinds.begin()); continue;
      }
      if(n <= 0) break;
      std::ostringstream o; int c = g.below(10);
      { Serializer<UBJSONEngine> e;
      if(c < 4) { V v = rval(g, 3); U u; to(v, &u); e.Serialize(u, o); ev("Write", A(jv(v)), A(codes(o.str())), 0); kinds.push_back('v'); }
      else if(c < 6) { Rec r; rrec(g, r); e.Serialize(r, o); ev("WriteRec", A(jrec(r)), A(codes(o.str())), 0); kinds.push_back('r'); }
      else if(c < 8) { Rec r; rrec(g, r); std::string t = bytes(g, vrec(g, r)); o << t; ev("Put", A(codes(t)), A(), 0); kinds.push_back('r'); }
      else { V v = rval(g, 3); std::string t = bytes(g, v); o << t; ev("Put", A(codes(t)), A(), 0); kinds.push_back('v'); } }
      s.seekp(0, std::ios::end); s << o.str();
    }
    endRun();
  }
  return finish();
}
