// C26: text: Str operations, UTF-8/UTF-32, Base64, number printing, formats, command lines, byte search.
// Strings are logged as sequences of unit values; every buffer handed to the library is an exact-size heap block.
#include "vp.h"
#include <memory>
#include <sstream>
#include <limits.h>
#include "bss-util/bss_util.h"
#include "bss-util/Str.h"
#include "bss-util/algo.h"
using namespace bss; using namespace vp;
typedef std::string Sx; typedef std::u32string Ux; typedef StrT<char32_t> Str32;
static J js(const Sx& s) { std::vector<int> v; for(unsigned char c : s) v.push_back(c); return J(v); }
static J ju(const Ux& s) { std::vector<int> v; for(char32_t c : s) v.push_back(c > 0x10FFFF ? 0x110000 : (int)c); return J(v); }
static J jss(const std::vector<Sx>& v) { JA a; for(auto& s : v) a.push_back(js(s)); return arr(a); }
template<class C> struct Own { C* p; Own(const C* d, size_t n) : p((C*)malloc(n ? n * sizeof(C) : 1)) { if(n) memcpy(p, d, n * sizeof(C)); } ~Own() { free(p); } };
static const J N0 = J(0);
static Rng g(1);

static int abyte(int kind) {
  static const int e[] = { 1, 9, 32, 33, 65, 97, 127, 128, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 247, 248, 254, 255 };
  switch(kind) { case 0: return "ab, "[g.below(4)]; case 1: return e[g.below(25)]; case 2: return 32 + g.below(95); default: return 1 + g.below(255); }
}
static Sx bytes(int maxlen, int kind = -1) { if(kind < 0) kind = g.below(4); Sx s; int n = g.below(maxlen + 1); for(int i = 0; i < n; ++i) s += (char)abyte(kind); return s; }
static char32_t point() {
  static const char32_t e[] = { 1, 65, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF };
  int w = g.below(10); if(w < 6) return e[g.below(19)]; if(w < 8) return 1 + g.below(127);
  char32_t c = 1 + g.below(0x10FFFF); return c >= 0xD800 && c < 0xE000 ? 0xE000 : c;
}
static Ux points(int maxlen, bool wild) { Ux s; int n = g.below(maxlen + 1); for(int i = 0; i < n; ++i) s += (wild && g.chance(8)) ? (char32_t)(0x110000u + (g.chance(50) ? g.below(3) : (uint32_t)g.next() % 0xFFEEFFFFu)) : point(); return s; }
static void put(Sx& s, char32_t c) { // the driver's own encoder, to make well-formed input
  if(c < 0x80) s += (char)c; else if(c < 0x800) { s += (char)(0xC0 + c / 64); s += (char)(0x80 + c % 64); }
  else if(c < 0x10000) { s += (char)(0xE0 + c / 4096); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
  else { s += (char)(0xF0 + c / 262144); s += (char)(0x80 + c / 4096 % 64); s += (char)(0x80 + c / 64 % 64); s += (char)(0x80 + c % 64); }
}
static Sx utf(int maxlen) { // mostly well-formed
  Sx s; for(char32_t c : points(maxlen, false)) put(s, c);
  if(g.chance(35) && s.size()) { int w = g.below(4); size_t k = g.below(s.size()); if(w == 0) s.resize(k); else if(w == 1) s[k] = (char)abyte(1); else if(w == 2) s.insert(k, 1, (char)abyte(1)); else s.erase(k, 1); }
  return s;
}
static int count(size_t len) { int w = g.below(10); return w < 3 ? -1 : w < 5 ? (int)len : w < 6 ? (int)len + 1 : w < 7 ? (int)len + 1 + g.below(4) : g.below(len + 2); }

static void to32(const Sx& s, int n, int cap) {
  Own<char> src(s.c_str(), n < 0 || n > (int)s.size() ? s.size() + 1 : n);
  if(cap < 0) { size_t r = UTF8toUTF32(src.p, n, 0, 0); ev("Size32", A(js(s), n), A(r), N0); return; }
  char32_t* out = (char32_t*)malloc(cap ? cap * 4 : 1); size_t r = UTF8toUTF32(src.p, n, out, cap);
  ev("To32", A(js(s), n, cap), A(r, ju(Ux(out, r <= (size_t)cap ? r : 0))), N0); free(out);
}
static void to8(const Ux& s, int n, int cap) {
  Own<char32_t> src(s.c_str(), n < 0 || n > (int)s.size() ? s.size() + 1 : n);
  if(cap < 0) { size_t r = UTF32toUTF8(src.p, n, 0, 0); ev("Size8", A(ju(s), n), A(r), N0); return; }
  char* out = (char*)malloc(cap ? cap : 1); size_t r = UTF32toUTF8(src.p, n, out, cap);
  ev("To8", A(ju(s), n, cap), A(r, js(Sx(out, r <= (size_t)cap ? r : 0))), N0); free(out);
}
// conversions between string objects: how says which constructor or assignment is used
static void obj32(const Sx& s, int n) {
  Str32 r; int how = g.below(n >= 0 ? 1 : 4);
  if(n >= 0) { Own<char> src(s.c_str(), n > (int)s.size() ? s.size() + 1 : n); r = Str32(src.p, (size_t)n); }
  else { Own<char> src(s.c_str(), s.size() + 1); r = Str32(U"old text"); if(how == 0) r = src.p; else if(how == 1) { Str32 t(src.p); r = t; } else if(how == 2) r = Str(src.p); else { Str q(src.p); Str32 t(q); r = std::move(t); } }
  ev("Obj32", A(js(s), n), A(ju(r)), N0);
}
static void obj8(const Ux& s, int n) {
  Str r; int how = g.below(4);
  if(n >= 0) { Own<char32_t> src(s.c_str(), n > (int)s.size() ? s.size() + 1 : n); r = Str(src.p, (size_t)n); }
  else { Own<char32_t> src(s.c_str(), s.size() + 1); r = "old text that is not short at all"; if(how == 0) r = src.p; else if(how == 1) { Str t(src.p); r = t; } else if(how == 2) r = Str32(src.p); else { Str32 q(src.p); Str t(q); r = std::move(t); } }
  ev("Obj8", A(ju(s), n), A(js(r)), N0);
}
static void uni(char32_t c) { Sx p = bytes(3), s = p; OutputUnicode(s, (int)c); ev("Uni", A(js(p), c > 0x10FFFF ? 0x110000 : (int)c), A(js(s)), N0); }
static void b64(const Sx& s) {
  Own<uint8_t> src((const uint8_t*)s.data(), s.size()); size_t n = Base64Encode(src.p, s.size(), 0);
  char* out = (char*)malloc(n ? n : 1); size_t r = Base64Encode(src.p, s.size(), out); Sx t(out, r <= n ? r : 0); free(out);
  ev("B64", A(js(s)), A(n, r, js(t)), N0);
}
static void unb64(const Sx& t) {
  Own<char> src(t.data(), t.size()); size_t n = Base64Decode(src.p, t.size(), 0);
  uint8_t* out = (uint8_t*)malloc(n ? n : 1); size_t r = Base64Decode(src.p, t.size(), out);
  ev("UnB64", A(js(t)), A(n, r, js(Sx((char*)out, r <= n ? r : 0))), N0); free(out);
}
static void itoa1(int v, int radix, int spare) {
  char t[64]; int n = 0; unsigned u = v < 0 ? 0u - (unsigned)v : v; do { ++n; u /= radix; } while(u); n += (v < 0) + 1 + spare;
  char* b = (char*)malloc(n); memset(b, 'x', n); int r = itoa_r(v, b, n, radix); b[n - 1] = 0;
  ev("Itoa", A(v < 0, v >> 16, (int)((unsigned)v & 65535), radix), A(r, js(b)), N0); free(b); (void)t;
}
static void badItoa() { char b[40] = "k"; int w = g.below(3); int r = w == 0 ? itoa_r(5, b, 1, 10) : w == 1 ? itoa_r(5, b, 40, g.below(2)) : itoa_r(5, 0, 9, 10); ev("BadItoa", A(w), A(r != 0, js(b)), N0); }
static void toStr(int v) { Str s = ToString(v); ev("Itoa", A(v < 0, v >> 16, (int)((unsigned)v & 65535), 10), A(0, js(s)), N0); }

static Sx ctext(const Sx& s) { return s; }
// ---- plain functions on C strings
static void ctrim(const Sx& s, int how) {
  Own<char> p(s.c_str(), s.size() + 1); char* r = how == 0 ? strltrim(p.p) : how == 1 ? strrtrim(p.p) : strtrim(p.p);
  ev("CTrim", A(how, js(s)), A(js(r)), N0);
}
static void crep(const Sx& s, char a, char b) { Own<char> p(s.c_str(), s.size() + 1); char* r = strreplace(p.p, a, b); ev("CRep", A(js(s), (int)(unsigned char)a, (int)(unsigned char)b), A(js(r), r == p.p), N0); }
static void ccount(const Sx& s, char c, int n) {
  Own<char> p(s.c_str(), n < 0 || n > (int)s.size() ? s.size() + 1 : n);
  size_t r = n < 0 ? strccount(p.p, c) : strccount(p.p, c, (size_t)n); ev("CCount", A(js(s), (int)(unsigned char)c, n), A(r), N0);
}
static void bsearch1(const Sx& s, const Sx& f) {
  Own<char> p(s.data(), s.size()), q(f.data(), f.size()); const void* r = g.chance(50) ? ByteSearch((const void*)p.p, s.size(), (const void*)q.p, f.size()) : ByteSearch((void*)p.p, s.size(), (void*)q.p, f.size());
  ev("Search", A(js(s), js(f)), A(r ? (long)((const char*)r - p.p) : -1L), N0);
}
static void flip(const Sx& s) {
  size_t n = s.size(); Own<uint8_t> p((const uint8_t*)s.data(), n);
  if(n == 1 && g.chance(50)) FlipEndian((uint8_t*)p.p); else if(n == 2 && g.chance(70)) FlipEndian<2>(p.p); else if(n == 4 && g.chance(60)) FlipEndian<4>(p.p); else if(n == 8 && g.chance(60)) FlipEndian<8>(p.p); else if(n == 3 && g.chance(50)) FlipEndian<3>(p.p); else FlipEndian(p.p, (uint8_t)n);
  ev("Flip", A(js(s)), A(js(Sx((char*)p.p, n))), N0);
}
static void argv1() {
  std::vector<Sx> a; int n = g.below(6); Sx line; auto sp = [&](int lo) { int k = lo + (g.chance(25) ? g.below(3) : 0); for(int i = 0; i < k; ++i) line += " \t\n"[g.chance(80) ? 0 : g.below(3)]; };
  sp(0);
  for(int i = 0; i < n; ++i) {
    if(i) sp(1);
    bool quote = g.chance(40); Sx w; int k = g.below(5);
    for(int j = 0; j < k; ++j) { char c = quote ? "ab -x\t"[g.below(6)] : "ab-x\"/"[g.below(6)]; w += c; }
    if(!quote && (w.empty() || w[0] == '"')) w = "-" + w;
    if(!quote && 0) quote = true;
    line += quote ? "\"" + w + "\"" : w; a.push_back(w);
  }
  sp(0);
  Own<char> p(line.c_str(), line.size() + 1); int c0 = ToArgV((char**)0, p.p); bool same = line == p.p;
  char** av = (char**)malloc(sizeof(char*) * (n ? n : 1)); int c1 = c0 == n ? ToArgV(av, p.p) : -1; std::vector<Sx> r; if(c1 == n) for(int i = 0; i < n; ++i) r.push_back(av[i]);
  ev("Argv", A(js(line), jss(a)), A(c0, same, c1, jss(r)), N0); free(av);
}
static void cmdargs() {
  std::vector<Sx> a; int n = g.below(7); for(int i = 0; i < n; ++i) { Sx w; int k = g.below(4); for(int j = 0; j < k; ++j) w += "a-b/"[g.below(4)]; a.push_back(w); }
  char div = g.chance(70) ? '-' : '/'; std::vector<const char*> p; for(auto& s : a) p.push_back(s.c_str());
  JA out; auto fn = [&](const char* const* q, int k) { std::vector<Sx> grp; for(int i = 0; i < k; ++i) grp.push_back(q[i]); out.push_back(jss(grp)); };
  if(div == '-' && g.chance(50)) ProcessCmdArgs(n, p.data(), fn); else ProcessCmdArgs(n, p.data(), fn, div);
  ev("Cmd", A(jss(a), (int)div), A(arr(out)), N0);
}
static void format() {
  Sx f; int n = g.below(7); for(int i = 0; i < n; ++i) { switch(g.below(8)) { case 0: case 1: case 2: f += "{" + std::to_string(g.below(5)) + "}"; break; case 3: f += "{0" + std::to_string(g.below(4)) + "}"; break; case 4: f += "{1" + std::to_string(g.below(3)) + "}"; break; default: f += Sx("{}1x20{", 7).substr(g.below(7), 1); } }
  std::vector<Sx> a; for(int i = 0; i < 12; ++i) a.push_back(bytes(3, 2));
  Own<char> p(f.c_str(), f.size() + 1); std::ostringstream o; std::vector<Sx> used;
  switch(g.below(4)) { case 0: SafeFormat(o, p.p, a[0]); used = { a[0] }; break;
    case 1: { int v = (int)g.below(2000) - 1000; SafeFormat(o, p.p, a[0], v, a[2].c_str()); used = { a[0], std::to_string(v), a[2] }; break; }
    case 2: SafeFormat(o, p.p, a[0], a[1]); used = { a[0], a[1] }; break;
    default: SafeFormat(o, p.p, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); used = a; }
  ev("Format", A(js(f), jss(used)), A(js(o.str())), N0);
}
// ---- a string object under a history of operations
static std::vector<Sx> plain(const std::vector<Str>& v) { return std::vector<Sx>(v.begin(), v.end()); }
static void object() {
  Str s; ev("New", A(), A(), js(s));
  int n = 4 + g.below(14);
  for(int i = 0; i < n; ++i) {
    int kind = g.below(4); Sx w = bytes(g.chance(85) ? 6 : 40, kind); Own<char> pw(w.c_str(), w.size() + 1); char c = (char)abyte(kind), d = (char)abyte(kind); int ic = (unsigned char)c, id = (unsigned char)d;
    switch(g.below(20)) {
      case 0: s = pw.p; ev("Set", A(js(w)), A(), js(s)); break;
      case 1: { Str t(pw.p); if(g.chance(50)) s = t; else s = std::move(t); ev("Set", A(js(w)), A(), js(s)); break; }
      case 2: s = (const char*)0; ev("Set", A(js("")), A(), js(s)); break;
      case 3: s += pw.p; ev("Add", A(js(w)), A(), js(s)); break;
      case 4: s += Str(pw.p); ev("Add", A(js(w)), A(), js(s)); break;
      case 5: s += c; ev("Add", A(js(Sx(1, c))), A(), js(s)); break;
      case 6: { int v = g.below(5); Str t(pw.p); Str r = v == 0 ? s + t : v == 1 ? s + pw.p : v == 2 ? s + Str(pw.p) : v == 3 ? Str(s) + t : Str(s) + pw.p; ev("Plus", A(js(w)), A(js(r)), js(s)); break; }
      case 7: { Str r = g.chance(50) ? s + c : Str(s) + c; ev("Plus", A(js(Sx(1, c))), A(js(r)), js(s)); break; }
      case 8: { Str r = g.chance(50) ? pw.p + s : pw.p + Str(s); ev("Pre", A(js(w)), A(js(r)), js(s)); break; }
      case 9: { Str r = g.chance(50) ? c + s : c + Str(s); ev("Pre", A(js(Sx(1, c))), A(js(r)), js(s)); break; }
      case 10: { Str a(s), b(pw.p); if(g.chance(50)) b.reserve(100); if(g.chance(50)) a.reserve(100); Str r = std::move(a) + std::move(b); ev("Plus", A(js(w)), A(js(r)), js(s)); break; }
      case 11: case 12: { Str r = s.Trim(); ev("Trim", A(), A(js(r)), js(s)); break; }
      case 13: s.ReplaceChar(c, d); ev("Rep", A(ic, id), A(), js(s)); break;
      case 14: { Str r = Str::StripChar(s.c_str(), c); ev("Strip", A(ic), A(js(r)), js(s)); break; }
      case 15: { uint16_t k = g.below(4); Str r(k, s.c_str(), c); ev("Chunk", A((int)k, ic), A(js(r)), js(s)); break; }
      case 16: { std::vector<Str> v; if(g.chance(50)) v = Str::Explode(c, s.c_str()); else Str::Explode(v, c, s.c_str()); ev("Explode", A(ic), A(jss(plain(v))), js(s)); break; }
      case 17: { char dl[3] = { c, d, 0 }; std::vector<Sx> v; auto f = [](const char* x) { return Sx(x); }; size_t r;
        if(g.chance(50)) r = Str::ParseTokens<Sx>(s.c_str(), dl, v, f); else { Own<char> q(s.c_str(), s.size() + 1); r = Str::ParseTokens<Sx>(q.p, dl, v, f); }
        ev("Tokens", A(ic, id), A(r, jss(v)), js(s)); break; }
      case 18: { int v = (int)g.next(); Str r = StrF("%s|%d", s.c_str(), v); ev("StrF", A(v < 0, v >> 16, (int)((unsigned)v & 65535)), A(js(r)), js(s)); break; }
      default: { if(s.size()) { size_t k = g.below(s.size()); if(g.chance(50)) { s.GetChar(k) = 'z'; ev("Char", A(k, 'z'), A(), js(s)); } else { s.UnsafeString()[k] = 0; s.RecalcSize(); ev("Cut", A(k), A(), js(s)); } } }
    }
  }
}
// ExplodeNull: a double-terminated list
static void exnull() { std::vector<Sx> a; Sx t; int n = g.below(4); for(int i = 0; i < n; ++i) { Sx w = "k" + bytes(3); a.push_back(w); t += w; t += '\0'; } t += '\0'; Own<char> p(t.data(), t.size()); std::vector<Str> v; Str::Explode(v, 0, p.p); ev("ExNull", A(jss(a)), A(jss(plain(v))), N0); }

static void one(int w) {
  switch(w) {
    case 0: case 1: { Sx s = g.chance(80) ? utf(5) : bytes(7, 1); to32(s, count(s.size()), g.chance(20) ? -1 : g.below(8)); break; }
    case 2: case 3: { Ux s = points(5, true); to8(s, count(s.size()), g.chance(20) ? -1 : g.below(22)); break; }
    case 4: { Sx s = g.chance(80) ? utf(5) : bytes(7, 1); int n = count(s.size()); obj32(s, n); break; }
    case 5: { Ux s = points(5, true); obj8(s, count(s.size())); break; }
    case 6: uni(g.chance(85) ? point() : 0x110000 + g.below(9)); break;
    case 7: b64(bytes(10)); break;
    case 8: { Sx t; int n = g.below(14); for(int i = 0; i < n; ++i) t += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[g.below(64)]; unb64(t); break; }
    case 9: { int r = 2 + g.below(35); int e[] = { 0, 1, -1, INT_MAX, INT_MIN, INT_MIN + 1, r, r - 1, -r, r * r, r * r - 1 }; itoa1(g.chance(50) ? e[g.below(11)] : (int)g.next() >> g.below(31), r, g.chance(50) ? 0 : g.below(5)); break; }
    case 10: if(g.chance(20)) badItoa(); else toStr((int)g.next() >> g.below(31)); break;
    case 11: { Sx s = bytes(4, 0), p, q; for(int i = g.below(4); i > 0; --i) p += " \t\1\37"[g.below(4)]; for(int i = g.below(4); i > 0; --i) q += " \n\2\37\177\200\240"[g.below(7)]; ctrim(g.chance(20) ? bytes(5, 1) : p + s + q, g.below(3)); break; }
    case 12: { int k = g.below(4); crep(bytes(8, k), (char)abyte(k), (char)abyte(k)); break; }
    case 13: { int k = g.below(4); Sx s = bytes(8, k); ccount(s, (char)abyte(k), g.chance(40) ? -1 : (int)g.below(s.size() + 4)); break; }
    case 14: { Sx s, f; for(int i = g.below(9); i > 0; --i) s += (char)g.below(2); for(int i = g.below(4); i > 0; --i) f += (char)g.below(2); bsearch1(s, f); break; }
    case 15: { Sx s; for(int i = g.below(12); i > 0; --i) s += (char)g.below(256); if(s.size()) flip(s); break; }
    case 16: argv1(); break;
    case 17: cmdargs(); break;
    case 18: format(); break;
    default: exnull();
  }
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int k = 0, n = 1; if(!a.part.empty()) sscanf(a.part.c_str(), "%d/%d", &k, &n);
  g = Rng(a.seed * 7919 + k);
  const char* C = "{\"kind\":\"text\"}";
  if(k == 0) { // sweeps: every code point boundary, every lead/continuation combination that decides legality, every trim position
    beginRun(C); static const int lead[] = { 1, 127, 128, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 248, 252, 255 }, cont[] = { 65, 127, 128, 143, 144, 159, 160, 191, 192 };
    for(int l : lead) for(int c : cont) for(int t = 0; t < 4; ++t) { Sx s(1, (char)l); s += (char)c; for(int i = 0; i < t; ++i) s += i == 1 && t == 3 ? (char)cont[(l + c) % 9] : (char)128; to32(s, t & 1 ? -1 : (int)s.size(), 6); }
    endRun(); beginRun(C);
    for(char32_t c : { 1u, 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xFFFu, 0xD7FFu, 0xE000u, 0xFFFFu, 0x10000u, 0x3FFFFu, 0x40000u, 0x10FFFFu, 0x110000u, 0xFFFFFFFFu }) for(int cap = -1; cap < 7; ++cap) { to8(Ux(1, c), -1, cap); to8(Ux(1, c), 1, cap); to8(Ux(2, c), -1, cap); if(c <= 0x10FFFF) { Sx s; put(s, c); to32(s, -1, cap); to32(s, (int)s.size(), cap); for(size_t i = 0; i < s.size(); ++i) to32(s, (int)i, cap); } if(cap < 0) uni(c > 0x7FFFFFFF ? 0x7FFFFFFF : c); }
    for(char32_t c : { 0x7Fu, 0x80u, 0x800u, 0x10000u }) for(int m = 0; m < 4; ++m) { Sx s; for(int i = 0; i < m; ++i) put(s, c); for(int n2 = -1; n2 <= (int)s.size() + 1; ++n2) obj32(s, n2); for(int n2 = -1; n2 <= m + 1; ++n2) obj8(Ux(m, c), n2); }
    endRun(); beginRun(C);
    for(int l = 0; l < 4; ++l) for(int m = 0; m < 3; ++m) for(int r = 0; r < 4; ++r) for(int how = 0; how < 3; ++how) { ctrim(Sx(l, ' ') + Sx(m, 'q') + Sx(r, ' '), how); }
    for(int v = 0; v < 256; ++v) for(int how = 0; how < 3; ++how) if(v) ctrim(Sx(1, (char)v), how);
    for(int i = 0; i < 256; ++i) { Sx s(1, (char)i); b64(s); s += (char)(i * 7); b64(s); s += (char)(i * 13); b64(s); }
    static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    for(int i = 0; i < 64; ++i) for(int p = 0; p < 4; ++p) { Sx s = "AAAA"; s[p] = al[i]; unb64(s); s.resize(3); unb64(s); s.resize(2); unb64(s); }
    endRun(); beginRun(C);
    for(int r = 2; r <= 36; ++r) for(int v : { 0, 1, -1, r - 1, r, r + 1, -r, r * r - 1, r * r, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1 }) itoa1(v, r, v & 1);
    for(int i = 0; i < 4; ++i) badItoa();
    endRun();
  }
  for(long r = 0; r < a.budget; ++r) { beginRun(C); if(r % 3 == 2) object(); else for(int i = 0; i < 30; ++i) one(g.below(20)); endRun(); }
  finish(); return 0;
}
