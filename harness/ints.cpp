// C27: integer and bit utilities, searches, orders.  Machine integers are logged as little-endian bytes, signed ones as [sign, magnitude].
#include "vp.h"
#include <memory>
#include <array>
#include <math.h>
#include "bss-util/bss_util.h"
#include "bss-util/algo.h"
using namespace bss; using namespace vp;
static const J N0 = J(0);
static Rng g(1);
typedef unsigned __int128 U128;
static J by(U128 v, int n) { std::vector<int> b; for(int i = 0; i < n; ++i) { b.push_back((int)(v & 255)); v >>= 8; } return J(b); }
template<class T> static J ju(T v) { return by((U128)v, sizeof(T)); }
template<class T> static J jz(T v) { typedef std::make_unsigned_t<T> U; bool n = v < 0; U m = n ? (U)0 - (U)v : (U)v; return A(n ? 1 : 0, by((U128)m, sizeof(T))); }
// boundary-heavy values
template<class T> static T val() {
  typedef std::make_unsigned_t<T> U; const int W = sizeof(T) * 8; U v;
  switch(g.below(7)) { case 0: v = (U)((U)1 << g.below(W)); break; case 1: v = (U)(((U)1 << g.below(W)) - 1); break; case 2: v = (U)(((U)1 << g.below(W)) + 1); break; case 3: v = (U)g.next(); break;
    case 4: v = (U)((U)g.next() >> g.below(W)); break; case 5: v = (U)((U)0 - (U)g.below(4)); break; default: v = (U)g.below(20); }
  return (T)v;
}
template<class T> struct W_ {
  typedef std::make_unsigned_t<T> U; typedef std::make_signed_t<T> S; static constexpr int W = sizeof(T) * 8;
  static void bits(U v) {
    ev("Count", A(ju(v)), A((int)BitCount<U>(v)), N0);
    if(v && v <= (U)((U)1 << (W - 1))) ev("Pow2", A(ju(v)), A(ju((U)NextPow2(v))), N0);
    if constexpr(sizeof(T) >= 4) { ev("Log2", A(ju(v)), A((int)bssLog2((std::conditional_t<sizeof(T) == 8, uint64_t, uint32_t>)v)), N0); if(v && !(v & (v - 1)) && v <= 0xFFFFFFFFu) ev("Log2", A(ju(v)), A((int)bssLog2_p2((uint32_t)v)), N0); }
    ev("Sqrt", A(ju(v)), A(ju((U)(g.chance(50) ? FastSqrt<U>(v) : IntFastSqrt<U>(v)))), N0);
    if(!(v >> (W - 1))) ev("Sqrt", A(ju(v)), A(ju((U)IntFastSqrt<S>((S)v))), N0);
    U m = val<U>(); bool on = g.chance(50); ev("SetBit", A(ju(v), ju(m), on), A(ju((U)bssSetBit<U>(v, m, on))), N0);
    { int k = 1 + g.below(4), ix = g.below(k * W); std::vector<U> p; for(int i = 0; i < k; ++i) p.push_back(val<U>()); bool r = bssGetBit<U>(p.data(), ix); ev("GetBit", A(ju(p[ix / W]), ix % W), A(r), N0); }
    { int k = g.below(W); ev("Mask", A(W, k, k), A(ju((U)GetBitMask<U>(k))), N0); int lo = (int)g.below(2 * W - 1) - (W - 1), hi = lo + (int)g.below(W - 1); if(hi >= W) hi = W - 1; ev("Mask", A(W, lo, hi), A(ju((U)GetBitMask<U>(lo, hi))), N0); }
    { ev("Shift", A(ju(v), 3), A(ju((U)SafeShift<U, 3>(v))), N0); ev("Shift", A(ju(v), -2), A(ju((U)SafeShift<U, -2>(v))), N0); ev("Shift", A(ju(v), 0), A(ju((U)SafeShift<U, 0>(v))), N0); ev("Shift", A(ju(v), 1 - W), A(ju((U)SafeShift<U, 1 - W>(v))), N0); }
    { char n = (char)g.below(2); U x = v & (U)(((U)1 << (W - 1)) - 1); ev("Neg", A(ju(x), (int)n), A(jz((S)bssNegate<U>(x, n))), N0); ev("Abs", A(A(0, ju(v))), A(ju((U)bssAbs<U>(v))), N0); }
    if(v && v < (U)((U)~(U)0 / 2)) ev("Grow", A(ju(v)), A(ju((U)fbnext<U>(v))), N0);
  }
  static void ints(S x) {
    S lo = (S)((U)1 << (W - 1)); S d = val<S>(); if(d <= 0) d = (S)(1 + g.below(100));
    ev("Div", A(jz(x), jz(d)), A(jz((S)IntDiv<S, S>(x, d))), N0);
    { S r = bssMod<S>(x, d); __int128 k = ((__int128)x - r) / d; S q = (S)k; ev("Mod", A(jz(x), jz(d)), A(jz(r), jz(q)), N0); }
    if(x != lo) ev("Abs", A(jz(x)), A(ju((U)bssAbs<S>(x))), N0);
    ev("Sign", A(jz(x)), A((long)tsign<S>(x), (int)tsignzero<S>(x)), N0);
  }
  static void extract(T x, T y, int s) {
    const bool sg = std::is_signed<T>::value; T lo = sg ? (T)((U)1 << (W - 1)) : (T)0; if(sg && sizeof(T) > 2 && (x == lo || y == lo)) return; // the absolute value of the minimum overflows int arithmetic
    if(s > 127) return; T sh = (T)s; if(sg && s > (1 << (W - 1)) - 1) return;
    auto j = [&](T v) { if constexpr(std::is_signed<T>::value) return jz(v); else return A(0, ju(v)); };
    ev("Extract", A(j(x), j(y), sg, s), A(j(internal::_bssmultiplyextract<T>(x, y, sh))), N0);
    ev("Extract", A(j(x), j(y), sg, s), A(j(bssMultiplyExtract<T>(x, y, sh))), N0);
  }
};
template<class T> static void width() {
  W_<T>::bits((std::make_unsigned_t<T>)val<T>()); W_<T>::ints((std::make_signed_t<T>)val<T>());
  int W = sizeof(T) * 8; for(int i = 0; i < 2; ++i) { int s = g.chance(40) ? (int)(std::array<int, 6>{ 0, 1, W - 1, W, W + 1, 2 * W - 1 })[g.below(6)] : (int)g.below(2 * W); W_<T>::extract(val<T>(), val<T>(), s); W_<std::make_unsigned_t<T>>::extract((std::make_unsigned_t<T>)val<T>(), (std::make_unsigned_t<T>)val<T>(), s); }
}
static void days() {
  static const int ml[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int y = g.chance(50) ? 1890 + (int)g.below(220) : (int)g.below(20000) - 10000; if(g.chance(30)) y = y / 100 * 100; unsigned m = 1 + g.below(12); bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; int len = ml[m - 1] + (m == 2 && leap); unsigned d = g.chance(30) ? (unsigned)len : g.chance(30) ? 1 : 1 + g.below(len);
  long r = g.chance(50) ? (long)DaysFromCivil<int>(y, m, d) : (long)DaysFromCivil<int64_t>(y, m, d); ev("Days", A(y, m, d), A(r), N0);
}
template<class CT> static void search() {
  int n = g.below(g.chance(80) ? 9 : 40); std::vector<int> q; int v = (int)g.below(5) - 3; for(int i = 0; i < n; ++i) { q.push_back(v); v += g.below(3); }
  int* p = (int*)malloc(n ? n * 4 : 1); std::copy(q.begin(), q.end(), p); int f = g.below(n + 1), t = f + g.below(n - f + 1); int k = n && g.chance(70) ? q[g.below(n)] + (int)g.below(3) - 1 : (int)g.below(30) - 5; bool whole = g.chance(40);
  if(whole) { f = 0; t = n; }
  long b = whole ? (long)(std::make_signed_t<CT>)BinarySearchBefore<int, CT, CompT<int>>(p, (CT)n, k) : (long)(std::make_signed_t<CT>)BinarySearchBefore<int, CT, CompT<int>>(p, k, (CT)f, (CT)t); ev("Before", A(q, f, t, k), A(b), N0);
  long c = whole ? (long)BinarySearchAfter<int, CT, CompT<int>>(p, (CT)n, k) : (long)BinarySearchAfter<int, CT, CompT<int>>(p, k, (CT)f, (CT)t); ev("After", A(q, f, t, k), A(c), N0);
  long x = (long)(std::make_signed_t<CT>)BinarySearchExact<int, int, CT, CompT<int>>(p, k, f, t); ev("Exact", A(q, f, t, k), A(x), N0); free(p);
}
static void fixedSearch() {
  int q[6]; int v = 0; std::vector<int> z; for(int i = 0; i < 6; ++i) { q[i] = v; z.push_back(v); v += g.below(3); } int k = (int)g.below(v + 3) - 1;
  ev("Before", A(z, 0, 6, k), A((long)(int)BinarySearchBefore<int, uint32_t, CompT<int>, 6>(q, k)), N0); ev("After", A(z, 0, 6, k), A((long)BinarySearchAfter<int, uint32_t, CompT<int>, 6>(q, k)), N0); ev("Exact", A(z, 0, 6, k), A((long)(int)BinarySearchExact<int, uint32_t, CompT<int>, 6>(q, k)), N0);
}
static void shuffle() {
  int n = g.below(12); std::vector<int> q; for(int i = 0; i < n; ++i) q.push_back(g.below(6)); int* p = (int*)malloc(n ? n * 4 : 1); std::copy(q.begin(), q.end(), p);
  XorshiftEngine64 e; e.seed(g.next()); switch(g.below(3)) { case 0: Shuffle<int>(p, n); break; case 1: Shuffle<int, int, XorshiftEngine64>(p, n, e); break; default: Shuffle<int, size_t, XorshiftEngine64>(p, n, e); }
  ev("Shuffle", A(q), A(std::vector<int>(p, p + n)), N0); free(p);
}
struct Nd { Nd *l, *r; int id; };
static std::vector<int> order; static int stopAt;
static bool act(Nd* n) { order.push_back(n->id); return (int)order.size() == stopAt; }
static Nd* lc(Nd* n) { return n->l; }
static Nd* rc(Nd* n) { return n->r; }
static void bfs(int n, int shape) {
  std::vector<Nd> v(n); for(int i = 0; i < n; ++i) v[i] = Nd{ 0, 0, i + 1 };
  for(int i = 1; i < n; ++i) { if(shape == 0) { Nd* p = &v[(i - 1) / 2]; (i & 1 ? p->l : p->r) = &v[i]; } else if(shape == 1) v[i - 1].l = &v[i]; else if(shape == 2) v[i - 1].r = &v[i]; else for(;;) { Nd* p = &v[g.below(i)]; Nd*& q = g.chance(50) ? p->l : p->r; if(!q) { q = &v[i]; break; } } }
  std::vector<int> L, R; for(auto& x : v) { L.push_back(x.l ? x.l->id : 0); R.push_back(x.r ? x.r->id : 0); }
  order.clear(); stopAt = g.chance(25) ? 1 + (int)g.below(n) : 0; BreadthFirstTree<Nd, act, lc, rc>(&v[0], n); ev("Bfs", A(L, R, stopAt), A(order), N0);
}
static void misc() {
  { std::string s; int n = g.below(9); std::vector<int> b; for(int i = 0; i < n; ++i) { s += (char)(1 + g.below(127)); b.push_back(s.back()); } ev("Fnv32", A(b), A(ju((uint32_t)hash_fnv1a(s.c_str()))), N0); ev("Fnv64", A(b), A(ju((uint64_t)hash64_fnv1a(s.c_str()))), N0); }
  { int n = 1 + g.below(9); std::vector<int> q; double var = 0, avg = 0, avg2 = 0; for(int i = 0; i < n; ++i) { int x = (int)g.below(41) - 20; q.push_back(x); avg2 = bssAvg<double, int>(avg2, x, i + 1); bssVariance<double, int>(var, avg, x, i + 1); } ev("Var", A(q), A(llround(var * n), llround(avg * n), llround(avg2 * n)), N0); }
  { int k = (int)g.below(2001) - 1000; ev("Trunc", A(k), A(g.chance(50) ? fFastTruncate((float)(k / 4.0)) : fFastTruncate(k / 4.0)), N0); ev("Round", A(k), A(g.chance(50) ? fFastRound((float)(k / 4.0)) : fFastRound(k / 4.0)), N0); }
  { int a = (int)g.below(4001) - 2000, b = (int)g.below(4001) - 2000, c = (int)g.below(4001) - 2000, d = (int)g.below(4001) - 2000; ev("Dist2", A(a, b, c, d), A(DistSqr<int>(a, b, c, d)), N0); int t = DistSqr<int>(a, b, c, d); ev("Sqrt", A(ju((uint32_t)t)), A(ju((uint32_t)Dist<int>(a, b, c, d))), N0); }
}
template<int B> static void limit() { typedef BitLimit<B> L; ev("Width", A(B), A((sizeof(typename L::SIGNED) * 8 >= B && sizeof(typename L::UNSIGNED) == sizeof(typename L::SIGNED) && std::is_signed<typename L::SIGNED>::value && (B > 8 ? sizeof(typename L::UNSIGNED) * 4 < B : sizeof(typename L::UNSIGNED) == 1)) ? 1 : 0), N0); }
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int k = 0, n = 1; if(!a.part.empty()) sscanf(a.part.c_str(), "%d/%d", &k, &n);
  g = Rng(a.seed * 104729 + k); const char* C = "{\"kind\":\"int\"}";
  if(k == 0) {
    beginRun(C); limit<1>(); limit<7>(); limit<8>(); limit<9>(); limit<16>(); limit<17>(); limit<31>(); limit<32>(); limit<33>(); limit<63>(); limit<64>(); endRun();
    for(int j = 0; j < 16; ++j) { beginRun(C); for(int i = 0; i < 16; ++i) W_<uint8_t>::bits((uint8_t)(j * 16 + i)); endRun(); }
    for(int i = 0; i < 64; ++i) { beginRun(C); W_<uint64_t>::bits((uint64_t)1 << i); W_<uint64_t>::bits(((uint64_t)2 << i) - 1); if(i < 32) { W_<uint32_t>::bits((uint32_t)1 << i); W_<uint32_t>::bits(((uint32_t)2 << i) - 1); } if(i < 16) { W_<uint16_t>::bits((uint16_t)(1 << i)); W_<uint16_t>::bits((uint16_t)((2 << i) - 1)); } endRun(); }
    beginRun(C); for(uint64_t r : { 3ull, 255ull, 256ull, 65535ull, 65536ull, 92681ull, 16777216ull, 4294967295ull, 3037000500ull }) for(int d = -1; d < 2; ++d) { W_<uint64_t>::bits(r * r + d); if(r < 65536) W_<uint32_t>::bits((uint32_t)(r * r + d)); } endRun();
    beginRun(C); for(int i = -128; i < 128; ++i) W_<int8_t>::ints((int8_t)i); endRun();
    beginRun(C); for(int m = 1; m < 20; ++m) for(int s = 0; s < 3; ++s) bfs(m, s); endRun();
  }
  for(long r = 0; r < a.budget; ++r) {
    beginRun(C);
    for(int i = 0; i < 3; ++i) { width<int8_t>(); width<int16_t>(); width<int32_t>(); width<int64_t>(); }
    for(int i = 0; i < 8; ++i) { days(); search<uint32_t>(); search<size_t>(); search<uint8_t>(); search<int>(); fixedSearch(); shuffle(); bfs(1 + g.below(g.chance(80) ? 12 : 40), 3); misc(); }
    endRun();
  }
  finish(); return 0;
}
