// Packed lanes, fixed-point and dual numbers, for spec/NumTrace.tla.
#include "vp.h"
#include <memory>
#include <cmath>
#include <array>
#include "bss-util/bss_util.h"
#include "bss-util/compare.h"
#include "bss-util/sseVec.h"
#include "bss-util/FixedPt.h"
#include "bss-util/Dual.h"
using namespace vp;
using namespace bss;
static Rng* G;
static J num(double d) { if(!(d > -1e9 && d < 1e9)) return J(77777777); double r = std::floor(d + 0.5); if(std::fabs(d - r) > 1e-4) return J(77777777); return J((int)r); }
// ---- lanes ----
template<class T, int N> struct Lane {
  typedef sseVecT<T> V; alignas(16) T x[2][N];
  static const bool FP = std::is_floating_point_v<T>; static const int W = FP ? 0 : sizeof(T) * 8;
  V at(int i) { if(G->chance(50)) return V(x[i]); T un[N + 1]; memcpy(un + 1, x[i], sizeof x[i]); return V(BSS_UNALIGNED<const T>(un + 1)); }
  void put(int i, const V& v) { if(G->chance(50)) v.Set(x[i]); else { T un[N + 1]; v.Set(BSS_UNALIGNED<T>(un + 1)); memcpy(x[i], un + 1, sizeof x[i]); } }
  J jl(const T* p) { JA r; for(int k = 0; k < N; ++k) r.push_back(FP ? num((double)p[k]) : J((long)p[k])); return arr(r); }
  J st() { return A(jl(x[0]), jl(x[1])); }
  void e(const char* op, const J& a, const J& r = A()) { ev(op, a, r, st()); }
  int lim() { return sizeof(T) == 1 ? 127 : G->chance(50) ? 4 : sizeof(T) == 2 ? 32767 : 100; }
  void load(int i) { int m = lim(); JA w; for(int k = 0; k < N; ++k) { int q = G->range(sizeof(T) <= 2 && G->chance(20) ? -m - 1 : -m, m); x[i][k] = (T)q; w.push_back(q); }
    if(G->chance(15)) { T c = x[i][0]; V v(c); put(i, v); w.assign(N, J((int)c)); } e("Load", A(i + 1, arr(w))); }
  J mask(const V& v) { alignas(16) T y[N]; v.Set(y); JA r; for(int k = 0; k < N; ++k) { unsigned char b[sizeof(T)]; memcpy(b, &y[k], sizeof(T)); bool one = true, zero = true; for(unsigned char c : b) { if(c != 255) one = false; if(c) zero = false; } r.push_back(one ? J(true) : zero ? J(false) : J(false)); if(!one && !zero) return A(); } return arr(r); }
  template<int a, int b, int c, int d> bool sh(int i, int j, int& n) { if(n-- != 0) return false; put(i, at(j).template Shuffle<a, b, c, d>()); e("Pick", A(i + 1, j + 1, A(a, b, c, d))); return true; }
  void tidy() { for(int i = 0; i < 2; ++i) for(int k = 0; k < N; ++k) if(sizeof(T) > 2 && !(x[i][k] < 3000 && x[i][k] > -3000)) { load(i); break; } }
  void step() {
    int i = G->below(2), j = G->below(2), k = G->below(2);
    switch(G->below(13)) {
      case 0: load(i); break;
      case 1: case 2: { bool as = G->chance(50); if(as) j = i; V a = at(j), b = at(k); bool mi = G->chance(50); if(as) { if(mi) a -= b; else a += b; } else a = mi ? a - b : a + b; put(i, a); e("Bin", A(i + 1, mi ? "-" : "+", j + 1, k + 1)); } break;
      case 3: if constexpr(FP || sizeof(T) == 4) { bool as = G->chance(50); if(as) j = i; V a = at(j), b = at(k); if(as) a *= b; else a = a * b; put(i, a); e("Bin", A(i + 1, "*", j + 1, k + 1)); } break;
      case 4: if constexpr(FP || sizeof(T) == 4) { bool mn = G->chance(50); V a = at(j), b = at(k); put(i, mn ? a.min(b) : a.max(b)); e("Bin", A(i + 1, mn ? "min" : "max", j + 1, k + 1)); } break;
      case 5: if constexpr(!FP) { int o = G->below(3); bool as = G->chance(50); if(as) j = i; V a = at(j), b = at(k);
          if(as) { if(o == 0) a &= b; else if(o == 1) a |= b; else a ^= b; } else a = o == 0 ? a & b : o == 1 ? a | b : a ^ b; put(i, a); e("Bin", A(i + 1, o == 0 ? "&" : o == 1 ? "|" : "^", j + 1, k + 1)); } break;
      case 6: if constexpr(!FP && sizeof(T) > 1) { int s = G->below(sizeof(T) == 2 ? 16 : 10); bool left = G->chance(50); if(!left && sizeof(T) != 4) { for(int q = 0; q < N; ++q) if(x[j][q] < 0) return; }
          if(left && sizeof(T) == 2) for(int q = 0; q < N; ++q) if(x[j][q] > 10000 || x[j][q] < -10000) return; // products stay within TLC's integers
          bool as = G->chance(50); if(as && i != j) { if(left || sizeof(T) == 4) j = i; else as = false; }
          if(left && sizeof(T) == 2) for(int q = 0; q < N; ++q) if(x[j][q] > 10000 || x[j][q] < -10000) return;
          V a = at(j); if(as) { if(left) a <<= s; else a >>= s; } else a = left ? a << s : a >> s; put(i, a); e("BinS", A(i + 1, left ? "<<" : ">>", j + 1, s)); } break;
      case 7: case 8: if constexpr(sizeof(T) != 8 || FP) { if(G->chance(50)) { memcpy(x[1 - i], x[i], sizeof x[i]); e("Copy", A(2 - i, i + 1)); int q = G->below(N); x[i][q] = (T)(x[i][q] != 0 ? 0 : 2); JA w; for(int z = 0; z < N; ++z) w.push_back(num((double)x[i][z])); e("Load", A(i + 1, arr(w))); j = 1 - i; }
          static const char* C[6] = { "<", "<=", ">", ">=", "==", "!=" }; int o = G->below(6); V a = at(i), b = at(j); V m = o == 0 ? a < b : o == 1 ? a <= b : o == 2 ? a > b : o == 3 ? a >= b : o == 4 ? a == b : a != b;
          e("Mask", A(C[o], i + 1, j + 1), A(mask(m))); } break;
      case 9: if constexpr(!FP) { if(G->chance(50)) { if constexpr(sizeof(T) != 8) e("IsZero", A(i + 1), A(mask(!at(i)))); } else { put(i, ~at(j)); e("Not", A(i + 1, j + 1)); } } break;
      case 10: if constexpr(sizeof(T) == 4) { int n = G->below(8); if(sh<0, 1, 2, 3>(i, j, n) || sh<3, 2, 1, 0>(i, j, n) || sh<1, 0, 3, 2>(i, j, n) || sh<2, 3, 0, 1>(i, j, n) || sh<0, 0, 3, 1>(i, j, n) || sh<2, 2, 2, 2>(i, j, n) || sh<1, 2, 3, 0>(i, j, n) || sh<3, 0, 2, 1>(i, j, n)) break; }
        else if constexpr(sizeof(T) == 8) { put(i, at(j).Swap()); e("Pick", A(i + 1, j + 1, A(1, 0))); }
        else if constexpr(sizeof(T) == 2) { int w = G->below(3); if(w == 0) { put(i, V::template Shuffle<0x1B>(at(j))); e("Pick", A(i + 1, j + 1, A(6, 7, 4, 5, 2, 3, 0, 1))); } else if(w == 1) { put(i, V::template ShuffleHi<0x1E>(at(j))); e("Pick", A(i + 1, j + 1, A(0, 1, 2, 3, 6, 7, 5, 4))); } else { put(i, V::template ShuffleLo<0x1E>(at(j))); e("Pick", A(i + 1, j + 1, A(2, 3, 1, 0, 4, 5, 6, 7))); } } break;
      case 11: if(G->chance(60)) { if constexpr(sizeof(T) >= 4) { auto s = at(i).Sum(); e("Sum", A(i + 1), A(FP ? num((double)s) : J((long)s))); } } else { T f; at(i).Set(f); e("First", A(i + 1), A(FP ? num((double)f) : J((long)f))); } break;
      case 12: if constexpr(FP) { if(G->chance(40)) { JA wa, wb; for(int q = 0; q < N; ++q) { int d = G->range(1, 5) * (G->chance(40) ? -1 : 1), p = d * G->range(-9, 9); x[0][q] = (T)p; x[1][q] = (T)d; wa.push_back(p); wb.push_back(d); }
            { alignas(16) T keep[N]; memcpy(keep, x[1], sizeof keep); alignas(16) T k0[N]; memcpy(k0, x[0], sizeof k0); ev("Load", A(1, arr(wa)), A(), A(arr(wa), prev1)); ev("Load", A(2, arr(wb)), A(), A(arr(wa), arr(wb))); }
            V a = at(0), b = at(1); if(G->chance(50)) a /= b; else a = a / b; put(0, a); e("Div", A(1, 1, 2), A(jl(x[0]))); break; }
          if constexpr(sizeof(T) == 4) { JA w; alignas(16) T y[4], o[4]; for(int q = 0; q < 4; ++q) { int f = G->range(-40, 40); y[q] = (T)(f / 4.0); w.push_back(f); } V v(y);
            int op = G->below(4); if(op == 0) v.floor().Set(o); else if(op == 1) v.ceil().Set(o); else { alignas(16) int z[4]; if(op == 2) sseVecT<int>((BSS_SSE_M128)v).Set(z); else sseVecT<int>((BSS_SSE_M128)v, (char)1).Set(z); for(int q = 0; q < 4; ++q) o[q] = (T)z[q]; }
            e(op == 0 ? "Floor" : op == 1 ? "Ceil" : op == 2 ? "Trunc" : "Round", A(arr(w)), A(jl(o))); } }
        else if constexpr(sizeof(T) == 4) { sseVecT<float> f((BSS_SSE_M128i)at(i)); alignas(16) float o[4]; f.Set(o); JA w; for(float z : o) w.push_back(num(z)); e("Conv", A(i + 1), A(arr(w))); } break;
    }
    tidy(); prev1 = jl(x[1]);
  }
  J prev1;
  void go() {
    memset(x, 0, sizeof x); beginRun("{\"kind\":\"lane\",\"w\":" + std::to_string(W) + ",\"n\":" + std::to_string(N) + ",\"d\":0,\"init\":" + st().s + "}"); prev1 = jl(x[1]);
    load(0); load(1); prev1 = jl(x[1]); for(int n = G->range(10, 40); n > 0; --n) step(); endRun();
  }
};
// ---- fixed point ----
template<uint8_t D, class T, bool DIV> struct Fx {
  typedef Fixed<D, T> F; F x[2] = { F((T)0), F((T)0) };
  J st() { return A((long)x[0].Bits(), (long)x[1].Bits()); }
  void e(const char* op, const J& a, const J& r = A()) { ev(op, a, r, st()); }
  int big() { return 60; }
  void load(int i) { int m = G->range(0, 2); if(m == 0) { int n = G->range(-5, 5); x[i] = F((T)n); e("FromInt", A(i + 1, n)); } else { int q = G->range(-90, 90); if(m == 1) x[i] = F((float)(q / 16.0)); else x[i] = F(q / 16.0); e("FromNum", A(i + 1, q)); } }
  template<uint8_t B> void other(int i, int j) {
    int q = G->range(-60, 60); Fixed<B, T> y(q / (B > 4 && G->chance(40) ? (double)(1 << B) : 16.0)); int b = (int)y.Bits(); int o = G->below(DIV ? 4 : 3); if(o == 3 && b == 0) o = 0; bool as = G->chance(50); if(as) j = i;
    if(as) { if(o == 0) x[i] += y; else if(o == 1) x[i] -= y; else if(o == 2) x[i] *= y; else x[i] /= y; }
    else x[i] = o == 0 ? x[j] + y : o == 1 ? x[j] - y : o == 2 ? x[j] * y : x[j] / y;
    e(o == 0 ? "Add" : o == 1 ? "Sub" : o == 2 ? "Mul" : "FDiv", A(i + 1, j + 1, b, (int)B));
  }
  template<class N> void numop(int i, int j) {
    int q = G->range(-60, 60); N v = (N)(q / 16.0); F y((N)v); int b = (int)y.Bits(); int o = G->below(DIV ? 4 : 3); if(o == 3 && b == 0) o = 2; bool as = G->chance(50); if(as) j = i;
    if(as) { if(o == 0) x[i] += v; else if(o == 1) x[i] -= v; else if(o == 2) x[i] *= v; else x[i] /= v; }
    else x[i] = o == 0 ? (G->chance(50) ? x[j] + v : v + x[j]) : o == 1 ? x[j] - v : o == 2 ? (G->chance(50) ? x[j] * v : v * x[j]) : x[j] / v;
    e(o == 0 ? "Add" : o == 1 ? "Sub" : o == 2 ? "Mul" : "FDiv", A(i + 1, j + 1, (int)((long)q * (1 << D) / 16), (int)D));
  }
  template<uint8_t B> void conv(int i) { Fixed<B, T> y(x[i]); if(G->chance(50)) { Fixed<B, T> z((T)1); z = x[i]; y = z; } e("Convert", A(i + 1, (int)B), A((long)y.Bits())); }
  void step() {
    int i = G->below(2), j = G->below(2);
    switch(G->below(13)) {
      case 0: load(i); break;
      case 1: case 2: switch(G->below(4)) { case 0: other<4>(i, j); break; case 1: other<8>(i, j); break; case 2: other<12>(i, j); break; case 3: other<6>(i, j); break; } break;
      case 3: case 4: if(G->chance(50)) numop<float>(i, j); else numop<double>(i, j); break;
      case 5: { int o = G->below(DIV ? 4 : 3), b = (int)x[j].Bits(), k = G->below(2); if(o == 3 && b == 0) o = 0; int w = G->below(2); F a = x[k], c = x[j]; x[w] = o == 0 ? a + c : o == 1 ? a - c : o == 2 ? a * c : a / c; e(o == 0 ? "Add" : o == 1 ? "Sub" : o == 2 ? "Mul" : "FDiv", A(w + 1, k + 1, b, (int)D)); } break;
      case 6: { int b = (int)x[1 - i].Bits(); if(b) { if(G->chance(50)) x[i] %= x[1 - i]; else x[i] = x[i] % x[1 - i]; e("Mod", A(i + 1, i + 1, b)); } } break;
      case 7: x[i] = -x[j]; e("Neg", A(i + 1, j + 1)); break;
      case 8: { int s = G->below(4); if(G->chance(50)) { if(G->chance(50)) x[i] <<= (T)s; else x[i] = x[i] << (T)s; e("Shl", A(i + 1, i + 1, s)); } else { if(G->chance(50)) x[i] >>= (T)s; else x[i] = x[i] >> (T)s; e("Shr", A(i + 1, i + 1, s)); } } break;
      case 9: { const F &a = x[i], &b = x[j]; e("FCmp", A(i + 1, j + 1), A(A(a < b, a <= b, a > b, a >= b, a == b, a != b))); } break;
      case 10: switch(G->below(4)) { case 0: conv<4>(i); break; case 1: conv<8>(i); break; case 2: conv<12>(i); break; case 3: conv<6>(i); break; } break;
      case 11: if(G->chance(50)) e("ToInt", A(i + 1), A((long)(T)x[i])); else e("ToNum", A(i + 1), A(num((G->chance(50) ? (double)(float)x[i] : (double)x[i]) * (1 << D)))); break;
      case 12: if constexpr(sizeof(T) == 4) { int b = (int)x[i].Bits(); if(b > 4 || b < -4) { auto y = x[i].Reciprocal(); e("Recip", A(i + 1), A((long)(y.Bits() / 4))); } } else { x[i] = x[j]; e("Copy", A(i + 1, j + 1)); } break;
    }
    for(int k = 0; k < 2; ++k) if(x[k].Bits() > 28000 || x[k].Bits() < -28000) load(k);
  }
  void go() { beginRun("{\"kind\":\"fixed\",\"w\":0,\"n\":0,\"d\":" + std::to_string((int)D) + ",\"init\":[0,0]}"); load(0); load(1); for(int n = G->range(10, 40); n > 0; --n) step(); endRun(); }
};
// ---- dual numbers ----
template<int O> struct Du {
  typedef Dual<double, O> X; X x[2];
  static X mk(const double* p) { if constexpr(O == 1) return X(p[0], Dual<double, 0>(p[1])); else return X(p[0], Dual<double, 1>(p[1], Dual<double, 0>(p[2]))); }
  J jj(const X& v) { JA r; for(int k = 0; k <= O; ++k) r.push_back(num(v(k))); return arr(r); }
  J st() { return A(jj(x[0]), jj(x[1])); }
  void e(const char* op, const J& a, const J& r = A()) { ev(op, a, r, st()); }
  X rnd(int at = 99) { double p[3]; for(double& q : p) q = G->range(-3, 3); if(at != 99) p[0] = at; return mk(p); }
  void load(int i, int at = 99) { x[i] = rnd(at); e("JLoad", A(i + 1, jj(x[i]))); }
  void step() {
    int i = G->below(2), j = G->below(2); double s = G->range(-3, 3); double sp[3] = { s, 0, 0 }; X cs = mk(sp);
    switch(G->below(14)) {
      case 0: load(i); break;
      case 1: { int o = G->below(4); X y = G->chance(50) ? x[G->below(2)] : rnd(); X a = x[j]; x[i] = o == 0 ? a + y : o == 1 ? a - y : o == 2 ? a * y : y - a; e(o == 0 ? "JAdd" : o == 1 ? "JSub" : o == 2 ? "JMul" : "JRSub", A(i + 1, j + 1, jj(y))); } break;
      case 2: { int o = G->below(4); X a = x[j]; x[i] = o == 0 ? (G->chance(50) ? a + s : s + a) : o == 1 ? a - s : o == 2 ? (G->chance(50) ? a * s : s * a) : s - a; e(o == 0 ? "JAdd" : o == 1 ? "JSub" : o == 2 ? "JMul" : "JRSub", A(i + 1, j + 1, jj(cs))); } break;
      case 3: { X y = rnd(G->chance(50) ? 1 : -1); x[i] = x[j] / y; e("JDiv", A(i + 1, j + 1, jj(y)), A(jj(x[i]))); } break;
      case 4: { load(j, G->chance(50) ? 1 : -1); X a = x[j]; x[i] = s / a; e("JInv", A(i + 1, j + 1, (int)s), A(jj(x[i]))); } break;
      case 5: x[i] = -x[j]; e("JNeg", A(i + 1, j + 1)); break;
      case 6: if(x[j](0) != 0) { x[i] = x[j].Abs(); e("JAbs", A(i + 1, j + 1)); } break;
      case 7: if(x[j](0) != 0 && std::fabs(x[j](0)) < 6) { int k = G->range(1, 3); x[i] = x[j] ^ (double)k; e("JPow", A(i + 1, j + 1, k)); } break;
      case 8: { load(j, G->chance(50) ? 1 : -1); int k = G->range(1, 2); X a = x[j]; x[i] = a ^ (double)-k; e("JRoot", A(i + 1, j + 1, k), A(jj(x[i]))); } break;
      case 9: load(j, 0); x[i] = G->chance(50) ? x[j].sin() : X::sin(x[j]); e("JSin", A(i + 1, j + 1)); break;
      case 10: load(j, 0); x[i] = x[j].cos(); e("JCos", A(i + 1, j + 1)); break;
      case 11: load(j, 0); x[i] = x[j].exp(); e("JExp", A(i + 1, j + 1)); break;
      case 12: load(j, 1); if(G->chance(50)) { x[i] = x[j].log(); e("JLog", A(i + 1, j + 1)); } else { X y = x[j].log10() * std::log(10.0); e("JLog10", A(i + 1, j + 1), A(jj(y))); } break;
      case 13: { load(j, 1); X y = rnd(); x[i] = x[j] ^ y; e("JPowJ", A(i + 1, j + 1, jj(y))); } break;
    }
    for(int k = 0; k < 2; ++k) for(int q = 0; q <= O; ++q) if(!(std::fabs(x[k](q)) < 300)) { load(k); break; }
  }
  void go() { beginRun("{\"kind\":\"dual\",\"w\":0,\"d\":0,\"n\":" + std::to_string(O + 1) + ",\"init\":" + st().s + "}"); load(0); load(1); for(int n = G->range(10, 40); n > 0; --n) step(); endRun(); }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int pk = 0; if(!a.part.empty()) pk = atoi(a.part.c_str());
  Rng g(a.seed * 1009 + pk * 137 + 3); G = &g; long n = a.budget ? a.budget : 100;
  for(long r = 0; r < n; ++r) switch(g.below(13)) {
    case 0: Lane<float, 4>().go(); break; case 1: Lane<double, 2>().go(); break; case 2: Lane<int32_t, 4>().go(); break; case 3: Lane<int16_t, 8>().go(); break; case 4: Lane<char, 16>().go(); break; case 5: Lane<int64_t, 2>().go(); break;
    case 6: Fx<4, int32_t, true>().go(); break; case 7: Fx<8, int32_t, true>().go(); break; case 8: Fx<12, int32_t, true>().go(); break; case 9: Fx<8, int64_t, false>().go(); break; case 10: Fx<12, int64_t, false>().go(); break;
    case 11: Du<1>().go(); break; case 12: Du<2>().go(); break;
  }
  return finish();
}
