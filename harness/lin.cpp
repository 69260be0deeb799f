// Vectors and matrices, for spec/LinTrace.tla.
#include "vp.h"
#include <memory>
#include <cmath>
#include <array>
#include "bss-util/bss_util.h"
#include "bss-util/compare.h"
#include "bss-util/vector.h"
using namespace vp;
using namespace bss;
static Rng* G;
static const double PI2 = 1.57079632679489661923;
template<class T> J num(T x) { double d = (double)x; if(!(d > -2e6 && d < 2e6)) return J(77777777); double r = std::floor(d + 0.5); if(std::fabs(d - r) > 2e-3) return J(77777777); return J((int)r); }
template<class T, int N> J jv(const T(&x)[N]) { JA r; for(int i = 0; i < N; ++i) r.push_back(num(x[i])); return arr(r); }
template<class T, int N> J jv(const Vector<T, N>& x) { return jv(x.v); }
template<class T, int M, int N> J jm(const T(&x)[M][N]) { JA r; for(int i = 0; i < M; ++i) r.push_back(jv(x[i])); return arr(r); }
template<class T, int M, int N> J jm(const Matrix<T, M, N>& x) { return jm(x.v); }
template<class T> T snap(T x) { if constexpr(std::is_floating_point_v<T>) return (T)std::floor(x + (T)0.5); else return x; }
static const char* OPS[3] = { "+", "-", "*" };
static J letters(const char* s) { JA r; for(; *s; ++s) r.push_back(J(std::string(1, *s))); return arr(r); }

template<class T, int N> struct Box {
  Vector<T, N> v[2]; Matrix<T, N, N> m[2];
  J st() { return raw("{\"v\":" + A(jv(v[0]), jv(v[1])).s + ",\"m\":" + A(jm(m[0]), jm(m[1])).s + "}"); }
};
template<class T, int N> struct Run {
  std::unique_ptr<Box<T, N>> bx{ new Box<T, N> };
  Vector<T, N>* v = bx->v; Matrix<T, N, N>* m = bx->m;
  typedef Vector<T, N> V; typedef Matrix<T, N, N> M;
  static const bool FP = std::is_floating_point_v<T>;
  int k2() { return G->below(2); }
  void e(const char* op, const J& a, const J& r = A()) { ev(op, a, r, bx->st()); }
  void fill(T(&x)[N], int lo, int hi) { for(int i = 0; i < N; ++i) x[i] = (T)G->range(lo, hi); }
  void loadV(int i, int r) {
    T x[N]; fill(x, -r, r); if(G->chance(20)) { T c = x[0]; v[i] = V(c); }
    else if(G->chance(30)) { std::array<T, N> y; for(int k = 0; k < N; ++k) y[k] = x[k]; v[i] = V(y); }
    else if(G->chance(40)) { if constexpr(N == 2) v[i] = V{ x[0], x[1] }; else if constexpr(N == 3) v[i] = V{ x[0], x[1], x[2] }; else if constexpr(N == 4) v[i] = V{ x[0], x[1], x[2], x[3] }; else v[i] = V{ x[0], x[1], x[2], x[3], x[4] }; }
    else v[i] = V(x);
    JA w; if(true) { } e("LoadV", A(i + 1, jv(v[i])));
  }
  void want(int i, const T(&x)[N]) { v[i] = V(x); JA w; for(int k = 0; k < N; ++k) w.push_back((int)x[k]); e("LoadV", A(i + 1, arr(w))); }
  void loadM(int i, int r) {
    T x[N][N]; JA w; for(int k = 0; k < N; ++k) { fill(x[k], -r, r); JA y; for(int q = 0; q < N; ++q) y.push_back((int)x[k][q]); w.push_back(arr(y)); }
    if constexpr(N == 2) { if(G->chance(30)) { m[i] = M{ x[0][0], x[0][1], x[1][0], x[1][1] }; e("LoadM", A(i + 1, arr(w))); return; } }
    if constexpr(N == 3) { if(G->chance(30)) { m[i] = M{ x[0][0], x[0][1], x[0][2], x[1][0], x[1][1], x[1][2], x[2][0], x[2][1], x[2][2] }; e("LoadM", A(i + 1, arr(w))); return; } }
    if constexpr(N == 4) { if(G->chance(30)) { m[i] = M{ x[0][0], x[0][1], x[0][2], x[0][3], x[1][0], x[1][1], x[1][2], x[1][3], x[2][0], x[2][1], x[2][2], x[2][3], x[3][0], x[3][1], x[3][2], x[3][3] }; e("LoadM", A(i + 1, arr(w))); return; } }
    m[i] = M(x); e("LoadM", A(i + 1, arr(w)));
  }
  // a matrix of determinant +-k, k one of 1, 2, 4
  int loadInv(int i) {
    int x[N][N]; for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) x[a][b] = a == b ? (G->chance(30) ? -1 : 1) : 0;
    int d = 1; if(G->chance(50)) { int f = G->chance(50) ? 2 : 4; int a = G->below(N); x[a][a] *= f; d = f; }
    for(int n = G->range(0, 6); n > 0; --n) {
      int a = G->below(N), b = G->below(N); if(a == b) continue; int s = G->chance(50) ? 1 : -1; int y[N];
      if(G->chance(40)) { for(int c = 0; c < N; ++c) std::swap(x[a][c], x[b][c]); continue; }
      bool ok = true; for(int c = 0; c < N; ++c) { y[c] = x[a][c] + s * x[b][c]; if(abs(y[c]) > 4) ok = false; } if(ok) for(int c = 0; c < N; ++c) x[a][c] = y[c];
    }
    T z[N][N]; JA w; for(int a = 0; a < N; ++a) { JA y; for(int b = 0; b < N; ++b) { z[a][b] = (T)x[a][b]; y.push_back(x[a][b]); } w.push_back(arr(y)); }
    m[i] = M(z); e("LoadM", A(i + 1, arr(w))); return d;
  }
  void tidy() {
    for(int i = 0; i < 2; ++i) {
      bool big = false; for(int k = 0; k < N; ++k) if(v[i].v[k] > 150 || v[i].v[k] < -150) big = true;
      if(big) loadV(i, 5);
      big = false; for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) if(m[i].v[a][b] > 150 || m[i].v[a][b] < -150) big = true;
      if(big) loadM(i, 4);
    }
  }
  bool sqrtOk(const V& d, int& root) { long s = 0; for(int k = 0; k < N; ++k) s += (long)(d.v[k] * d.v[k]); root = (int)(std::sqrt((double)s) + 0.5); return (long)root * root == s && root > 0; }
  void pyth(int i) { // integer length
    static const int T3[5][3] = { { 3, 4, 0 }, { 1, 2, 2 }, { 2, 3, 6 }, { 4, 4, 7 }, { 0, 0, 5 } }; T x[N];
    for(int k = 0; k < N; ++k) x[k] = 0;
    if(N == 2) { static const int P[4][2] = { { 3, 4 }, { 5, 12 }, { 8, 6 }, { 0, 7 } }; int c = G->below(4); x[0] = (T)P[c][0]; x[1] = (T)P[c][1]; }
    else if(N >= 4 && G->chance(50)) { static const int P[3][4] = { { 1, 1, 1, 1 }, { 1, 3, 5, 1 }, { 2, 4, 5, 2 } }; int c = G->below(3); for(int k = 0; k < 4; ++k) x[k] = (T)P[c][k]; }
    else { int c = G->below(5); for(int k = 0; k < 3; ++k) x[k] = (T)T3[c][k]; }
    for(int k = N - 1; k > 0; --k) std::swap(x[k], x[G->below(k + 1)]);
    for(int k = 0; k < N; ++k) if(G->chance(40)) x[k] = -x[k];
    want(i, x);
  }
  void snapM(M& x) { for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) { T s = snap(x.v[a][b]); if(std::fabs((double)(s - x.v[a][b])) < 2e-3) x.v[a][b] = s; } }
  template<class F> void outM(int i, F f) { if(G->chance(50)) f(m[i]); else { alignas(16) T x[N][N]; f(x); m[i] = M(x); } }
  void cmp(int i, int j) {
    const V &a = v[i], &b = v[j]; e("Cmp", A(i + 1, j + 1), A(A((bool)(a < b), (bool)(a <= b), (bool)(a > b), (bool)(a >= b), (bool)(a == b), (bool)(a != b))));
  }
  void step() {
    int i = k2(), j = k2(), k = k2(); T s = (T)G->range(-3, 3);
    switch(G->below(34)) {
      case 0: loadV(i, G->chance(50) ? 2 : 9); break;
      case 1: loadM(i, G->chance(50) ? 2 : 5); break;
      case 2: case 3: { int o = G->below(3); bool as = G->chance(50); if(as) { j = i; if(o == 0) v[i] += v[k]; else if(o == 1) v[i] -= v[k]; else v[i] *= v[k]; } else v[i] = o == 0 ? v[j] + v[k] : o == 1 ? v[j] - v[k] : v[j] * v[k];
        e("VV", A(i + 1, OPS[o], j + 1, k + 1)); } break;
      case 4: { int o = G->below(3); if(G->chance(50)) { j = i; if(o == 0) v[i] += s; else if(o == 1) v[i] -= s; else v[i] *= s; } else v[i] = o == 0 ? v[j] + s : o == 1 ? v[j] - s : v[j] * s; e("VS", A(i + 1, OPS[o], j + 1, (int)s)); } break;
      case 5: { int o = G->below(3); v[i] = o == 0 ? s + v[j] : o == 1 ? s - v[j] : s * v[j]; e("SV", A(i + 1, OPS[o], (int)s, j + 1)); } break;
      case 6: { T x[N], y[N]; fill(x, -4, 4); bool one = G->chance(50); int d = G->range(1, 4) * (G->chance(30) ? -1 : 1); for(int q = 0; q < N; ++q) { y[q] = (T)(one ? d : G->range(1, 4) * (G->chance(30) ? -1 : 1)); x[q] *= y[q]; }
        int b = 1 - i; want(i, x); want(b, y);
        if(one) { if(G->chance(50)) { v[i] /= (T)d; e("VDivS", A(i + 1, i + 1, d), A(jv(v[i]))); } else { v[b] = v[i] / (T)d; e("VDivS", A(b + 1, i + 1, d), A(jv(v[b]))); } }
        else if(G->chance(50)) { v[i] /= v[b]; e("VDiv", A(i + 1, i + 1, b + 1), A(jv(v[i]))); } else { v[b] = v[i] / v[b]; e("VDiv", A(b + 1, i + 1, b + 1), A(jv(v[b]))); } } break;
      case 7: v[i] = v[j].Abs(); e("Abs", A(i + 1, j + 1)); break;
      case 8: { if(G->chance(30)) v[i] = v[j]; else if(G->chance(50)) { Vector<double, N> d(v[j]); v[i] = d; } else { Vector<int, N> d; d = v[j]; v[i] = V(d); } e("CopyV", A(i + 1, j + 1)); } break;
      case 9: { T r; if(G->chance(50)) r = v[i].Dot(v[j]); else r = NVectorDot<T, N>(v[i].v, v[j].v); e("Dot", A(i + 1, j + 1), A(num(r))); } break;
      case 10: { T r; if(G->chance(50)) r = v[i].DistanceSq(v[j]); else r = NVectorDistanceSq<T, N>(v[i].v, v[j].v); e("DistSq", A(i + 1, j + 1), A(num(r))); } break;
      case 11: if constexpr(FP) { pyth(0); if(G->chance(50)) { loadV(1, 6); v[0] += v[1]; e("VV", A(1, "+", 1, 2)); T r = G->chance(50) ? v[0].Distance(v[1]) : NVectorDistance<T, N>(v[1].v, v[0].v); e("Dist", A(1, 2), A(num(r))); }
          else if(G->chance(50)) e("Len", A(1), A(num(v[0].Length()))); else { int root; if(sqrtOk(v[0], root)) { V u = v[0].Normalize(); for(int q = 0; q < N; ++q) u.v[q] *= (T)root; e("Norm", A(1, root), A(jv(u))); } } } break;
      case 12: if constexpr(N == 2) e("Cross", A(i + 1, j + 1), A(num(G->chance(50) ? v[i].Cross(v[j]) : v[i].Cross(v[j].x, v[j].y)))); else if constexpr(N == 3) e("Cross", A(i + 1, j + 1), A(jv(v[i].Cross(v[j])))); break;
      case 13: case 14: swizzle(i); break;
      case 15: if(G->chance(50)) { T x[N]; for(int q = 0; q < N; ++q) x[q] = v[i].v[q]; x[G->below(N)] += (T)G->range(-1, 1); want(1 - i, x); } cmp(i, j); cmp(i, 1 - i); break;
      case 16: { if(G->chance(60)) { T x[N]; for(int q = 0; q < N; ++q) x[q] = s; if(G->chance(60)) x[G->below(N)] += (T)G->range(-1, 1); want(i, x); }
        const V& a = v[i]; e("CmpS", A(i + 1, (int)s), A(A((bool)(a < s), (bool)(a <= s), (bool)(a > s), (bool)(a >= s), (bool)(a == s), (bool)(a != s)))); } break;
      case 17: if constexpr(FP && N == 2) { int q = G->range(-5, 5); T c[2]; fill(c, -4, 4); V r = G->chance(50) ? v[i].Rotate((T)(q * PI2), V(c)) : v[i].Rotate((T)(q * PI2), c[0], c[1]); e("Turn", A(i + 1, (q + 8) % 4, jv(c)), A(jv(r))); } break;
      case 18: case 19: { int o = G->below(3); static const char* MO[3] = { "+", "-", "^" }; if(G->chance(50)) { j = i; if(o == 0) m[i] += m[k]; else if(o == 1) m[i] -= m[k]; else m[i] ^= m[k]; } else m[i] = o == 0 ? m[j] + m[k] : o == 1 ? m[j] - m[k] : m[j] ^ m[k];
        e("MM", A(i + 1, MO[o], j + 1, k + 1)); } break;
      case 20: { int o = G->below(3); if(G->chance(50)) { j = i; if(o == 0) m[i] += s; else if(o == 1) m[i] -= s; else m[i] *= s; } else m[i] = o == 0 ? m[j] + s : o == 1 ? m[j] - s : m[j] * s; e("MS", A(i + 1, OPS[o], j + 1, (int)s)); } break;
      case 21: { int o = G->below(3); m[i] = o == 0 ? s + m[j] : o == 1 ? s - m[j] : s * m[j]; e("SM", A(i + 1, OPS[o], (int)s, j + 1)); } break;
      case 22: case 23: if(G->chance(50)) { m[i] *= m[k]; e("Mul", A(i + 1, i + 1, k + 1)); } else { m[i] = m[j] * m[k]; e("Mul", A(i + 1, j + 1, k + 1)); } break;
      case 24: v[i] = v[j] * m[k]; e("RowMul", A(i + 1, j + 1, k + 1)); break;
      case 25: v[i] = m[k] * v[j]; e("ColMul", A(i + 1, j + 1, k + 1)); break;
      case 26: { int w = G->below(3); if(w == 0) m[i] = m[j].Transpose(); else if(w == 1) { T x[N][N]; m[j].Transpose(x); m[i] = M(x); } else { if(N == 5 && i == j) j = 1 - i; m[j].Transpose(m[i]); } e("Trans", A(i + 1, j + 1)); } break;
      case 27: if(G->chance(60)) { if(G->chance(50)) { m[i] = M::Diagonal(v[j].v); } else if(G->chance(50)) M::Diagonal(v[j], m[i]); else { T x[N][N]; M::Diagonal(v[j], x); m[i] = M(x); } e("Diag", A(i + 1, j + 1)); } else { if(G->chance(50)) m[i] = M::Identity(); else M::Identity(m[i]); e("Ident", A(i + 1)); } break;
      case 28: if(G->chance(50)) { if constexpr(N <= 4) { if(G->chance(50)) { Matrix<double, N, N> d(m[j]); m[i] = d; } else m[i] = m[j]; } else m[i] = m[j]; e("CopyM", A(i + 1, j + 1)); } else { m[i] = -m[j]; e("Neg", A(i + 1, j + 1)); } break;
      case 29: { alignas(16) T x[N][N]; v[j].template Outer<N>(v[k], x); m[i] = M(x); e("Outer", A(i + 1, j + 1, k + 1)); } break;
      case 30: if constexpr(N <= 4) { loadM(i, N == 4 ? 3 : 6); if(G->chance(30)) loadInv(i); e("Det", A(i + 1), A(num(m[i].Determinant()))); } break;
      case 31: if constexpr(N <= 4 && FP) { int d = loadInv(i); bool place = G->chance(50) && d == 1; int dst = place ? i : d == 1 ? j : 1 - i; M keep = m[dst]; M r;
          if(place) { m[i].Inverse(m[i]); r = m[i]; } else if(G->chance(50)) r = m[i].Inverse(); else { alignas(16) T x[N][N]; m[i].Inverse(x); r = M(x); }
          for(int a = 0; a < N; ++a) for(int b = 0; b < N; ++b) r.v[a][b] *= (T)d;
          snapM(r); if(d == 1) m[dst] = r; else m[dst] = keep; e("Inv", A(dst + 1, i + 1, d), A(jm(r), jm(m[dst]))); } break;
      case 32: if(G->chance(60)) { m[1 - i] = m[i]; e("CopyM", A(2 - i, i + 1)); if(G->chance(50)) { T x[N][N]; memcpy(x, m[i].v, sizeof x); x[G->below(N)][G->below(N)] += 1; m[i] = M(x); e("LoadM", A(i + 1, jm(x))); } }
        if(G->chance(60)) e("EqM", A(i + 1, 2 - i), A(G->chance(50) ? (bool)(m[i] == m[1 - i]) : !(m[i] != m[1 - i])));
        else { T x[N][N]; for(auto& y : x) for(T& z : y) z = s; if(G->chance(50)) x[G->below(N)][G->below(N)] += 1; m[i] = M(x); e("LoadM", A(i + 1, jm(x))); e("EqMS", A(i + 1, (int)s), A(G->chance(50) ? (bool)(m[i] == s) : !(m[i] != s))); } break;
      case 33: special(i); break;
    }
    tidy();
  }
  void special(int i) {
    int q = G->range(-5, 5), qq = (q + 8) % 4; T r = (T)(q * PI2); bool t = G->chance(40); T d[3]; for(T& x : d) x = (T)G->range(-4, 4); T c[2]; for(T& x : c) x = (T)G->range(-3, 3);
    if constexpr(N == 2 && FP) { outM(i, [&](auto& x) { if(t) M::Rotation_T(r, x); else M::Rotation(r, x); }); snapM(m[i]); e("Rot2", A(i + 1, qq, t)); }
    else if constexpr(N == 3 && FP) {
      int w = G->below(6);
      if(w < 3) { outM(i, [&](auto& x) { if(w == 0) { if(t) M::RotationX_T(r, x); else M::RotationX(r, x); } else if(w == 1) { if(t) M::RotationY_T(r, x); else M::RotationY(r, x); } else if(G->chance(50)) { if(t) M::RotationZ_T(r, x); else M::RotationZ(r, x); } else { if(t) M::AffineRotation_T(r, x); else M::AffineRotation(r, x); } });
        snapM(m[i]); e("Rot", A(i + 1, w == 0 ? "x" : w == 1 ? "y" : "z", qq, t)); }
      else if(w == 3) { outM(i, [&](auto& x) { if(t) M::Translation_T(d[0], d[1], x); else M::Translation(d[0], d[1], x); }); e("Shift", A(i + 1, A(num(d[0]), num(d[1])), t)); }
      else if(w == 4) { outM(i, [&](auto& x) { if(t) M::AffineTransform_T(d[0], d[1], r, c[0], c[1], x); else M::AffineTransform(d[0], d[1], r, c[0], c[1], x); }); snapM(m[i]); e("Affine", A(i + 1, A(num(d[0]), num(d[1])), qq, A(num(c[0]), num(c[1])), t)); }
      else { v[0] = V(d[0], d[1], 1); e("LoadV", A(1, A(num(d[0]), num(d[1]), 1))); outM(i, [&](auto& x) { M::AffineScaling(d[0], d[1], x); }); e("Diag", A(i + 1, 1)); }
    } else if constexpr(N == 4 && FP) {
      int w = G->below(6);
      if(w < 3) { outM(i, [&](auto& x) { if(w == 0) { if(t) M::AffineRotationX_T(r, x); else M::AffineRotationX(r, x); } else if(w == 1) { if(t) M::AffineRotationY_T(r, x); else M::AffineRotationY(r, x); } else { if(t) M::AffineRotationZ_T(r, x); else M::AffineRotationZ(r, x); } });
        snapM(m[i]); e("Rot", A(i + 1, w == 0 ? "x" : w == 1 ? "y" : "z", qq, t)); }
      else if(w == 3) { outM(i, [&](auto& x) { if(t) M::Translation_T(d[0], d[1], d[2], x); else M::Translation(d[0], d[1], d[2], x); }); e("Shift", A(i + 1, A(num(d[0]), num(d[1]), num(d[2])), t)); }
      else if(w == 4) { outM(i, [&](auto& x) { if(t) M::AffineTransform_T(d[0], d[1], d[2], r, c[0], c[1], x); else M::AffineTransform(d[0], d[1], d[2], r, c[0], c[1], x); }); snapM(m[i]); e("Affine", A(i + 1, A(num(d[0]), num(d[1]), num(d[2])), qq, A(num(c[0]), num(c[1])), t)); }
      else { v[0] = V(d[0], d[1], d[2], 1); e("LoadV", A(1, A(num(d[0]), num(d[1]), num(d[2]), 1))); outM(i, [&](auto& x) { M::AffineScaling(d[0], d[1], d[2], x); }); e("Diag", A(i + 1, 1)); }
      if constexpr(std::is_same_v<T, float>) {
        static const int P[4][4] = { { 1, 1, 1, 1 }, { 1, 3, 5, 1 }, { 2, 4, 5, 2 }, { 0, 3, 0, 4 } }; int pc = G->below(4), x[4]; for(int a = 0; a < 4; ++a) x[a] = P[pc][a] * (G->chance(40) ? -1 : 1);
        for(int a = 3; a > 0; --a) std::swap(x[a], x[G->below(a + 1)]);
        int kk = 0; for(int a : x) kk += a * a; float k = std::sqrt((float)kk); alignas(16) float qf[4], o[4][4]; for(int a = 0; a < 4; ++a) qf[a] = x[a] / k;
        FromQuaternion<float, 4>(qf, o); for(auto& y : o) for(float& z : y) z *= kk;
        e("Quat", A(A(x[0], x[1], x[2], x[3]), kk), A(jm(o)));
        alignas(16) float sm[4][4], sp[4]; for(auto& y : sm) for(float& z : y) z = (float)G->range(-4, 4); for(float& z : sp) z = (float)G->range(-6, 6); int tt = G->range(-3, 3);
        e("Spline", A(tt, jv(sp), jm(sm)), A(num(GenericBSpline((float)tt, sp, sm))));
      }
    }
    if(G->chance(30)) { rect<2, 3, 4>(); rect<4, 2, 3>(); rect<3, 4, 4>(); rect<2, 4, 4>(); }
  }
  template<int a, int b, int c> void rect() {
    auto x = std::make_unique<Matrix<T, a, b>>(); auto y = std::make_unique<Matrix<T, b, c>>(); // heap: what ASan sees
    struct alignas(16) H { Matrix<T, a, b> x; alignas(16) Matrix<T, b, c> y; alignas(16) Matrix<T, a, c> z; }; H h;
    for(auto& q : h.x.v) for(T& z : q) z = (T)G->range(-4, 4); for(auto& q : h.y.v) for(T& z : q) z = (T)G->range(-4, 4);
    J p; if constexpr(c == 4 && b == 4) { alignas(16) T o[a][c]; MatrixMultiply<T, a, b, c>(h.x.v, h.y.v, o); p = jm(o); } else p = jm(h.x * h.y);
    T tr[b][a]; h.x.Transpose(h.x.v, tr);
    T col[b]; for(int q = 0; q < b; ++q) col[q] = h.y.v[q][0]; Vector<T, b> cv(col); Vector<T, a> mc = h.x * cv;
    T ty[c][b]; Matrix<T, b, c>::Transpose(h.y.v, ty); Matrix<T, c, b> yt(ty); Vector<T, c> row(h.y.v[0]); Vector<T, b> rr = row * yt;
    e("Rect", A(jm(h.x), jm(h.y)), A(p, jm(tr), jv(mc), jv(rr)));
  }
#define SW(x) if(n++ == pick) { e("Swizzle", A(i + 1, letters(#x)), A(jv(v[i].x()))); return; }
#define SF(x) if(n++ == pick) { e("Swizzle", A(i + 1, letters(#x)), A(jv(v[i].x))); return; }
  void swizzle(int i) {
    int n = 0; (void)n;
    if constexpr(N == 2) { int pick = 0; SW(yx) }
    else if constexpr(N == 3) { int pick = G->below(11); SW(xz) SW(zx) SW(zy) SW(yz) SW(yx) SW(xzy) SW(zxy) SW(zyx) SW(yzx) SW(yxz) SF(xy) }
    else if constexpr(N == 4) { int pick = G->below(42);
      SW(xz) SW(xw) SW(zx) SW(zy) SW(zw) SW(yz) SW(yx) SW(yw) SW(xyw) SW(xzy) SW(xzw) SW(xwy) SW(xwz) SW(zxy) SW(zxw) SW(zyx) SW(zyw) SW(zwx) SW(zwy) SW(wxy) SW(wxz) SW(wyx) SW(wyz) SW(wzx) SW(wzy)
      SW(xywz) SW(xzyw) SW(xzwy) SW(xwyz) SW(xwzy) SW(zxyw) SW(zxwy) SW(zyxw) SW(zywx) SW(zwxy) SW(zwyx) SW(wxyz) SW(wxzy) SW(wyxz) SW(wyzx) SW(wzxy) SW(wzyx) SF(xy) SF(xyz) }
  }
  void go() {
    beginRun(std::string("{\"n\":") + std::to_string(N) + "}");
    v[0] = V((T)0); v[1] = V((T)0); T z[N][N]; memset(z, 0, sizeof z); m[0] = M(z); m[1] = M(z);
    loadV(0, 6); loadV(1, 6); loadM(0, 4); loadM(1, 4);
    for(int n = G->range(10, 40); n > 0; --n) step();
    endRun();
  }
};
template<class T> void all() { switch(G->below(5)) { case 0: Run<T, 2>().go(); break; case 1: Run<T, 3>().go(); break; case 2: case 3: Run<T, 4>().go(); break; case 4: Run<T, 5>().go(); break; } }
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int pk = 0; if(!a.part.empty()) pk = atoi(a.part.c_str());
  Rng g(a.seed * 977 + pk * 131 + 5); G = &g; long n = a.budget ? a.budget : 100;
  for(long r = 0; r < n; ++r) switch(g.below(6)) { case 0: case 1: all<float>(); break; case 2: case 3: all<double>(); break; case 4: all<int>(); break; case 5: all<int64_t>(); break; }
  return finish();
}
