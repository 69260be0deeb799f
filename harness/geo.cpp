// Plane geometry: circles, lines, rectangles, ellipses and polygons with integer coordinates, for spec/GeoTrace.tla.
#include "vp.h"
#include <memory>
#include <cmath>
#include <array>
#include <algorithm>
#include "bss-util/bss_util.h"
#include "bss-util/compare.h"
#include "bss-util/Geometry.h"
using namespace vp;
using namespace bss;
static Rng* G;
static J whole(double d) { if(!(d > -1e9 && d < 1e9)) return J(77777777); double q = std::floor(d + 0.5); if(std::fabs(d - q) > 0.05) return J(77777777); return J((int)q); }
static J frac(double d) { if(!(d > -1e6 && d < 1e6)) return J(77777777); return J((int)std::floor(d * 256 + 0.5)); }
struct P { int x, y; };
static J jp(P p) { return A(p.x, p.y); }
static int M;
static P pt() { return P{ G->range(-M, M), G->range(-M, M) }; }
static P pt(P not1) { for(;;) { P p = pt(); if(p.x != not1.x || p.y != not1.y) return p; } }
static long norm(P a, P b) { return (long)(a.x - b.x)*(a.x - b.x) + (long)(a.y - b.y)*(a.y - b.y); }
static long side(P a, P b, P p) { return (long)(b.x - a.x)*(p.y - a.y) - (long)(b.y - a.y)*(p.x - a.x); }
// Corners of the smallest convex polygon around some points, in either direction, now and then with a point on an edge
static std::vector<P> convex() {
  for(;;) {
    std::vector<P> v; for(int n = G->range(3, 9); n > 0; --n) v.push_back(pt());
    std::sort(v.begin(), v.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    v.erase(std::unique(v.begin(), v.end(), [](P a, P b) { return a.x == b.x && a.y == b.y; }), v.end());
    std::vector<P> h; bool flat = G->chance(20);
    auto half = [&](auto f, auto l) { size_t base = h.size(); for(auto i = f; i != l; ++i) { while(h.size() >= base + 2 && (flat ? side(h[h.size() - 2], h.back(), *i) < 0 : side(h[h.size() - 2], h.back(), *i) <= 0)) h.pop_back(); h.push_back(*i); } h.pop_back(); };
    if(v.size() < 3) continue;
    half(v.begin(), v.end()); half(v.rbegin(), v.rend());
    long area = 0; for(size_t i = 1; i + 1 < h.size(); ++i) area += side(h[0], h[i], h[i + 1]);
    if(h.size() < 3 || area == 0) continue;
    std::rotate(h.begin(), h.begin() + G->below((int)h.size()), h.end());
    if(G->chance(50)) std::reverse(h.begin(), h.end());
    return h;
  }
}
template<class T> struct Run {
  typedef Vector<T, 2> V; typedef Rect<T> R;
  R r[3];
  static V v(P p) { return V((T)p.x, (T)p.y); }
  J jr(const R& x) { return A(whole(x.left), whole(x.top), whole(x.right), whole(x.bottom)); }
  J st() { return A(jr(r[0]), jr(r[1]), jr(r[2])); }
  void e(const char* op, const J& a, const J& x) { ev(op, a, x, st()); }
  static J pts(int n, const V(&o)[2]) { JA x; for(int i = 0; i < n; ++i) x.push_back(A(frac(o[i].x), frac(o[i].y))); return arr(x); }
  template<int N> void balls() {
    Vector<T, N> c[2]; JA k[2]; for(int i = 0; i < 2; ++i) for(int j = 0; j < N; ++j) { int q = G->range(-M, M); c[i].v[j] = (T)q; k[i].push_back(q); }
    int R1 = G->range(1, 9), R2 = G->range(1, 9); NSphere<T, N> s(c[0], (T)R1), t(c[1], (T)R2); bool ob = G->chance(50);
    e("BallHas", A(arr(k[0]), R1, arr(k[1])), A(ob ? s.ContainsPoint(c[1]) : SphereContainsPoint<T, N>(c[1], c[0], (T)R1)));
    if constexpr(N != 2) {
      e("BallHasBall", A(arr(k[0]), R1, arr(k[1]), R2), A(ob ? s.ContainsSphere(t) : G->chance(50) ? s.ContainsSphere(c[1], (T)R2) : SphereContainsSphere<T, N>(c[0], (T)R1, c[1], (T)R2)));
      e("BallsMeet", A(arr(k[0]), R1, arr(k[1]), R2), A(ob ? s.SphereCollide(t) : G->chance(50) ? s.SphereCollide(c[1], (T)R2) : SphereSphereCollide<T, N>(c[0], (T)R1, c[1], (T)R2)));
    }
  }
  void circles() {
    P a = pt(), b = pt(); int R1 = G->range(1, 9), R2 = G->range(1, 9); Circle<T> c((T)a.x, (T)a.y, (T)R1), d(v(b), (T)R2); J q = A(jp(a), R1, jp(b), R2);
    switch(G->below(6)) {
    case 0: e("BallHas", A(jp(a), R1, jp(b)), A(G->chance(30) ? c.ContainsPoint(v(b)) : G->chance(50) ? c.ContainsPoint((T)b.x, (T)b.y) : CircleContainsPoint<T>(a.x, a.y, R1, b.x, b.y))); break;
    case 1: e("BallHasBall", q, A(G->chance(30) ? c.ContainsCircle(d) : G->chance(30) ? c.ContainsCircle(v(b), (T)R2) : G->chance(50) ? c.ContainsCircle((T)b.x, (T)b.y, (T)R2) : CircleContainsCircle<T>(a.x, a.y, R1, b.x, b.y, R2))); break;
    case 2: e("BallsMeet", q, A(G->chance(30) ? c.CircleCollide(v(b), (T)R2) : G->chance(50) ? c.CircleCollide((T)b.x, (T)b.y, (T)R2) : CircleCircleCollide<T>(a.x, a.y, R1, b.x, b.y, R2))); break;
    case 3: { if(norm(a, b) == 0) break; T X, Y; if(G->chance(30)) c.NearestPoint(v(b), X, Y); else if(G->chance(50)) c.NearestPoint((T)b.x, (T)b.y, X, Y); else CircleNearestPoint<T>(a.x, a.y, R1, b.x, b.y, X, Y); e("CircleNear", A(jp(a), R1, jp(b)), A(A(frac(X), frac(Y)))); } break;
    default: { if(norm(a, b) == 0) break; V o[2]; int n = G->chance(50) ? c.CircleIntersect((T)b.x, (T)b.y, (T)R2, o) : CircleCircleIntersect<T>(a.x, a.y, R1, b.x, b.y, R2, o); e("Circles", q, A(n, pts(n, o))); } break;
    }
  }
  void lineCircle() {
    P c = G->chance(50) ? P{ 0, 0 } : pt(), a = pt(), b = pt(a); int Q = G->range(1, 9); J q = A(jp(a), jp(b), jp(c), Q);
    T x1 = (T)(a.x - c.x), y1 = (T)(a.y - c.y), x2 = (T)(b.x - c.x), y2 = (T)(b.y - c.y); Circle<T> o(v(c), (T)Q); V p[2]; bool at0 = c.x == 0 && c.y == 0 && G->chance(60);
    for(V& z : p) z = V((T)1e7, (T)1e7);
    auto num = [&]() { return (p[0].x < 1e6) + (p[1].x < 1e6); };   // the members answer yes or no
    bool ra = norm(a, c) == (long)Q * Q, rb = norm(b, c) == (long)Q * Q;
    switch(G->below(3)) {
    case 0: { bool h = at0 ? LineRadiusIntersect<T>(x1, y1, x2, y2, (T)Q, p) != 0 : o.LineIntersect((T)a.x, (T)a.y, (T)b.x, (T)b.y, p); int n = num(); if(h != (n > 0)) n = 9;
      e("LineCircle", q, A(n, pts(n % 9, p), at0 ? LineRadiusCollide<T>(x1, y1, x2, y2, (T)Q) : o.LineCollide((T)a.x, (T)a.y, (T)b.x, (T)b.y))); } break;
    case 1: if(!ra) { bool h = at0 ? RayRadiusIntersect<T>(x1, y1, x2, y2, (T)Q, p) != 0 : o.RayIntersect((T)a.x, (T)a.y, (T)b.x, (T)b.y, p); int n = num(); if(h != (n > 0)) n = 9;
      e("RayCircle", q, A(n, pts(n % 9, p), at0 ? RayRadiusCollide<T>(x1, y1, x2, y2, (T)Q) : o.RayCollide((T)a.x, (T)a.y, (T)b.x, (T)b.y))); } break;
    case 2: if(!ra && !rb) { bool h = at0 ? LineSegmentRadiusIntersect<T>(x1, y1, x2, y2, (T)Q, p) != 0 : o.LineSegmentIntersect((T)a.x, (T)a.y, (T)b.x, (T)b.y, p); int n = num(); if(h != (n > 0)) n = 9;
      e("SegCircle", q, A(n, pts(n % 9, p), at0 ? LineSegmentRadiusCollide<T>(x1, y1, x2, y2, (T)Q) : o.LineSegmentCollide((T)a.x, (T)a.y, (T)b.x, (T)b.y))); } break;
    }
  }
  void lines() {
    P a = pt(), b = pt(a), c = pt(), d = pt(c); T L = (T)norm(a, b); J q = A(jp(a), jp(b), jp(c), jp(d));
    switch(G->below(7)) {
    case 0: { T x[3], y[3]; LineNearestPoint<T>(a.x, a.y, b.x, b.y, c.x, c.y, x[0], y[0]); RayNearestPoint<T>(a.x, a.y, b.x, b.y, c.x, c.y, x[1], y[1]); LineSegmentNearestPoint<T>(a.x, a.y, b.x, b.y, c.x, c.y, x[2], y[2]);
      e("Nearest", A(jp(a), jp(b), jp(c)), A(A(whole(x[0] * L), whole(y[0] * L)), A(whole(x[1] * L), whole(y[1] * L)), A(whole(x[2] * L), whole(y[2] * L)), whole(LinePointParametricProject<T>(a.x, a.y, b.x, b.y, c.x, c.y) * L))); } break;
    case 1: { auto sq = [](T z) { return z < 0 ? (T)-1e9 : z * z; }; T s = LineSegmentPointDistance<T>(a.x, a.y, b.x, b.y, c.x, c.y), t = LinePointDistance<T>(a.x, a.y, b.x, b.y, c.x, c.y);
      auto near = [](double z) { double w = std::floor(z + 0.5); return std::fabs(z - w) <= 0.05 + 1e-5 * w ? w : 77777777; };
      e("Dist", A(jp(a), jp(b), jp(c)), A(whole(LinePointDistanceSqr<T>(a.x, a.y, b.x, b.y, c.x, c.y) * L), whole(near(sq(t) * L)), whole(LineSegmentPointDistanceSqr<T>(a.x, a.y, b.x, b.y, c.x, c.y) * L), whole(near(sq(s) * L)))); } break;
    case 2: { V p; T den = (T)((b.x - a.x)*(d.y - c.y) - (b.y - a.y)*(d.x - c.x)); bool h = LineLineIntersect<T>(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, p); e("Lines", q, A(h, h ? A(whole(p.x * den), whole(p.y * den)) : A())); } break;
    case 3: case 4: { V p; T den = (T)((b.x - a.x)*(d.y - c.y) - (b.y - a.y)*(d.x - c.x)); bool h = LineSegmentLineSegmentIntersect<T>(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y, p);
      e("Segs", q, A(h, h ? A(whole(p.x * den), whole(p.y * den)) : A(), LineSegmentLineSegmentCollide<T>(a.x, a.y, b.x, b.y, c.x, c.y, d.x, d.y))); } break;
    case 5: if(G->chance(50)) { if(c.y == d.y) break; d.x = c.x; e("SegMeets", A(jp(a), jp(b), jp(c), jp(d)), A(LineSegmentLineVertCollide<T>(a.x, a.y, b.x, b.y, c.x, c.y, d.y))); }
      else { if(c.x == d.x) break; d.y = c.y; e("SegMeets", A(jp(a), jp(b), jp(c), jp(d)), A(LineSegmentLineHorzCollide<T>(a.x, a.y, b.x, b.y, c.x, d.x, c.y))); } break;
    case 6: { int s = G->range(-3, 3); Line<T> n(v(a), v(b)); if(G->chance(30)) n = Line<T>((T)a.x, (T)a.y, (T)b.x, (T)b.y); if(G->chance(30)) { Line<float> f(v(a).x, v(a).y, v(b).x, v(b).y); Line<T> z(f); n = z; } if(G->chance(20)) { LineN<int, 2> f(a.x, a.y, b.x, b.y); n = f; } V p = n.ParametricPoint((T)s); T len = n.Length(); e("LineAt", A(jp(a), jp(b), s), A(A(whole(p.x), whole(p.y)), whole(len * len))); } break;
    }
  }
  void ellipses() {
    static const int AX[] = { 1, 2, 4, 8 }; P a = pt(), b = pt(); int X = AX[G->below(4)], Y = AX[G->below(4)]; Ellipse<T> o(v(a), (T)X, (T)Y); if(G->chance(30)) o = Ellipse<T>(v(a), V((T)X, (T)Y)); if(G->chance(30)) o = Ellipse<T>((T)a.x, (T)a.y, (T)X, (T)Y);
    if(G->chance(50)) e("Ellipse", A(jp(a), A(X, Y), jp(b)), A(G->chance(50) ? o.ContainsPoint((T)b.x, (T)b.y) : EllipseContainsPoint<T>(a.x, a.y, X, Y, b.x, b.y)));
    else { int w = 2 * G->range(1, 5), h = 2 * G->range(1, 5); R q((T)b.x, (T)b.y, (T)(b.x + w), (T)(b.y + h)); e("EllipseRect", A(jp(a), A(X, Y), jr(q)), A(G->chance(50) ? o.RectCollide(q) : o.RectCollide(q.left, q.top, q.right, q.bottom))); }
  }
  void sectors() {
    P c = pt(), u = pt(P{ 0, 0 }), w = pt(P{ 0, 0 }), p = pt(), q = pt(p); int in = G->below(4), out = in + G->range(1, 6); double from = atan2((double)u.y, (double)u.x), to = atan2((double)w.y, (double)w.x), range = to - from;
    if((long)u.x * w.y == (long)u.y * w.x && (long)u.x * w.x + (long)u.y * w.y > 0) range = 6.283185307179587; else if(range < 0) range += 6.283185307179587;
    if(G->chance(30)) from += 6.283185307179587 * G->range(-2, 2);
    CircleSector<T> s((T)c.x, (T)c.y, (T)in, (T)out, (T)from, (T)range); if(G->chance(30)) s = CircleSector<T>(v(c), (T)in, (T)out, (T)from, (T)range);
    J dir = A(jp(u), jp(w));
    switch(G->below(4)) {
    case 0: case 1: e("Sector", A(jp(c), A(in, out), dir, jp(p)), A(G->chance(50) ? s.ContainsPoint((T)p.x, (T)p.y) : CircleSectorContainsPoint<T>((T)c.x, (T)c.y, (T)in, (T)out, s.min, (T)range, (T)p.x, (T)p.y))); break;
    case 2: if constexpr(std::is_same_v<T, double>) { V z[2] = { v(p), v(q) }; e("SectorLine", A(jp(c), A(in, out), dir, jp(p), jp(q)), A(G->chance(70) ? s.IntersectLine((T)p.x, (T)p.y, (T)q.x, (T)q.y) : s.IntersectPolygon(z, 2))); } break;
    case 3: if constexpr(std::is_same_v<T, double>) { int Q = G->range(1, 4); e("SectorCircle", A(jp(c), A(in, out), dir, jp(p), Q), A(s.CircleCollide((T)p.x, (T)p.y, (T)Q))); } break;
    }
  }
  R any() { P a = pt(); if(G->chance(15)) { P b = pt(); return R((T)a.x, (T)a.y, (T)b.x, (T)b.y); } int w = G->range(1, M), h = G->range(1, M);
    if(G->chance(30)) return R(v(a), V((T)w, (T)h)); if(G->chance(30)) return R((T)a.x, (T)a.y, V((T)w, (T)h)); if(G->chance(20)) { T k[4] = { (T)a.x, (T)a.y, (T)(a.x + w), (T)(a.y + h) }; return R(k); } if(G->chance(20)) { Rect<int> k(a.x, a.y, a.x + w, a.y + h); return R(k); }
    return R((T)a.x, (T)a.y, (T)(a.x + w), (T)(a.y + h)); }
  bool big(const R& x) { for(T k : x.ltrb) if(!(std::fabs((double)k) < 60)) return true; return false; }
  void set(int i) { R x = any(); r[i] = x; e("RSet", A(i + 1, jr(x)), A()); }
  void rects() {
    int i = G->below(3), j = G->below(3), k = G->below(3); P p = pt(), q = pt(p);
    switch(G->below(19)) {
    case 0: set(i); break;
    case 1: { int n = G->below(3); if(n == 0) r[i] = r[j]; else if(n == 1) { R t(r[j]); r[i] = t; } else { Rect<double> t(r[j]); r[i] = t; } e("RCopy", A(i + 1, j + 1), A()); } break;
    case 2: e("RHas", A(i + 1, jp(p)), A(r[i].ContainsPoint((T)p.x, (T)p.y))); break;
    case 3: e("RHasR", A(i + 1, j + 1), A(G->chance(50) ? r[i].ContainsRect(r[j]) : r[i].ContainsRect(r[j].left, r[j].top, r[j].right, r[j].bottom))); break;
    case 4: e("RMeet", A(i + 1, j + 1), A(G->chance(50) ? r[i].RectCollide(r[j]) : r[i].RectCollide(r[j].left, r[j].top, r[j].right, r[j].bottom))); break;
    case 5: case 6: if(!(r[i].left < r[i].right && r[i].top < r[i].bottom)) break; { int Q = G->range(1, 9); Circle<T> c(v(p), (T)Q); bool h = G->chance(30) ? r[i].CircleCollide(c) : G->chance(30) ? r[i].CircleCollide(v(p), (T)Q) : G->chance(50) ? c.RectCollide(r[i].left, r[i].top, r[i].right, r[i].bottom) : r[i].CircleCollide((T)p.x, (T)p.y, (T)Q); e("RCircle", A(i + 1, jp(p), Q), A(h)); } break;
    case 7: case 8: case 9: if(!(r[i].left < r[i].right && r[i].top < r[i].bottom)) break; if(G->chance(25)) { q.x = p.x; if(q.y == p.y) break; } else if(G->chance(25)) { q.y = p.y; if(q.x == p.x) break; } { bool h = G->chance(30) ? r[i].LineCollide(v(p), v(q)) : G->chance(50) ? r[i].LineCollide(Line<T>(v(p), v(q))) : r[i].LineCollide((T)p.x, (T)p.y, (T)q.x, (T)q.y); e("RLine", A(i + 1, jp(p), jp(q)), A(h)); } break;
    case 10: { bool was = r[j].IsCanonical(); r[i] = r[j].Canonical(); e("RCanon", A(i + 1, j + 1), A(was)); } break;
    case 11: r[i] = r[j].Union(r[k]); e("RUnion", A(i + 1, j + 1, k + 1), A()); break;
    case 12: r[i] = r[j].Intersection(r[k]); e("RCommon", A(i + 1, j + 1, k + 1), A()); break;
    case 13: if(G->chance(50) || !r[j].IsCanonical()) { if(!r[j].IsCanonical()) break; r[i] = r[j].ExpandTo(v(p)); } else { R t = r[j]; RectExpandTo(t, v(p)); r[i] = t; } e("RExpand", A(i + 1, j + 1, jp(p)), A()); break;
    case 14: { int n = G->range(-3, 5); r[i] = r[j].Inflate((T)n); e("RGrow", A(i + 1, j + 1, n), A()); } break;
    case 15: { int o = G->below(3), f = G->below(3); static const char* OP[] = { "+", "-", "*" }; R x = r[k]; if(f == 1) x = R((T)p.x, (T)p.y, (T)p.x, (T)p.y); if(f == 2) x = R((T)p.x, (T)p.x, (T)p.x, (T)p.x); R t = r[j]; V w = v(p); T s = (T)p.x; bool in = G->chance(50);
      if(f == 0) { R y = r[k]; if(in) { if(o == 0) t += y; else if(o == 1) t -= y; else t *= y; } else t = o == 0 ? r[j] + y : o == 1 ? r[j] - y : r[j] * y; }
      else if(f == 1) { if(in) { if(o == 0) t += w; else if(o == 1) t -= w; else t *= w; } else t = o == 0 ? r[j] + w : o == 1 ? r[j] - w : r[j] * w; }
      else { if(in) { if(o == 0) t += s; else if(o == 1) t -= s; else t *= s; } else t = o == 0 ? r[j] + s : o == 1 ? r[j] - s : r[j] * s; }
      r[i] = t; e("RZip", A(i + 1, OP[o], j + 1, jr(x)), A()); } break;
    case 16: if(G->chance(50)) { r[i] = -r[j]; e("RNeg", A(i + 1, j + 1), A()); } else { r[i] = r[j].Abs(); e("RAbs", A(i + 1, j + 1), A()); } break;
    case 17: { V c = r[i].Center(), d = r[i].Dim(); T rad = 0; Circle<T> b = r[i].BoundingCircle(); rad = b.r * 2; bool same = std::fabs((double)(b.x - c.x)) < 1e-3 && std::fabs((double)(b.y - c.y)) < 1e-3; e("RInfo", A(i + 1), A(A(whole(r[i].Area()), whole(c.x * 2), whole(c.y * 2), whole(d.x), whole(d.y), same ? whole(rad * rad) : J(-1)))); } break;
    case 18: e("RCmp", A(i + 1, j + 1), A(A(r[i] == r[j], r[i] != r[j], r[i] < r[j], r[i] > r[j], r[i] >= r[j], r[i] <= r[j]))); break;
    }
    for(int n = 0; n < 3; ++n) if(big(r[n])) set(n);
  }
  void polygons() {
    bool cv = G->chance(50); std::vector<P> w; if(cv) w = convex(); else for(int n = G->range(3, 7); n > 0; --n) w.push_back(pt());
    std::vector<V> u; JA x; for(P p : w) { u.push_back(v(p)); x.push_back(jp(p)); }
    Polygon<T> g(u.data(), u.size()); if(G->chance(30)) { Polygon<T> h; h.SetVertices(u.data(), (uint16_t)u.size()); g = h; } if(G->chance(30)) { Polygon<T> h(g); g = std::move(h); }
    P p = G->chance(15) ? w[G->below((int)w.size())] : pt(); bool ob = G->chance(50);
    switch(G->below(4)) {
    case 0: e("PHas", A(arr(x), jp(p)), A(ob ? g.ContainsPoint(v(p)) : PolygonContainsPoint<T>(v(p), u.data(), u.size()))); break;
    case 1: e("PConvex", A(arr(x)), A(ob ? g.IsConvex() : PolygonIsConvex<T>(u.data(), u.size()))); break;
    case 2: if(cv) e("PConvexHas", A(arr(x), jp(p)), A(ob ? g.ConvexContainsPoint(v(p)) : ConvexPolygonContainsPoint<T>(v(p), u.data(), u.size()))); break;
    case 3: { T area = ob ? g.Area() : PolygonArea<T>(u.data(), u.size()); V c = area == 0 ? V((T)0, (T)0) : ob ? g.Centroid() : PolygonCentroid<T>(u.data(), u.size()); e("PArea", A(arr(x)), A(whole(area * 2), A(whole(c.x * area * 6), whole(c.y * area * 6)), jr(g.AABB()))); } break;
    }
    if(G->chance(20)) { Triangle<T> t; for(int i = 0; i < 3; ++i) t.v[i] = v(w[i]); e("Triangle", A(jp(w[0]), jp(w[1]), jp(w[2])), A(whole(t.Area() * 2))); }
  }
  void go() {
    M = G->chance(30) ? 3 : 6; for(R& x : r) x = R(0, 0, 1, 1); beginRun("{\"init\":" + st().s + "}");
    for(int i = 0; i < 3; ++i) set(i);
    for(int n = G->range(20, 50); n > 0; --n) switch(G->below(10)) {
      case 9: sectors(); break;
      case 0: switch(G->below(3)) { case 0: balls<2>(); break; case 1: balls<3>(); break; case 2: balls<5>(); break; } break;
      case 1: circles(); break; case 2: lineCircle(); break; case 3: case 4: lines(); break; case 5: ellipses(); break; case 6: case 7: rects(); break; case 8: polygons(); break;
    }
    endRun();
  }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); int pk = 0; if(!a.part.empty()) pk = atoi(a.part.c_str());
  Rng g(a.seed * 1013 + pk * 139 + 5); G = &g; long n = a.budget ? a.budget : 100;
  for(long r = 0; r < n; ++r) if(g.chance(50)) Run<float>().go(); else Run<double>().go();
  return finish();
}
