// Histories of Rational arithmetic, for spec/RatTrace.tla.
#include "vp.h"
#include <memory>
#include "bss-util/bss_util.h"
#include "bss-util/Rational.h"
using namespace vp; using namespace bss;
typedef __int128 I;
static I ab(I x) { return x < 0 ? -x : x; }
static I gcd(I a, I b) { a = ab(a); b = ab(b); while(b) { I t = a % b; a = b; b = t; } return a; }
static void ext(I a, I b, I& s, I& t) { I s0 = 1, s1 = 0, t0 = 0, t1 = 1; while(b) { I q = a / b, x = a - q * b; a = b; b = x; x = s0 - q * s1; s0 = s1; s1 = x; x = t0 - q * t1; t0 = t1; t1 = x; } if(a < 0) { s0 = -s0; t0 = -t0; } s = s0; t = t0; }
static J num(I v, bool big) { if(!big) return J((int)v); JA l; I x = ab(v); while(x) { l.push_back((int)(x & 32767)); x >>= 15; } return A(v < 0 ? -1 : 1, arr(l)); }
template<class T> struct Lim {};
template<class T> static J rj(const Rational<T>& r, bool big) { return A(num(r.N(), big), num(r.D(), big)); }
template<class T> static J wit(const Rational<T>& r, bool big) { if(!big) return A(); I s, t; ext(r.N(), r.D(), s, t); return A(num(s, true), num(t, true)); }

template<class T> static T pick(Rng& g, I lim) { // numbers sharing factors are the interesting ones
  static const int sm[] = { 1, 2, 3, 4, 6, 5, 8, 12, 30, 60, 7, 210, 9, 16 };
  I v; int k = g.below(5);
  if(k == 0) v = sm[g.below(14)]; else if(k == 1) v = (I)sm[g.below(14)] * sm[g.below(14)]; else if(k == 2) v = g.next() % (uint64_t)(lim < 50 ? lim : 50);
  else if(k == 3) { uint64_t m = lim > (I)4000000000000000000ll ? 4000000000000000000ull : (uint64_t)lim; v = g.next() % m; } else { int b = 0; I q = lim; while(q) { ++b; q >>= 1; } v = ((I)1 << g.below(b)) * sm[g.below(4)]; }
  v %= lim; if(g.chance(40)) v = -v; return (T)v;
}
template<class T> static void drive(Rng& g, const char* name, I range /*largest |cross product|*/, I lim, bool big, int steps) {
  T n = pick<T>(g, lim), d = pick<T>(g, lim); if(!d) d = 1;
  Rational<T> x(n, d);
  { I q = gcd(n, d); I a = n, b = d; if(!a) b = 1; else { a /= q; b /= q; if(b < 0) { a = -a; b = -b; } }
    beginRun("{\"type\":\"" + std::string(name) + "\",\"big\":" + (big ? "true" : "false") + ",\"init\":" + A(num(a, big), num(b, big)).s + "}"); }
  auto fit = [&](I v) { return ab(v) < range; };
  auto E = [&](const char* op, const J& a) { ev(op, a, wit(x, big), rj(x, big)); };
  ev("set", A(num(n, big), num(d, big)), wit(x, big), rj(x, big));
  for(int s = 0; s < steps; ++s) {
    int k = g.below(100); T i = pick<T>(g, lim); I xn = x.N(), xd = x.D();
    if(k < 38) { // rational operand, compound or binary form
      T a = pick<T>(g, lim), b = pick<T>(g, lim); if(!b) b = 1; Rational<T> y(a, b); I yn = y.N(), yd = y.D(); bool self = g.chance(4); if(self) { y = x; yn = xn; yd = xd; }
      if(!fit(xn * yd) || !fit(yn * xd) || !fit(xd * yd) || !fit(xn * yn) || !fit(ab(xn * yd) + ab(yn * xd))) continue;
      int o = g.below(4); if(o == 3 && !yn) continue; bool bin = g.chance(50); const char* on[] = { "+", "-", "*", "/" };
      if(o == 0) { if(bin) x = x + y; else if(self) x += x; else x += y; } else if(o == 1) { if(bin) x = x - y; else if(self) x -= x; else x -= y; } else if(o == 2) { if(bin) x = x * y; else if(self) x *= x; else x *= y; } else { if(bin) x = x / y; else if(self) x /= x; else x /= y; }
      E(on[o], A("rat", A(num(yn, big), num(yd, big))));
    } else if(k < 58) {
      if(!fit(xn * i) || !fit(xd * i) || !fit(ab(xn) + ab(xd * i))) continue;
      int o = g.below(4); if(o == 3 && !i) continue; bool bin = g.chance(50), left = bin && (o == 0 || o == 2) && g.chance(50); const char* on[] = { "+", "-", "*", "/" };
      if(o == 0) { if(left) x = i + x; else if(bin) x = x + i; else x += i; } else if(o == 1) { if(bin) x = x - i; else x -= i; } else if(o == 2) { if(left) x = i * x; else if(bin) x = x * i; else x *= i; } else { if(bin) x = x / i; else x /= i; }
      E(on[o], A("int", num(i, big)));
    } else if(k < 64) {
      if(!fit(xn * i) || !fit(xd * i) || !fit(ab(xn) + ab(xd * i))) continue;
      if(g.chance(50) && xn) { x = i / x; E("rev/", A("int", num(i, big))); } else { x = i - x; E("rev-", A("int", num(i, big))); }
    } else if(k < 68) { if(!fit(ab(xn) + xd)) continue; if(g.chance(50)) { ++x; E("++", A()); } else { --x; E("--", A()); } }
    else if(k < 74) { T a = pick<T>(g, lim), b = pick<T>(g, lim); if(!b) b = 1; if(g.chance(30)) { x = Rational<T>(a, b); } else x.SetFraction(a, b); E("set", A(num(a, big), num(b, big))); }
    else if(k < 76) { x = i; E("set", A(num(i, big), num(1, big))); }
    else if(!big && k < 92) {
      int o = g.below(6); const char* on[] = { "<", ">", "<=", ">=", "==", "!=" };
      if(g.chance(50)) { T a = pick<T>(g, lim), b = pick<T>(g, lim); if(!b) b = 1; Rational<T> y(a, b); if(g.chance(25)) y = x; else if(g.chance(25) && xn + 1 < lim) y = Rational<T>((T)(xn + 1), (T)xd); I yn = y.N(), yd = y.D();
        if(!fit(xn * yd) || !fit(yn * xd)) continue;
        bool r = o == 0 ? x < y : o == 1 ? x > y : o == 2 ? x <= y : o == 3 ? x >= y : o == 4 ? x == y : x != y; ev(on[o], A("rat", A(num(yn, big), num(yd, big))), A(r), rj(x, big)); }
      else { if(g.chance(50)) i = (T)(xn / xd + g.range(-1, 1)); if(!fit(i * xd)) continue; bool left = g.chance(40);
        bool r = left ? (o == 0 ? i < x : o == 1 ? i > x : o == 2 ? i <= x : o == 3 ? i >= x : o == 4 ? i == x : i != x) : (o == 0 ? x < i : o == 1 ? x > i : o == 2 ? x <= i : o == 3 ? x >= i : o == 4 ? x == i : x != i);
        if(left) ev("rcmp", A("int", num(i, big), on[o]), A(r), rj(x, big)); else ev(on[o], A("int", num(i, big)), A(r), rj(x, big)); }
    } else if(!big) {
      if(k < 95) { Rational<T> y = x.Abs(); ev("Abs", A(), A(rj(y, big)), rj(x, big)); } else if(k < 98) ev("Trunc", A(), A((int)x.Truncate()), rj(x, big)); else ev("Not", A(), A(!x), rj(x, big));
    }
  }
  endRun();
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 25); int n = (int)a.budget;
  for(int it = 0; it < n; ++it) {
    int st = g.range(10, 50);
    drive<int>(g, "int", 1 << 20, 1000, false, st); drive<int>(g, "intw", 1 << 30, 30000, false, st); drive<short>(g, "short", 32000, 150, false, st); drive<long long>(g, "llsmall", 1 << 30, 30000, false, st);
    drive<long>(g, "long", (I)1 << 61, (I)1 << 30, true, st); drive<long long>(g, "ll", (I)1 << 62, (I)1 << 40, true, st); drive<int>(g, "intbig", (I)1 << 30, (I)1 << 30, true, st);
  }
  return finish();
}
