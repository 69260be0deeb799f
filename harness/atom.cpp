// Histories of the atomic primitives, for spec/AtomTrace.tla.
#include "vp.h"
#include <thread>
#include <utility>
#include "bss-util/bss_util.h"
#include "bss-util/lockless.h"
using namespace vp;
using namespace bss;
typedef unsigned __int128 U128;
template<class T> J by(const T& v) { JA r; unsigned char b[sizeof(T)]; memcpy(b, (const void*)&v, sizeof(T)); for(unsigned char c : b) r.push_back((int)c); return arr(r); }
template<class T> T val(Rng& g) { // boundary-biased
  T v; unsigned char b[sizeof(T)]; int k = g.below(7);
  for(size_t i = 0; i < sizeof(T); ++i) b[i] = k == 0 ? 0 : k == 1 ? 255 : k == 2 ? (i == 0) : k == 3 ? (i + 1 == sizeof(T) ? 128 : 0) : k == 4 ? (i + 1 == sizeof(T) ? 127 : 255) : k == 5 ? (i < sizeof(T) / 2 ? 255 : 0) : (unsigned char)g.below(256);
  memcpy((void*)&v, b, sizeof(T)); return v;
}
template<class T> struct alignas(64) Mem { T w[3]; };
template<class T> J st(Mem<T>& m) { return A(by(m.w[0]), by(m.w[1]), by(m.w[2])); }
template<class T> void start(Mem<T>& m, Rng& g, const char* t) { for(auto& x : m.w) x = val<T>(g); beginRun("{\"type\":\"" + std::string(t) + "\",\"mem\":" + st(m).s + "}"); }
template<class T> bool eq(const T& a, const T& b) { return !memcmp((const void*)&a, (const void*)&b, sizeof(T)); }
template<class T> __attribute__((noinline)) void cas(Mem<T>& m, Rng& g) {
  int i = g.below(3); T nv = val<T>(g), ov = g.chance(55) ? m.w[i] : val<T>(g); Mem<T> keep = m;
  if(g.chance(15)) { ov = m.w[i]; unsigned char* q = (unsigned char*)&ov; q[g.below(sizeof(T))] ^= 1 << g.below(8); } // differs in one bit
  if(g.chance(50)) { bool ok = asmcas<T>(&m.w[i], nv, ov) != 0; ev("Cas", A(i + 1, by(nv), by(ov)), A(ok), st(m)); }
  else {
    T rv[3]; for(auto& x : rv) x = val<T>(g); T r0 = rv[0], r2 = rv[2]; bool ok;
    if(g.chance(50)) ok = asmcasr<T>(&m.w[i], nv, ov, rv[1]);
    else { rv[1] = ov; ok = asmcasr<T>(&m.w[i], nv, rv[1], rv[1]); } // result variable is also the expected value, as the containers use it
    bool nb = eq(rv[0], r0) && eq(rv[2], r2);
    ev("CasR", A(i + 1, by(nv), by(ov)), A(ok, nb ? by(rv[1]) : A("neighbour of the result overwritten")), st(m));
  }
}
template<class T> void arith(Rng& g, const char* name, int steps) {
  Mem<T> m; start(m, g, name);
  for(int s = 0; s < steps; ++s) {
    int i = g.below(3), k = g.below(4); T v = val<T>(g);
    if(k == 0) { T r = atomic_xadd<T>(&m.w[i], v); ev("XAdd", A(i + 1, by(v)), A(by(r)), st(m)); }
    else if(k == 1) { T r = atomic_xchg<T>(&m.w[i], v); ev("XChg", A(i + 1, by(v)), A(by(r)), st(m)); }
    else if(k == 2 && g.chance(20)) { T r = atomic_xadd<T>(&m.w[i]); ev("XAdd", A(i + 1, by(T(1))), A(by(r)), st(m)); }
    else cas(m, g);
  }
  endRun();
}
template<class T> void wide(Rng& g, const char* name, int steps) { Mem<T> m; start(m, g, name); for(int s = 0; s < steps; ++s) cas(m, g); endRun(); }
template<class T, int B> __attribute__((noinline)) void bitC(Mem<T>& m, int i, bool set) { // immediate operand when optimised
  bool r = set ? asmbts<T>(&m.w[i], (T)B) : asmbtr<T>(&m.w[i], (T)B);
  ev(set ? "Bts" : "Btr", A(i + 1, B), A(r), st(m));
}
template<class T, int... Bs> void bitsC(Rng& g, std::integer_sequence<int, Bs...>) {
  Mem<T> m; start(m, g, "bitc");
  (bitC<T, Bs>(m, g.below(3), g.chance(50)), ...); (bitC<T, Bs>(m, g.below(3), g.chance(50)), ...);
  endRun();
}
template<class T> void bitsV(Rng& g, const char* name, int steps) {
  Mem<T> m; start(m, g, name);
  for(int s = 0; s < steps; ++s) { int i = g.below(3); volatile int vb = g.below(sizeof(T) * 8); int b = vb; bool set = g.chance(50); bool r = set ? asmbts<T>(&m.w[i], (T)b) : asmbtr<T>(&m.w[i], (T)b); ev(set ? "Bts" : "Btr", A(i + 1, b), A(r), st(m)); }
  endRun();
}
template<class F> void par(int n, F f) { std::vector<std::thread> t; std::atomic<int> go(0); for(int k = 0; k < n; ++k) t.emplace_back([&, k]() { ++go; while(go.load() < n); f(k); }); for(auto& x : t) x.join(); }
template<class T> void stressAdd(Rng& g, int N) { // N threads, enough operations to overlap; results must be distinct (mod 2^width counted exactly for wide types)
  Mem<T> m; start(m, g, "stress"); alignas(64) static volatile T x; x = 0; const int K = 20000; std::vector<std::vector<T>> got(N);
  par(N, [&](int k) { got[k].reserve(K); for(int i = 0; i < K; ++i) got[k].push_back(atomic_xadd<T>(&x, (T)1)); });
  std::set<T> s; for(auto& v : got) s.insert(v.begin(), v.end());
  long fin = sizeof(T) >= 4 ? (long)x : ((T)(N * K) == x ? N * K : -1), dis = sizeof(T) >= 4 ? (long)s.size() : N * K;
  ev("Stress", A(N * K), A(fin, dis), st(m));
  x = 0; // the same through a compare-exchange loop
  par(N, [&](int k) { for(int i = 0; i < K / 8; ++i) { T o = x; while(!asmcasr<T>(&x, (T)(o + 1), o, o)); } });
  ev("Stress", A(N * (K / 8)), A(sizeof(T) >= 4 ? (long)x : ((T)(N * (K / 8)) == x ? N * (K / 8) : -1), N * (K / 8)), st(m));
  x = 0;
  par(N, [&](int k) { for(int i = 0; i < K / 8; ++i) { T o; do o = x; while(!asmcas<T>(&x, (T)(o + 1), o)); } });
  ev("Stress", A(N * (K / 8)), A(sizeof(T) >= 4 ? (long)x : ((T)(N * (K / 8)) == x ? N * (K / 8) : -1), N * (K / 8)), st(m));
  // exchange: each value handed over exactly once
  x = 0; std::vector<std::vector<T>> out(N); const int KX = sizeof(T) >= 4 ? 20000 : sizeof(T) == 2 ? 60000 / N : 250 / N;
  par(N, [&](int k) { for(int i = 0; i < KX; ++i) out[k].push_back(atomic_xchg<T>(&x, (T)(1 + k * KX + i))); });
  std::set<T> z; long tot = 0; for(auto& v : out) { tot += v.size(); z.insert(v.begin(), v.end()); } { T xv = x; z.insert(xv); } z.erase(0);
  ev("Stress", A(N * KX), A(tot, (long)z.size()), st(m));
  endRun();
}
template<class T> void stressBit(Rng& g, int N) { // a bit as a lock around a plain counter; every set and reset must be atomic
  Mem<T> m; start(m, g, "stressbit"); static struct { alignas(64) T w; } L; L.w = 0; alignas(64) static volatile long c; c = 0; const int K = 4000; const T B = sizeof(T) * 8 - 1;
  // distinct neighbouring bits toggled by distinct threads: a non-atomic update loses one
  std::vector<long> bad(N, 0);
  par(N, [&](int k) { for(int i = 0; i < K; ++i) { if(asmbts<T>(&L.w, (T)(k + 1))) ++bad[k]; if(!asmbtr<T>(&L.w, (T)(k + 1))) ++bad[k]; } });
  long b = 0; for(long x : bad) b += x;
  ev("Stress", A(N * K), A(N * K - (int)b - (L.w != 0), N * K), st(m));
  par(2, [&](int) { for(int i = 0; i < K; ++i) { while(asmbts<T>(&L.w, B)); c = c + 1; asmbtr<T>(&L.w, B); } });
  ev("Stress", A(2 * K), A((int)c, 2 * K), st(m));
  endRun();
}
void stressWide(Rng& g, int N) { // 16 byte compare-exchange: both halves always change together
  typedef bss_PTag<void> P; Mem<P> m; start(m, g, "stresswide"); alignas(64) static volatile P x; x.p = 0; x.tag = 0; const int K = 3000; std::vector<long> bad(N, 0);
  par(N, [&](int k) { for(int i = 0; i < K; ++i) { P o = { 0, 0 }; asmcasr<P>(&x, o, o, o); for(;;) { if((size_t)o.p != o.tag * 3) ++bad[k]; P n = { (void*)((o.tag + 1) * 3), o.tag + 1 }; if(asmcasr<P>(&x, n, o, o)) break; } } });
  long b = 0; for(long v : bad) b += v; ev("Stress", A(N * K), A((long)x.tag, (size_t)x.p == x.tag * 3 ? N * K - (int)b : -1), st(m));
  endRun();
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 24); int n = (int)a.budget;
  for(int it = 0; it < n; ++it) {
    int s = g.range(20, 60);
    arith<uint8_t>(g, "u8", s); arith<int8_t>(g, "i8", s); arith<uint16_t>(g, "u16", s); arith<int16_t>(g, "i16", s); arith<uint32_t>(g, "u32", s); arith<int32_t>(g, "i32", s); arith<uint64_t>(g, "u64", s); arith<int64_t>(g, "i64", s); arith<size_t>(g, "sz", s);
    wide<void*>(g, "ptr", s); wide<bss_PTag<void>>(g, "ptag", s); wide<float>(g, "f32", s); wide<double>(g, "f64", s);
    bitsV<uint32_t>(g, "b32", s); bitsV<uint64_t>(g, "b64", s); bitsV<int32_t>(g, "bi32", s); bitsV<int64_t>(g, "bi64", s);
    if(it < 6) { bitsC<uint32_t>(g, std::make_integer_sequence<int, 32>()); bitsC<uint64_t>(g, std::make_integer_sequence<int, 64>()); bitsC<int32_t>(g, std::make_integer_sequence<int, 32>()); bitsC<int64_t>(g, std::make_integer_sequence<int, 64>()); }
  }
  int rounds = a.part.substr(0, 2) == "0/" ? (a.tier ? 12 : 3) : 0;
  for(int r = 0; r < rounds; ++r) { arm(); stressAdd<uint8_t>(g, 4); stressAdd<uint16_t>(g, 4); stressAdd<uint32_t>(g, 4); stressAdd<uint64_t>(g, 4); stressAdd<int>(g, 2); stressBit<uint32_t>(g, 4); stressBit<uint64_t>(g, 4); stressWide(g, 4); }
  return finish();
}
