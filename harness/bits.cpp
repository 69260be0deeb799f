// Histories of DynArray<bool> (part "arr"), BitField (part "field") and BitStream (part "stream") (C10).
#include "vp.h"
#include <sstream>
#include "bss-util/DynArray.h"
#include "bss-util/BitField.h"
#include "bss-util/BitStream.h"
using namespace bss; using namespace vp;
#ifndef PART
#define PART 0
#endif

template<class C, class CT> struct ArrD {
  C* o[3];
  std::vector<int> view(int k, bool& ok) {
    C& c = *o[k]; const C& cc = c; std::vector<int> r; size_t n = c.Length();
    if(n > 100000) { ok = false; return r; }
    for(size_t i = 0; i < n; ++i) r.push_back(cc[(CT)i] ? 1 : 0);
    for(size_t i = 0; i < n; ++i) if((bool)c[(CT)i] != (r[i] == 1)) ok = false;
    size_t i = 0; for(auto p = c.begin(); p != c.end(); ++p, ++i) { if(i >= n || (bool)(*p) != (r[i] == 1)) { ok = false; break; } }
    if(i != n) ok = false;
    if(n) { auto p = c.end(); for(i = n; i > 0;) { --p; --i; if((bool)(*p) != (r[i] == 1)) { ok = false; break; } } }
    i = 0; for(auto p = cc.begin(); p != cc.end(); p++, ++i) { if(i >= n || (bool)(*p) != (r[i] == 1)) { ok = false; break; } }
    if(i != n) ok = false;
    i = 0; for(auto p = c.begin(); !(p == c.end()); ++i) { auto was = p++; if(i >= n || (bool)(*was) != (r[i] == 1) || was == p) { ok = false; break; } }
    if(i != n) ok = false;
    if(n) { auto p = c.end(); --p; for(i = n; i > 1; --i) { auto was = p--; if((bool)(*was) != (r[i - 1] == 1)) { ok = false; break; } } if((bool)(*p) != (r[0] == 1)) ok = false; }
    for(i = 0; i < n; ++i) { auto q = c[(CT)i]; bool v = r[i] == 1; if(!q == v || (q != v) || !(q == v) || (q && true) != v || (q && false) || !(q || true) || (q || false) != v || (q | (char)2) != (char)(2 | v) || (q & (char)3) != (char)v || (q ^ (char)3) != (char)(3 ^ v)) ok = false; }
    if(c.Empty() != (n == 0)) ok = false;
    if(n) { if((int)(bool)c.Front() != r[0] || (int)cc.Front() != r[0] || (int)(bool)c.Back() != r[n - 1] || (int)cc.Back() != r[n - 1]) ok = false; }
    if(n > (size_t)c.Capacity()) ok = false;
    return r;
  }
  J state() { bool ok = true; std::vector<J> x; for(int k = 0; k < 3; ++k) x.push_back(J(view(k, ok))); return raw("{\"x\":" + arr(x).s + ",\"ok\":" + (ok ? "true" : "false") + "}"); }
  void step(Rng& g, int maxlen) {
    int k = g.below(3), p = (k + 1 + g.below(2)) % 3; C& c = *o[k]; int n = (int)c.Length(), v = g.below(2);
    switch(g.below(24)) {
    case 0: case 1: case 2: case 3: if(n < maxlen) { size_t r = c.Add(v); ev("Add", A(k + 1, v), A((int)r), state()); } break;
    case 4: case 5: case 6: case 7: case 8: if(n < maxlen) { int i = g.chance(20) ? n : g.below(n + 1); c.Insert(v, (CT)i); ev("Insert", A(k + 1, v, i), A(), state()); } break;
    case 9: case 10: case 11: if(n) { int i = g.below(n); c.Remove((CT)i); ev("Remove", A(k + 1, i), A(), state()); } break;
    case 12: if(n) { c.RemoveLast(); ev("RemoveLast", A(k + 1), A(), state()); } break;
    case 13: if(n) { int i = g.below(n); c[(CT)i] = (bool)v; ev("Write", A(k + 1, i, v), A(), state()); } break;
    case 14: { int m = g.below(maxlen); c.SetLength((CT)m); ev("SetLength", A(k + 1, m), A(), state()); break; }
    case 15: { int m = g.below(maxlen + 8); c.SetCapacity((CT)m); ev("Reserve", A(k + 1, m), A((int)c.Capacity()), state()); break; }
    case 16: if(g.chance(20)) { c.Clear(); ev("Clear", A(k + 1), A(), state()); } break;
    case 17: if(g.chance(50)) { *o[k] = *o[p]; } else { delete o[k]; o[k] = new C(*o[p]); } ev("Copy", A(k + 1, p + 1), A(), state()); break;
    case 18: if(g.chance(50)) { *o[k] = std::move(*o[p]); } else { delete o[k]; o[k] = new C(std::move(*o[p])); } ev("Move", A(k + 1, p + 1), A(), state()); break;
    case 19: c.Flip(); ev("Flip", A(k + 1), A(), state()); break;
    case 20: if(n) { int i = g.below(n); c[(CT)i].flip(); ev("FlipBit", A(k + 1, i), A(), state()); } break;
    case 21: if(n < maxlen) { size_t r = c.AddConstruct(); ev("Add", A(k + 1, 0), A((int)r), state()); } break;
    case 22: if(g.chance(30)) { *o[k] = *o[k]; ev("Copy", A(k + 1, k + 1), A(), state()); } else if(g.chance(50)) { delete o[k]; o[k] = new C({ true, false, true, true, false, false, true, false, true, true }); ev("SetAll", A(k + 1, std::vector<int>{ 1, 0, 1, 1, 0, 0, 1, 0, 1, 1 }), A(), state()); }
            else { std::vector<int> r; for(int b = 0; b < (int)c.Capacity() / 8; ++b) r.push_back(c.GetRawByte((CT)b)); ev("RawBytes", A(k + 1), J(r), state()); } break;
    default: { int i = g.below(n + 1), m = g.below(n - i + 1); int r = (int)c.CountBits((CT)i, (CT)m); ev("CountBits", A(k + 1, i, m), A(r), state()); }
    }
  }
  void runs(Rng& g, const char* nm, long budget) {
    for(long r = 0; r < budget; ++r) {
      int ml = g.chance(50) ? 40 : g.chance(50) ? 20 : 75;
      for(auto& p : o) p = new C(g.chance(50) ? 0 : g.below(20));
      beginRun(std::string("{\"kind\":\"") + nm + "\"}");
      int steps = 30 + g.below(50);
      if(g.chance(60)) for(int k = 0; k < 3; ++k) { int n = g.below(ml); for(int i = 0; i < n; ++i) { int v = g.below(2); size_t rr = o[k]->Add(v); ev("Add", A(k + 1, v), A((int)rr), state()); } }
      for(int i = 0; i < steps; ++i) step(g, ml);
      for(auto& p : o) delete p;
      endRun();
    }
  }
};

template<class T> struct FieldD {
  static J pos(T v) { std::vector<int> r; for(unsigned i = 0; i < sizeof(T) * 8; ++i) if((v >> i) & 1) r.push_back(i); return J(r); }
  static T rnd(Rng& g) { T v = (T)g.next(); switch(g.below(6)) { case 0: return 0; case 1: return (T)~(T)0; case 2: return (T)1 << g.below(sizeof(T) * 8); case 3: return v & (T)g.next(); default: return v; } }
  void runs(Rng& g, const char* nm, long budget) {
    for(long r = 0; r < budget; ++r) {
      T init = rnd(g); BitField<T> f(init); beginRun(std::string("{\"kind\":\"") + nm + "\"}");
      auto st = [&]() { return pos(f.Get()); };
      ev("SetTo", A(pos(init)), A(), st());
      for(int i = 0; i < 40; ++i) {
        T v = rnd(g), m = rnd(g); int b = g.below(sizeof(T) * 8); T bit = (T)1 << b;
        const BitField<T>& cf = f;
        switch(g.below(14)) {
        case 0: f.Set(v); ev("SetTo", A(pos(v)), A(), st()); break;
        case 1: f = v; ev("SetTo", A(pos(v)), A(), st()); break;
        case 2: f.Set((T)(v & m), m); ev("SetMask", A(pos(v & m), pos(m)), A(), st()); break;
        case 3: f += m; ev("AddBits", A(pos(m)), A(), st()); break;
        case 4: f -= m; ev("DropBits", A(pos(m)), A(), st()); break;
        case 5: case 6: { bool x = g.below(2); f[bit] = x; ev("SetBit", A(b, x), A(), st()); break; }
        case 7: f[bit].flip(); ev("FlipPos", A(b), A(), st()); break;
        case 8: f(m) = v; ev("SetGroup", A(pos(v), pos(m)), A(), st()); break;
        case 9: f.GetGroup(m) = v; ev("SetGroup", A(pos(v), pos(m)), A(), st()); break;
        case 10: { bool q1 = cf[bit], q2 = (bool)f[bit], q3 = cf.Get(bit), q4 = !(f[bit] == false); ev("GetBit", A(b), A(q1 == q2 && q2 == q3 && q3 == q4 ? q1 : !((init, q1 && q2 && q3))), st()); break; }
        case 11: { BitField<T> o2(v); f[bit] = o2[bit]; ev("SetBit", A(b, (bool)((v >> b) & 1)), A(), st()); break; }
        case 12: { BitField<T> o2(v); f(m) = o2(m); ev("SetGroup", A(pos(v), pos(m)), A(), st()); break; }
        default: { T x1 = cf.GetGroup(m), x2 = (T)f.GetGroup(m), x3 = cf(m); bool z = !f(m); if(!(f(m) == x1) || f(m) != x1 || f(m) == (T)~x1 || (T)f.GetGroup(m) != x1) x1 = (T)~x1; ev("GetGroup", A(pos(m)), A(pos(x1 == x2 && x2 == x3 ? x1 : (T)~x1), z), st()); }
        }
      }
      endRun();
    }
  }
};

static J bitsOf(const uint8_t* d, int from, int to) { std::vector<int> r; for(int i = from; i < to; ++i) r.push_back((d[i / 8] >> (i % 8)) & 1); return J(r); }
static void streamRuns(Rng& g, long budget) {
  for(long r = 0; r < budget; ++r) {
    std::stringstream ss; BitStream<std::stringstream>* b = new BitStream<std::stringstream>(ss);
    auto st = [&]() { std::string s = ss.str(); return bitsOf((const uint8_t*)s.data(), 0, (int)s.size() * 8); };
    beginRun("{\"kind\":\"stream\"}");
    std::vector<int> widths; int n = 1 + g.below(12), total = 0;
    for(int i = 0; i < n; ++i) {
      uint64_t v = g.next(); int w;
      if(g.chance(60)) { w = 1 + g.below(g.chance(60) ? 9 : 64); uint8_t src[9]; memcpy(src, &v, 8); src[8] = 0xA5; b->Write(src, w); }
      else switch(g.below(5)) {
        case 0: { bool x = v & 1; v = x; w = 1; if(g.chance(50)) b->Write(x); else *b << x; break; }
        case 1: { uint8_t x = (uint8_t)v; w = 8; if(g.chance(50)) b->Write(x); else *b << x; break; }
        case 2: { uint16_t x = (uint16_t)v; w = 16; if(g.chance(50)) b->Write(x); else *b << x; break; }
        case 3: { uint32_t x = (uint32_t)v; w = 32; if(g.chance(50)) b->Write(x); else *b << x; break; }
        default: { w = 64; if(g.chance(50)) b->Write(v); else *b << v; }
        }
      widths.push_back(w); total += w; uint8_t raw8[8]; memcpy(raw8, &v, 8);
      ev("Write", A(bitsOf(raw8, 0, w)), A(), st());
      if(g.chance(12)) { b->Flush(); total = (total + 7) / 8 * 8; widths.clear(); ev("Flush", A(), A(), st()); }
      if(g.chance(12)) { auto* n2 = new BitStream<std::stringstream>(std::move(*b)); delete b; b = n2; ev("Handover", A(), A(), st()); }
      else if(g.chance(12)) { std::stringstream other; auto* n2 = new BitStream<std::stringstream>(other); if(g.chance(50)) { bool q = true; n2->Write(q); } *n2 = std::move(*b); delete b; b = n2; ev("Handover", A(), A(), st()); }
    }
    bool viaDtor = g.chance(60), viaBoth = g.chance(30);
    BitStream<std::stringstream>* rd = b;
    if(viaDtor) { if(viaBoth) b->Flush(); delete b; b = 0; rd = new BitStream<std::stringstream>(ss); } else b->Flush();
    ev("Flush", A(), A(), st());
    total = (total + 7) / 8 * 8; bool same = g.chance(60); int left = total; size_t idx = 0;
    while(left > 0) {
      int w = same && idx < widths.size() && widths[idx] <= left ? widths[idx++] : std::min(left, 1 + (int)g.below(g.chance(60) ? 9 : 64)); uint8_t pat = (uint8_t)g.next();
      uint8_t d[16]; memset(d, pat, sizeof d); int nb = (w + 7) / 8;
      if(w == 1 && g.chance(50)) { bool x; memset(&x, g.chance(50), 1); if(g.chance(50)) rd->Read(x); else *rd >> x; memset(d, pat, sizeof d); d[0] = 0; memcpy(d, &x, 1); }
      else if(w == 32 && g.chance(50)) { uint32_t x = (uint32_t)g.next(); *rd >> x; memcpy(d, &x, 4); }
      else rd->Read(d, w);
      bool clean = true; for(int i = nb; i < 16; ++i) if(d[i] != pat) clean = false;
      ev("Read", A(w), A(bitsOf(d, 0, w), bitsOf(d, w, nb * 8), clean), st()); left -= w;
      if(g.chance(8)) { auto* n2 = new BitStream<std::stringstream>(std::move(*rd)); delete rd; rd = n2; ev("Handover", A(), A(), st()); }
      else if(g.chance(8)) { std::stringstream other; auto* n2 = new BitStream<std::stringstream>(other); if(g.chance(50)) *n2 = std::move(*rd); else *n2 = *rd; delete rd; rd = n2; ev("Handover", A(), A(), st()); }
    }
    endRun();
    delete rd;
  }
}

int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 3);
  long b = a.budget ? a.budget : 20;
#if PART == 0
  ArrD<DynArray<bool, size_t>, size_t>().runs(g, "bool/size_t", b); ArrD<DynArray<bool, uint32_t>, uint32_t>().runs(g, "bool/u32", b); ArrD<DynArray<bool, uint8_t>, uint8_t>().runs(g, "bool/u8", b / 2);
#elif PART == 1
  FieldD<uint8_t>().runs(g, "u8", b); FieldD<uint16_t>().runs(g, "u16", b); FieldD<uint32_t>().runs(g, "u32", b); FieldD<uint64_t>().runs(g, "u64", b);
#else
  streamRuns(g, b);
#endif
  return finish();
}
