// Memory and function streams used through std::streambuf, for spec/BufTrace.tla.
#include "vp.h"
#include <memory>
#include <sstream>
#include "bss-util/bss_util.h"
#include "bss-util/stream.h"
using namespace vp;
using namespace bss;
typedef std::string S;
static J codes(const S& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
static Rng* G;
static char byte() { return G->chance(25) ? (char)255 : G->chance(30) ? (char)G->range(128, 255) : (char)G->range(0, 4); }
static S bytes(int n) { S s; for(int i = 0; i < n; ++i) s += byte(); return s; }
struct Fun : StreamBufFunction { // adds 7 to every byte
  Fun(std::istream& i, size_t n) : StreamBufFunction(i, n) {}
  Fun(std::ostream& o, size_t n) : StreamBufFunction(o, n) {}
  Fun(Fun&&) = default;
  void drain() { size_t n = pptr() - pbase(); for(size_t i = 0; i < n; ++i) _ibuf[i] = (char)(pbase()[i] + 7); _out->write(_ibuf.get(), n); setp(_obuf.get(), _obuf.get() + _sz); }
  void _onwrite() override { drain(); }
  void _onread() override { _in->read(_ibuf.get(), _sz); size_t n = _in->gcount(); for(size_t i = 0; i < n; ++i) _obuf[i] = (char)(_ibuf[i] + 7); setg(_obuf.get(), _obuf.get(), _obuf.get() + n); }
  int sync() override { if(pptr() != pbase()) drain(); return StreamBufFunction::sync(); }
};
static void op(std::streambuf& b, const char* kind, const std::function<J()>& state, int size, const S& text, bool rd, bool wr) {
  bool mem = kind[0] != 'f';
  for(;;) switch(G->below(12)) {
    case 0: if(rd) { int r = b.sgetc(); ev("Getc", A(), A(r), state()); return; } break;
    case 1: if(rd) { int r = b.sbumpc(); ev("Bump", A(), A(r), state()); return; } break;
    case 2: if(rd) { int r = b.snextc(); ev("Next", A(), A(r), state()); return; } break;
    case 3: if(rd) { int n = G->chance(15) ? size + G->below(5) : G->below(7); std::vector<char> v(n + 1); auto r = b.sgetn(v.data(), n); S s(v.data(), r < 0 || r > n ? 0 : (size_t)r); ev("Getn", A(n), A(r < 0 || r > n ? J(-7) : codes(s)), state()); return; } break;
    case 4: if(rd) { int r = b.sungetc(); ev("Unget", A(), A(r), state()); return; } break;
    case 5: if(rd && mem) { char c = byte(); if(!text.empty() && G->chance(75)) c = text[G->below(text.size())];
        int r = b.sputbackc(c); ev("Putback", A((int)(unsigned char)c), A(r), state()); return; } break;
    case 6: if(rd && mem) { int w = G->below(3), o = w == 0 ? G->range(-2, size + 2) : w == 1 ? G->range(-6, 6) : G->range(-size - 2, 2); if(G->chance(5)) o += G->chance(50) ? 1000000 : -1000000;
        long r = (long)std::streamoff(b.pubseekoff(o, w == 0 ? std::ios_base::beg : w == 1 ? std::ios_base::cur : std::ios_base::end, std::ios_base::in));
        ev("SeekOff", A(o, w == 0 ? "beg" : w == 1 ? "cur" : "end"), A(r), state()); return; } break;
    case 7: if(rd && mem) { int p = G->range(-1, size + 2); long r = (long)std::streamoff(b.pubseekpos(p, std::ios_base::in)); ev("SeekPos", A(p), A(r), state()); return; } break;
    case 8: if(rd) { long r = b.in_avail(); ev("Avail", A(), A(r), state()); return; } break;
    case 9: case 10: if(wr) {
        if(G->chance(50)) { char c = byte(); int r = b.sputc(c); ev("Put", A(codes(S(1, c))), A(r == (int)(unsigned char)c ? 1 : -r - 100), state()); }
        else { S s = bytes(G->chance(15) ? G->below(40) : G->below(8)); long r = b.sputn(s.data(), s.size()); ev("Put", A(codes(s)), A(r), state()); }
        return; } break;
    case 11: if(kind[1] == 'o' && kind[0] == 'f') { int r = b.pubsync(); ev("Flush", A(), A(r), state()); return; } break;
  }
}
static S cfg(const char* kind, int unit, int base, const S& init) { return S("{\"kind\":\"") + kind + "\",\"unit\":" + std::to_string(unit) + ",\"base\":" + std::to_string(base) + ",\"init\":" + codes(init).s + "}"; }
template<class T> void ro() {
  int n = G->below(7); S s = bytes(n * sizeof(T)); std::unique_ptr<T[]> m(new T[n]); memcpy((void*)m.get(), s.data(), s.size());
  beginRun(cfg("ro", sizeof(T), 0, s));
  auto st = [&]() { return codes(S((const char*)m.get(), n * sizeof(T))); };
  std::unique_ptr<StreamBufArray<T>> b(new StreamBufArray<T>(m.get(), n));
  for(int k = G->range(5, 40); k > 0; --k) if(G->chance(4)) {
      if(G->chance(50)) b.reset(new StreamBufArray<T>(std::move(*b)));
      else { std::unique_ptr<StreamBufArray<T>> c(new StreamBufArray<T>(m.get(), n / 2)); c->sbumpc(); *c = std::move(*b); b = std::move(c); }
      ev("Move", A(), A(), st());
    } else op(*b, "ro", st, s.size(), s, true, false);
  endRun();
}
template<class T> void dyn() {
  int n = G->below(6); int base = G->chance(50) ? 0 : G->below(n + 1); S s = bytes(n * sizeof(T));
  DynArray<T> m; if(n || G->chance(50)) m.SetLength(n); if(n) memcpy((void*)m.begin(), s.data(), s.size());
  if(G->chance(30)) m.SetCapacity(n + G->below(5));
  beginRun(cfg("dyn", sizeof(T), base, s));
  auto st = [&]() { return codes(S((const char*)m.begin(), m.Length() * sizeof(T))); };
  std::unique_ptr<StreamBufDynArray<T>> b(new StreamBufDynArray<T>(m, base));
  bool wr = G->chance(85);
  for(int k = G->range(5, 40); k > 0; --k) { S t((const char*)m.begin(), m.Length() * sizeof(T));
    if(G->chance(3)) { b.reset(new StreamBufDynArray<T>(std::move(*b))); ev("Move", A(), A(), st()); } else op(*b, "dyn", st, (int)t.size() - base * (int)sizeof(T), t, true, wr); }
  endRun();
}
static void fun() {
  bool in = G->chance(50); S s = in ? bytes(G->below(30)) : S(); int bs = G->range(1, 6);
  std::istringstream i(s); std::ostringstream o;
  beginRun(cfg(in ? "fin" : "fout", 1, 0, s));
  auto st = [&]() { return codes(in ? s : o.str()); };
  std::unique_ptr<Fun> b(in ? new Fun(i, bs) : new Fun(o, bs));
  for(int k = G->range(5, 40); k > 0; --k)
    if(G->chance(3)) { b.reset(new Fun(std::move(*b))); ev("Move", A(), A(), st()); } else op(*b, in ? "fin" : "fout", st, s.size(), s, in, !in);
  if(!in) { b->pubsync(); ev("Flush", A(), A(), st()); }
  endRun();
}
struct P3 { unsigned char x[3]; };
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + (a.part.empty() ? 0 : atoi(a.part.c_str()))); G = &g;
  for(long n = 0; n < a.budget; ++n) switch(n % 9) {
    case 0: ro<char>(); break; case 1: ro<int>(); break; case 2: ro<short>(); break;
    case 3: dyn<char>(); break; case 4: dyn<short>(); break; case 5: dyn<int>(); break; case 6: dyn<P3>(); break;
    default: fun(); break;
  }
  return finish();
}
