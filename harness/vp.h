// Shared support for the sequential drivers: a trace log (one JSON line per run), crash and hang
// reporting, a seeded PRNG, and a lifetime-tracked element type.  Nothing here depends on bss-util.
#ifndef VP_H
#define VP_H
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <assert.h>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>

namespace vp {
struct Rng { // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
};

// ---- trace log --------------------------------------------------------------------------------
struct Log {
  FILE* f = 0;
  std::string cfg, buf;      // current run
  bool open = false; bool first = true;
  long runs = 0, events = 0;
  size_t maxbytes = 0; size_t written = 0;
  std::set<uint64_t> seen;   // dedupe of identical runs
  bool dedupe = false; long dups = 0;
};
inline Log& log() { static Log* l = new Log(); return *l; }
inline std::string q(const std::string& s) {
  std::string r = "\"";
  for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
  return r + "\"";
}
// JSON values
struct J {
  std::string s;
  J() : s("0") {}
  J(int v) : s(std::to_string(v)) {}
  J(unsigned v) : s(std::to_string((int)v)) {}
  J(long v) : s(std::to_string((int)v)) {}
  J(unsigned long v) : s(std::to_string((int)v)) {}
  J(long long v) : s(std::to_string((int)v)) {}
  J(unsigned long long v) : s(std::to_string((int)v)) {}
  J(bool v) : s(v ? "true" : "false") {}
  J(const char* v) : s(q(v)) {}
  J(const std::string& v) : s(q(v)) {}
  template<class T> J(const std::vector<T>& v) { s = "["; bool f = true; for(const auto& x : v) { if(!f) s += ','; f = false; s += J(x).s; } s += ']'; }
};
typedef std::vector<J> JA;
inline J arr(const JA& v) { J r; r.s = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r.s += ','; r.s += v[i].s; } r.s += ']'; return r; }
inline J A() { J r; r.s = "[]"; return r; }
template<class... T> J A(const T&... t) { J r; r.s = "["; bool f = true; ((r.s += (f ? "" : ","), f = false, r.s += J(t).s), ...); r.s += ']'; return r; } // a JSON array
inline J raw(const std::string& s) { J r; r.s = s; return r; }

inline void flushRun(const char* extra) {
  Log& L = log();
  if(!L.open) return;
  std::string line = "{\"cfg\":" + L.cfg + ",\"ev\":[" + L.buf;
  if(extra) { if(!L.first) line += ','; line += extra; }
  line += "]}\n";
  if(L.f) { fwrite(line.data(), 1, line.size(), L.f); fflush(L.f); L.written += line.size(); }
  L.open = false;
}
// Called from signal handlers: best effort, plain write(2) of what is buffered.
inline void emergency(const char* what) {
  Log& L = log();
  int fd = L.f ? fileno(L.f) : 1;
  if(L.f) fflush(L.f);
  auto w = [&](const char* p, size_t n) { while(n) { ssize_t k = ::write(fd, p, n); if(k <= 0) break; p += k; n -= k; } };
  if(!L.open) { w("{\"cfg\":{},\"ev\":[", 16); }
  else { w("{\"cfg\":", 7); w(L.cfg.data(), L.cfg.size()); w(",\"ev\":[", 7); w(L.buf.data(), L.buf.size()); if(!L.first) w(",", 1); }
  std::string e = std::string("{\"op\":\"") + what + "\",\"a\":[],\"r\":[],\"s\":[]}]}\n";
  w(e.data(), e.size());
  ::_exit(42);
}
inline const char*& pendingOp() { static const char* p = ""; return p; }
inline void onSignal(int sig) { emergency(sig == SIGVTALRM ? "HANG" : sig == SIGABRT ? "ABORT" : "CRASH"); }
inline int& hangSeconds() { static int h = 20; return h; }
inline void arm() { itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = hangSeconds(); setitimer(ITIMER_VIRTUAL, &it, 0); }
inline void install() {
  static char* stk = (char*)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = 1 << 18; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for(int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP }) sigaction(s, &sa, 0);
}
// Begin a run; cfg is a JSON object text.
inline void beginRun(const std::string& cfg) { Log& L = log(); L.cfg = cfg; L.buf.clear(); L.first = true; L.open = true; arm(); }
inline void ev(const char* op, const J& a, const J& r, const J& s) {
  Log& L = log(); std::string t = std::string("{\"op\":\"") + op + "\",\"a\":" + a.s + ",\"r\":" + r.s + ",\"s\":" + s.s + "}";
  if(!L.first) L.buf += ',';
  L.first = false; L.buf += t; ++L.events;
}
inline void endRun() {
  Log& L = log();
  if(L.dedupe) { uint64_t h = std::hash<std::string>()(L.cfg + L.buf); if(!L.seen.insert(h).second) { ++L.dups; L.open = false; return; } }
  ++L.runs; flushRun(0);
}
struct Args { std::string out; uint64_t seed = 1; int tier = 0; long budget = 0; std::string part; };
inline Args parse(int argc, char** argv) {
  Args a;
  for(int i = 1; i < argc; ++i) {
    std::string s = argv[i];
    auto v = [&]() { return std::string(argv[++i]); };
    if(s == "--out") a.out = v(); else if(s == "--seed") a.seed = strtoull(v().c_str(), 0, 10); else if(s == "--tier") a.tier = v() == "thorough";
    else if(s == "--part") a.part = v(); else if(s == "--budget") a.budget = atol(v().c_str());
  }
  if(!a.out.empty()) { log().f = fopen(a.out.c_str(), "wb"); if(!log().f) { perror("out"); exit(3); } }
  install();
  return a;
}
inline int finish() { // last line of stdout tells the runner the driver completed
  Log& L = log(); if(L.f) fclose(L.f);
  itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_VIRTUAL, &it, 0);
  printf("VPDONE runs=%ld events=%ld dups=%ld\n", L.runs, L.events, L.dups); fflush(stdout); ::_exit(0);
}

// ---- lifetime tracking ------------------------------------------------------------------------
// Every live Tracked is registered by address; constructing over a live one, destroying or using a
// dead one is an error counter that the drivers log and the specification requires to be zero.
struct Life { std::set<const void*> live; long errors = 0; long ctor = 0, dtor = 0; };
inline Life& life() { static Life* l = new Life(); return *l; }
struct Tracked {
  int v; int* heap; // heap: something ASan can see leak/double free
  void reg() { if(!life().live.insert(this).second) ++life().errors; ++life().ctor; }
  void chk() const { if(!life().live.count(this)) ++life().errors; }
  Tracked() : v(0), heap(0) { reg(); }
  Tracked(int x) : v(x), heap(0) { reg(); }
  Tracked(const Tracked& o) : v(o.v), heap(0) { o.chk(); reg(); }
  Tracked(Tracked&& o) : v(o.v), heap(0) { o.chk(); o.v = -1; reg(); }
  ~Tracked() { if(!life().live.erase(this)) ++life().errors; ++life().dtor; v = -2; }
  Tracked& operator=(const Tracked& o) { chk(); o.chk(); v = o.v; return *this; }
  Tracked& operator=(Tracked&& o) { chk(); o.chk(); int t = o.v; if(&o != this) { v = t; o.v = -1; } return *this; }
  Tracked& operator=(int x) { chk(); v = x; return *this; }
  bool operator==(const Tracked& o) const { return v == o.v; }
  bool operator!=(const Tracked& o) const { return v != o.v; }
  bool operator<(const Tracked& o) const { return v < o.v; }
  bool operator>(const Tracked& o) const { return v > o.v; }
  int val() const { chk(); return v; }
};
struct MoveOnly : Tracked {
  MoveOnly() {} MoveOnly(int x) : Tracked(x) {}
  MoveOnly(MoveOnly&& o) : Tracked(std::move(o)) {}
  MoveOnly& operator=(MoveOnly&& o) { Tracked::operator=(std::move(o)); return *this; }
  MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete;
};
}
extern "C" __attribute__((used, weak, no_sanitize("address"))) const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0"; }
#endif
