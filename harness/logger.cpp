// Loggers, their targets and the streams they redirect, for spec/LogTrace.tla.
#include "vp.h"
#include <memory>
#include <sstream>
#include <time.h>
#include <sys/stat.h>
#include "bss-util/bss_util.h"
#include "bss-util/Logger.h"
using namespace vp;
using namespace bss;
typedef std::string S;
// bss_util.cpp looks for fonts, too: not used here
#define VP_FC(n) extern "C" __attribute__((weak)) void* n() { abort(); }
VP_FC(FcInitLoadConfigAndFonts) VP_FC(FcNameParse) VP_FC(FcConfigSubstitute) VP_FC(FcDefaultSubstitute) VP_FC(FcFontMatch) VP_FC(FcPatternGetString) VP_FC(FcPatternDestroy)
static J codes(const S& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
static S slurp(const S& p) { S r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return r; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static Rng* G;
static time_t started;
// A time of day of this run becomes T, a date with its time D; anything else stays.
static S untime(const S& s) {
  static time_t upto = 0; static std::vector<std::pair<S, S>> known; static S tz;
  S now = getenv("TZ") ? getenv("TZ") : ""; if(now != tz) { tz = now; known.clear(); upto = started - 1; }
  for(time_t t = upto + 1; t <= time(0); ++t) { tm x; localtime_r(&t, &x); char d[32]; snprintf(d, 32, "%04d-%02d-%02d ", x.tm_year + 1900, x.tm_mon + 1, x.tm_mday); char h[32]; snprintf(h, 32, "%d:%02d:%02d", x.tm_hour, x.tm_min, x.tm_sec); known.push_back({ d, h }); upto = t; }
  S r;
  for(size_t i = 0; i < s.size();) { bool hit = false;
    if(isdigit((unsigned char)s[i])) for(auto& k : known) { S d = k.first + k.second;
      if(!s.compare(i, d.size(), d)) { r += 'D'; i += d.size(); hit = true; break; }
      if(!s.compare(i, k.second.size(), k.second)) { r += 'T'; i += k.second.size(); hit = true; break; } }
    if(!hit) r += s[i++]; }
  return r;
}
static const char* FMT[] = { "{0}|{1}|{2}|{3}>", "{3}", "", "{1}:{2} {0}{0} ", "x{9}y{0}{12}", "{{2}} {3}{", "{a}{1}{ 2}{123}", "{4} {3}", "[{5}] {2} {0}", "{5}{4}/{2}", "no arguments ", "{00}{01}{02}{03}", "{2}{", "{1" };
static const char* FILES[] = { "main.cpp", "a/main.cpp", "a\\b.h", "/x/y\\z/q.c", "\\p/r\\s.c", "a/", "", "/", "dir/sub/file" };
static const char* SRC[] = { "src", "", "a b", "x" };
static const char* TXT[] = { "hello", "", "a\nb", "{0}", "%s", "zz", "entry " };
static const char* NAMES[] = { "LVL: ", "", "n", "W " };
static S dir;
struct World {
  std::ostringstream t[3]; std::ostringstream s[2]; std::streambuf* home[2]; S f[2];
  std::unique_ptr<Logger> g[2]; bool owner[2] = { false, false }; int sid[2] = { 0, 0 }; int nsp = 0; int fileAt[2] = { 0, 0 }; // fileAt: buffer a file is attached to
  int asm_[2] = { 0, 0 }; // buffer a stream is redirected to
  std::map<int, std::set<int>> lv; // by buffer: levels with a name
  std::vector<std::string> keep; // formats and names stay alive
  J state() { JA q; for(auto& x : t) q.push_back(codes(untime(x.str()))); for(auto& x : f) q.push_back(codes(untime(slurp(x)))); bool good = true; for(auto& x : t) good = good && x.good(); for(auto& x : s) good = good && x.good(); for(int i = 0; i < 2; ++i) if(owner[i]) good = good && g[i]->GetStream().good() && g[i]->GetStream().fill() == ' ';
    return raw("{\"tg\":" + arr(q).s + ",\"own\":" + A(codes(s[0].str()), codes(s[1].str())).s + ",\"home\":" + A(((std::ostream&)s[0]).rdbuf() == home[0], ((std::ostream&)s[1]).rdbuf() == home[1]).s + ",\"good\":" + (good ? "true" : "false") + "}"); }
  std::ostream dead{ nullptr }; // a target that takes nothing
  World() { for(int i = 0; i < 2; ++i) { f[i] = dir + "/f" + std::to_string(i); remove(f[i].c_str()); home[i] = ((std::ostream&)s[i]).rdbuf(); } }
  ~World() { for(auto& x : g) x.reset(); for(int i = 0; i < 2; ++i) ((std::ostream&)s[i]).rdbuf(home[i]); }
  void gone(int b) { for(int k = 0; k < 2; ++k) { if(fileAt[k] == b) fileAt[k] = 0; if(asm_[k] == b) asm_[k] = 0; } }
};
template<class... T> static J item(int v) { return A("i", v); }
static J item(const char* v) { return A("s", codes(v)); }
static void run() {
  // zones around the clock: some of them are on another day
  static const char* TZ[] = { "UTC0", "AAA-12", "BBB+12", "CCC-5:30", "DDD+3:30", "EEE-14" };
  setenv("TZ", TZ[G->below(6)], 1); tzset();
  World w; int bufs = 12;
  JA lv; for(const char* n : { "FATAL: ", "ERROR: ", "WARNING: ", "NOTICE: ", "INFO: ", "DEBUG: " }) lv.push_back(codes(n));
  beginRun("{\"bufs\":" + std::to_string(bufs) + ",\"levels\":" + arr(lv).s + ",\"fmt\":" + codes("{4} [{0}] ({1}:{2}) {3}").s + ",\"nfmt\":" + codes("{4} ({1}:{2}) {3}").s + "}");
  for(int n = G->range(8, 45); n > 0; --n) {
    int i = G->below(2); bool own = w.owner[i]; int b = w.sid[i];
    if(!own) {
      int j = 1 - i;
      if(w.owner[j] && G->chance(40)) {
        if(w.g[i]) { *w.g[i] = std::move(*w.g[j]); w.owner[i] = true; w.owner[j] = false; w.sid[i] = w.sid[j]; w.sid[j] = 0; ev("MoveAssign", A(i + 1, j + 1), A(), w.state()); }
        else { w.g[i].reset(new Logger(std::move(*w.g[j]))); w.owner[i] = true; w.owner[j] = false; w.sid[i] = w.sid[j]; w.sid[j] = 0; if(G->chance(60)) w.g[j].reset(); ev("MoveNew", A(i + 1, j + 1), A(), w.state()); }
      } else if(w.nsp < bufs) {
        if(w.g[i] && G->chance(50)) { *w.g[i] = Logger(); } else w.g[i].reset(new Logger());
        w.owner[i] = true; w.sid[i] = ++w.nsp; for(int k = 0; k < 6; ++k) w.lv[w.nsp].insert(k);
        ev("Create", A(i + 1, w.sid[i]), A(), w.state());
      }
      continue;
    }
    Logger& g = *w.g[i];
    switch(G->below(20)) {
    case 0: if(G->chance(20)) { g.AddTarget(w.dead); ev("AddDead", A(i + 1), A(), w.state()); break; } else { int t = G->below(3); g.AddTarget(w.t[t]); ev("AddTarget", A(i + 1, t + 1), A(), w.state()); break; }
    case 1: { int t = G->below(2); if(w.fileAt[t]) break; w.fileAt[t] = b; g.AddTarget(w.f[t].c_str()); ev("AddFile", A(i + 1, t + 4), A(), w.state()); break; }
    case 2: if(G->chance(40)) { g.ClearTargets(); for(int k = 0; k < 2; ++k) if(w.fileAt[k] == b) w.fileAt[k] = 0; ev("ClearTargets", A(i + 1), A(), w.state()); } break;
    case 3: { int k = G->chance(70) ? G->below(9) : G->range(9, 126); const char* s = NAMES[G->below(4)]; g.SetLevel(k, s); w.lv[b].insert(k); ev("SetLevel", A(i + 1, k, codes(s)), A(), w.state()); break; }
    case 4: { int m = G->chance(60) ? 127 : G->below(9); g.SetMaxLevel(m); ev("SetMax", A(i + 1, m), A(), w.state()); break; }
    case 5: { const char* s = FMT[G->below(14)]; g.SetFormat(s); ev("SetFormat", A(i + 1, codes(s)), A(), w.state()); break; }
    case 6: { const char* s = G->chance(25) ? 0 : FMT[G->below(14)]; g.SetNullFormat(s); ev("SetNullFormat", A(i + 1, s ? A(codes(s)) : A()), A(), w.state()); break; }
    case 7: case 8: { const char* s = TXT[G->below(7)]; bool fl = G->chance(30); g.GetStream() << s; if(fl) g.GetStream() << std::flush; ev("Write", A(i + 1, codes(s), fl), A(), w.state()); break; }
    case 9: { int k = G->below(2); if(w.asm_[k] && w.asm_[k] != b) break; w.asm_[k] = b; g.Assimilate(w.s[k]); ev("Assimilate", A(i + 1, k + 1), A(), w.state()); break; }
    case 10: case 11: { int k = G->below(2); const char* s = TXT[G->below(7)]; bool fl = G->chance(40); (std::ostream&)w.s[k] << s; if(fl) w.s[k].flush(); ev("Stream", A(k + 1, codes(s), fl), A(), w.state()); break; }
    case 12: if(G->chance(40)) { w.g[i].reset(); w.gone(b); w.owner[i] = false; w.sid[i] = 0; ev("Destroy", A(i + 1), A(), w.state()); } break;
    case 13: if(G->chance(40)) { int j = G->chance(15) ? i : 1 - i; if(!w.owner[j]) break;
        if(j != i) { w.gone(b); } *w.g[i] = std::move(*w.g[j]); if(j != i) { w.sid[i] = w.sid[j]; w.sid[j] = 0; w.owner[j] = false; } ev("MoveAssign", A(i + 1, j + 1), A(), w.state()); } break;
    default: {
      const char* src = G->chance(35) ? 0 : SRC[G->below(4)]; const char* file = FILES[G->below(9)]; int line = G->chance(20) ? G->below(100000) : G->below(50);
      int lev = -1; if(!G->chance(12)) { auto& v = w.lv[b]; auto it = v.begin(); std::advance(it, G->below(v.size())); lev = *it; } else lev = -G->range(1, 3);
      const char* s1 = TXT[G->below(7)]; const char* s2 = TXT[G->below(7)]; int v1 = G->range(-30, 1200), v2 = G->below(10);
      J so = src ? A(codes(src)) : A();
      switch(G->below(6)) {
      case 5: { static const char* F2[] = { "{10}-{9}", "{11}{0}{10}", "{1}{19}{02}", "{8}{12}" }; const char* f = F2[G->below(4)]; g.LogFormat(src, file, line, lev, f, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, s1, v1);
        ev("LogFormat", A(i + 1, so, codes(file), line, lev, A(item(10), item(11), item(12), item(13), item(14), item(15), item(16), item(17), item(18), item(19), item(s1), item(v1)), codes(f)), A(), w.state()); break; }
      case 0: g.Log(src, file, line, lev, s1, v1, s2); ev("Log", A(i + 1, so, codes(file), line, lev, A(item(s1), item(v1), item(s2))), A(), w.state()); break;
      case 1: g.Log(src, file, line, lev, v2); ev("Log", A(i + 1, so, codes(file), line, lev, A(item(v2))), A(), w.state()); break;
      case 2: { const char* f = FMT[G->below(14)]; g.LogFormat(src, file, line, lev, f, s1, v1, v2); ev("LogFormat", A(i + 1, so, codes(file), line, lev, A(item(s1), item(v1), item(v2)), codes(f)), A(), w.state()); break; }
      case 3: { const char* f = FMT[G->below(14)]; g.LogFormat(src, file, line, lev, f, v1); ev("LogFormat", A(i + 1, so, codes(file), line, lev, A(item(v1)), codes(f)), A(), w.state()); break; }
      case 4: { int r = g.PrintLog(src, file, line, lev, "%s=%d", s1, v1); ev("PrintLog", A(i + 1, so, codes(file), line, lev, A(item(s1), item(v1))), A(r), w.state()); break; }
      } } }
  }
  for(int i = 0; i < 2; ++i) if(w.owner[i]) { w.g[i].reset(); w.gone(w.sid[i]); w.owner[i] = false; ev("Destroy", A(i + 1), A(), w.state()); }
  endRun();
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 104729 + (a.part.empty() ? 0 : atoi(a.part.c_str()))); G = &g;
  dir = a.out + ".d"; mkdir(dir.c_str(), 0700); started = time(0) - 1;
  for(long n = 0; n < a.budget; ++n) run();
  for(const char* n : { "/f0", "/f1" }) remove((dir + n).c_str());
  rmdir(dir.c_str());
  return finish();
}
