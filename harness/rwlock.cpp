// Interleavings of the reader-writer lock, for spec/RWTrace.tla.
#include "conc.h"
#include "bss-util/RWLock.h"
using namespace vp;
using namespace bss;
static RWLock* L; static int finished[8];
enum { W, AW, SW, R, AR, RU, RAU, RUU, AWW, ARU, NT };
static void w_() { inv("Lock"); L->Lock(); ret(); }
static void u_() { inv("Unlock"); L->Unlock(); ret(); }
static void r_() { inv("RLock"); L->RLock(); ret(); }
static void ru_() { inv("RUnlock"); L->RUnlock(); ret(); }
static void up_() { inv("Upgrade"); L->Upgrade(); ret(); }
static void dn_() { inv("Downgrade"); L->Downgrade(); ret(); }
static bool aw_() { inv("AttemptLock"); bool b = L->AttemptLock(); ret(A((int)b)); return b; }
static bool sw_() { inv("AttemptStrictLock"); bool b = L->AttemptStrictLock(); ret(A((int)b)); return b; }
static bool ar_() { inv("AttemptRLock"); bool b = L->AttemptRLock(); ret(A((int)b)); return b; }
static bool au_() { inv("AttemptUpgrade"); bool b = L->AttemptUpgrade(); ret(A((int)b)); return b; }
static void act(int k) {
  switch(k) {
  case W: w_(); u_(); break;
  case AW: if(aw_()) u_(); break;
  case SW: if(sw_()) u_(); break;
  case R: r_(); ru_(); break;
  case AR: if(ar_()) ru_(); break;
  case RU: r_(); up_(); dn_(); ru_(); break;
  case RAU: r_(); if(au_()) dn_(); ru_(); break;
  case RUU: r_(); up_(); dn_(); if(au_()) dn_(); ru_(); break;
  case AWW: if(aw_()) u_(); else { w_(); u_(); } break;
  case ARU: if(ar_()) { up_(); dn_(); ru_(); } else if(sw_()) u_(); break;
  }
}
// hand-over scenarios: thread 1 keeps the lock until thread 2's call has returned, so that call must not block
static void holder(int mode) {
  if(mode == 0) { w_(); vps::waitUntil([] { return finished[2] != 0; }); u_(); }
  else if(mode == 1) { r_(); vps::waitUntil([] { return finished[2] != 0; }); ru_(); }
  else { r_(); up_(); vps::waitUntil([] { return finished[2] != 0; }); dn_(); ru_(); }
}
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Explorer x(a.seed * 7919 + 5);
  int k = 0, n = 1; sscanf(a.part.c_str(), "%d/%d", &k, &n);
  long sc = 0;
  auto go = [&](const std::vector<std::vector<int>>& prog, int mode, long s1, long s2, long s3) {
    if(sc++ % n != k) return;
    std::string cfg = "{\"threads\":" + std::to_string(prog.size()) + ",\"mode\":" + std::to_string(mode) + "}";
    x.explore(cfg, [&] {
      L = new RWLock(); { VP_RECORD; memset(finished, 0, sizeof finished); }
      for(size_t t = 0; t < prog.size(); ++t) vps::spawn([&, t] {
        if(mode >= 0 && t == 0) holder(mode);
        else { if(mode >= 0) { VP_RECORD; } for(int c : prog[t]) act(c); }
        { VP_RECORD; finished[t + 1] = 1; } });
      vps::joinAll();
      bool f = L->IsFree(); size_t rc = L->ReaderCount();
      note("End", A(), A((int)f, (int)rc));
      delete L;
    }, s1, s2, s3);
  };
  long B = a.budget ? a.budget : 1;
  // every pair and every multiset triple of single actions, then random longer programs
  for(int p = 0; p < NT; ++p) for(int q = p; q < NT; ++q) go({ { p }, { q } }, -1, 400, 150 * B, 80 * B);
  for(int p = 0; p < NT; ++p) for(int q = p; q < NT; ++q) for(int r = q; r < NT; ++r) go({ { p }, { q }, { r } }, -1, 300, 90 * B, 90 * B);
  for(int m = 0; m < 3; ++m) for(int q : { (int)AR, (int)SW, (int)AW, (int)R }) { if((q == R && m != 1) || (q == AW && m == 1)) continue; go({ {}, { q } }, m, 200, 60 * B, 40 * B); }
  for(long i = 0; i < 40 * B; ++i) { std::vector<std::vector<int>> pr(2 + x.g.below(2)); for(auto& v : pr) for(int j = 0, m = 1 + x.g.below(3); j < m; ++j) v.push_back(x.g.below(NT)); go(pr, -1, 200, 120, 120); }
  fprintf(stderr, "schedules=%ld bad=%ld maxlen=%ld\n", x.schedules, x.bad, x.maxlen);
  return finish();
}
