// Arbitrary text loaded and edited by INIstorage, for spec/IniTextTrace.tla.
#include "vp.h"
#include <memory>
#include <sys/stat.h>
#include "bss-util/bss_util.h"
#include "bss-util/INIstorage.h"
using namespace vp;
using namespace bss;
static J codes(const std::string& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
static J cs(const char* s) { return codes(s ? s : "?"); }
static J doc(INIstorage& s) { JA d; for(auto i = s.Front(); i; i = i->next) { JA e; for(auto j = i->val.Front(); j; j = j->next) e.push_back(A(cs(j->val.GetKey()), cs(j->val.GetString()))); d.push_back(A(cs(i->val.GetName()), arr(e))); } return arr(d); }
static std::string slurp(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return r; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7717 + 3);
  std::string dir = (a.out.empty() ? std::string("/tmp/vpini") : a.out) + ".d", p = dir + "/t.ini"; mkdir(dir.c_str(), 0700);
  static const char* TOK[] = { "a", "A", "b", "ab", " ", "\n", "\n", "\n", "[", "]", "=", "=", ";", "\t", "\r\n", "\xc3\xa9", "[a]", "[b]\n", "a=1", "b = ", "\n[a]\n", "\na=", "\nb=2\n", ";c\n", "12", "0x", ".", "-" };
  static const char* NS[] = { "a", "A", "b", "ab", "new" }; static const char* VS[] = { "1", "", "x[y]=z", "v w", "\xc3\xa9" };
  for(long it = 0; it < a.budget; ++it) {
    std::string t; for(int n = g.below(g.chance(20) ? 3 : 16); n > 0; --n) t += TOK[g.below(sizeof(TOK) / sizeof(*TOK))];
    FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
    beginRun("{}");
    INIstorage* s = new INIstorage(p.c_str()); ev("Parse", A(codes(t)), A(), doc(*s));
    for(int n = g.below(6); n > 0; --n) {
      std::string x = NS[g.below(5)], y = NS[g.below(5)]; int si = g.chance(70) ? 0 : (int)g.below(3), ki = g.chance(75) ? 0 : (int)g.below(3);
      if(g.chance(65) && s->Front()) { int k = g.below(5); auto q = s->Front(); while(k-- && q->next) q = q->next; x = q->val.GetName(); si = (int)q->val.GetIndex();
        if(auto e = q->val.Front()) { int k2 = g.below(4); while(k2-- && e->next) e = e->next; y = e->val.GetKey(); } }
      int op = g.below(10);
      // names picked from the text can hold a bracket or blanks that the written form would not survive: only simple ones are added
      bool plain = x.find_first_of("[]=;") == std::string::npos && !x.empty(), yplain = y.find_first_of("[]=;") == std::string::npos && !y.empty();
      if(op < 2) { if(!plain) continue; s->AddSection(x.c_str()); ev("AddSection", A(codes(x)), A(), doc(*s)); }
      else if(op < 3) { bool r = s->RemoveSection(x.c_str(), si); ev("RemoveSection", A(codes(x), si), A(r), doc(*s)); }
      else { int kind = g.below(3); const char* v = VS[g.below(5)]; int kk = kind == 0 ? -1 : ki; if(kind == 0 && !yplain) continue;
        int r = s->EditEntry(x.c_str(), y.c_str(), kind == 2 ? 0 : v, (size_t)(ptrdiff_t)kk, si);
        ev("EditEntry", A(codes(x), codes(y), kind == 2 ? A() : A(cs(v)), kk, si), A(r < 0 ? -1 : r), doc(*s)); }
      if(g.chance(60)) { s->EndINIEdit(); INIstorage u(p.c_str()); std::string w = slurp(p); ev("Save", A(), A(doc(u), codes(w)), doc(*s)); }
    }
    delete s; endRun(); unlink(p.c_str());
  }
  rmdir(dir.c_str());
  return finish();
}
