// Histories of INIstorage for spec/IniTrace.tla.  Files live in a scratch directory next to the trace.
#include "vp.h"
#include <memory>
#include <sys/stat.h>
#include "bss-util/bss_util.h"
#include "bss-util/INIstorage.h"
using namespace vp;
using namespace bss;
struct Nm { const char* s; int c, v; };
static const Nm NAMES[] = { { "a", 1, 1 }, { "A", 1, 2 }, { "ab", 2, 1 }, { "aB", 2, 2 }, { "abc", 3, 1 }, { "a b", 4, 1 },
  { "a-rather-long-name-that-does-not-fit-inline", 5, 1 }, { "A-Rather-Long-Name-That-Does-Not-Fit-Inline", 5, 2 }, { "\xc3\xa9", 6, 1 }, { "z\xc3\xa9", 7, 1 } };
static const char* VALS[] = { "1", "", "abc", "0x1F", "-7", "3.9", "x y = z [q]", "\xc3\xa9", "a rather long value that needs a heap buffer of its own", "0", "2000000000" };
static const int NN = sizeof(NAMES) / sizeof(*NAMES), NV = sizeof(VALS) / sizeof(*VALS);
static J nm(int i) { return A(NAMES[i].c, NAMES[i].v); }
static J nmOf(const char* s) { if(!s) return A(-1, -1); if(!*s) return A(0, 0); for(auto& n : NAMES) if(!strcmp(n.s, s)) return A(n.c, n.v); return A(-1, -1); }
static int valOf(const char* s) { if(s) for(int i = 0; i < NV; ++i) if(!strcmp(VALS[i], s)) return i + 1; return -2; }
static J docOf(INIstorage& s, bool* ok) {
  JA d; const INIstorage::_NODE* prev = 0; int guard = 0;
  for(auto i = s.Front(); i; prev = i, i = i->next) {
    if(i->prev != prev || ++guard > 500) { *ok = false; break; }
    JA e; const INIsection::_NODE* pv = 0;
    for(auto j = i->val.Front(); j; pv = j, j = j->next) {
      if(j->prev != pv || ++guard > 2000) { *ok = false; break; }
      const INIentry& en = j->val; if((int)en.GetDouble() != (int)en.GetInt()) *ok = false;
      e.push_back(A(nmOf(en.GetKey()), valOf(en.GetString()), (int)en.GetInt()));
    }
    if(i->val.Back() != pv) *ok = false;
    if(i->val.GetParent() != &s) *ok = false;
    d.push_back(A(nmOf(i->val.GetName()), (int)i->val.GetIndex(), arr(e)));
  }
  if(s.Back() != prev) *ok = false;
  return arr(d);
}
static INIstorage* S[2];
static std::string dir;
static std::string path(int o) { return dir + "/f" + std::to_string(o) + ".ini"; }
static J state() { JA r; for(int o = 0; o < 2; ++o) { if(!S[o]) r.push_back(raw("{\"gone\":true}")); else { bool ok = true; J d = docOf(*S[o], &ok); r.push_back(raw(std::string("{\"gone\":false,\"ok\":") + (ok ? "true" : "false") + ",\"d\":" + d.s + "}")); } } return arr(r); }
static std::string slurp(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return r; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static J reload(const std::string& p) { bool ok = true; INIstorage t(p.c_str()); J d = docOf(t, &ok); return ok ? d : raw("[[[-1,-1],0,[]]]"); }
static J comments(const std::string& t) { JA r; for(size_t i = t.find(";#"); i != std::string::npos; i = t.find(";#", i + 1)) r.push_back(atoi(t.c_str() + i + 2)); return arr(r); }
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 9173 + 1);
  dir = (a.out.empty() ? std::string("/tmp/vpini") : a.out) + ".d"; mkdir(dir.c_str(), 0700);
  for(long it = 0; it < a.budget; ++it) {
    beginRun("{}");
    int names = g.chance(30) ? 3 : NN, vals = g.chance(30) ? 3 : NV;
    auto rn = [&] { return names == 3 ? (int)g.below(3) : (int)g.below(NN); };
    // a file to start from
    JA lines; std::string txt; int cno = 0; const char* nl = g.chance(15) ? "\r\n" : "\n";
    if(g.chance(75)) {
      int n = g.below(12);
      for(int i = 0; i < n; ++i) {
        int k = g.below(10); std::string ln; int c = g.chance(20) ? ++cno : 0; std::string ct = c ? (g.chance(50) ? " ;#" : ";#") + std::to_string(c) : "";
        if(k < 1) { if(!c) c = ++cno; lines.push_back(A(0, c)); ln = ";#" + std::to_string(c) + (g.chance(30) ? " a=1 [b]" : " text"); }
        else if(k < 2) { if(c) lines.push_back(A(0, c)); ln = (g.chance(50) ? "junk" : "") + ct; }
        else if(k < 5) { int x = rn(); lines.push_back(A(1, nm(x), c)); ln = std::string(g.chance(20) ? "  [" : "[") + (g.chance(15) ? " " : "") + NAMES[x].s + (g.chance(15) ? " ]" : "]") + ct; }
        else { int x = rn(), v = g.below(vals); lines.push_back(A(2, nm(x), v + 1, c)); bool sp = g.chance(25); ln = std::string(g.chance(15) ? "\t" : "") + NAMES[x].s + (sp ? " = " : "=") + VALS[v] + (sp && g.chance(50) ? " " : "") + ct; }
        txt += ln; if(i + 1 < n || g.chance(70)) txt += nl;
        if(g.chance(15)) { txt += nl; }
      }
      FILE* f = fopen(path(0).c_str(), "wb"); fwrite(txt.data(), 1, txt.size(), f); fclose(f);
    } else unlink(path(0).c_str());
    unlink(path(1).c_str()); std::string own[2] = { path(0), path(1) };
    S[1] = 0; bool open[2] = { false, false }, homeless[2] = { false, false }; // homeless: no file of its own until saved under a given path
    int how = g.below(12);
    if(how == 0) { lines.clear(); S[0] = new INIstorage(); homeless[0] = true; }
    else if(how == 1) { lines.clear(); S[0] = new INIstorage((dir + "/nowhere/x.ini").c_str()); homeless[0] = true; }
    else S[0] = new INIstorage(path(0).c_str());
    auto save = [&](int o) { if(homeless[o]) { unlink(own[o].c_str()); S[o]->EndINIEdit(own[o].c_str()); homeless[o] = false; } else S[o]->EndINIEdit(); };
    ev("Load", A(1, arr(lines)), A(), state());
    int n = 3 + g.below(25); int files = 1;
    for(int i = 0; i < n; ++i) {
      int o = S[0] && S[1] ? (int)g.below(2) : S[0] ? 0 : 1; INIstorage& s = *S[o];
      int x = rn(), y = rn(), v = g.below(vals), ki = g.chance(60) ? 0 : (int)g.below(4), si = g.chance(60) ? 0 : (int)g.below(4);
      if(g.chance(50) && s.Front()) { // favour what exists
        int k = g.below(6); auto p = s.Front(); while(k-- && p->next) p = p->next; 
        for(int q = 0; q < NN; ++q) if(!strcmp(NAMES[q].s, p->val.GetName())) x = q;
        if(g.chance(70)) si = (int)p->val.GetIndex();
        if(auto e = p->val.Front()) { int k2 = g.below(6); while(k2-- && e->next) e = e->next; for(int q = 0; q < NN; ++q) if(!strcmp(NAMES[q].s, e->val.GetKey())) y = q; }
      }
      if(g.chance(15)) x ^= 1;
      if(g.chance(15)) y ^= 1;
      int op = g.below(100);
      if(op < 14) { INIsection& r = s.AddSection(NAMES[x].s); open[o] = true; ev("AddSection", A(o + 1, nm(x)), A((int)r.GetIndex()), state()); }
      else if(op < 24) { bool r = s.RemoveSection(NAMES[x].s, si); open[o] = true; ev("RemoveSection", A(o + 1, nm(x), si), A(r), state()); }
      else if(op < 72) {
        int kind = g.below(10); int kk = kind < 4 ? -1 : ki, vv = kind >= 7 ? -1 : v + 1, ss = g.chance(8) ? -1 : si; if(kk == -1 && vv == -1) vv = 1;
        int r; INIsection* sec = ss >= 0 && g.chance(25) ? s.GetSection(NAMES[x].s, ss) : 0;
        if(sec) r = sec->EditEntry(NAMES[y].s, vv < 0 ? 0 : VALS[vv - 1], (size_t)(ptrdiff_t)kk); else r = s.EditEntry(NAMES[x].s, NAMES[y].s, vv < 0 ? 0 : VALS[vv - 1], (size_t)(ptrdiff_t)kk, (size_t)(ptrdiff_t)ss);
        open[o] = true; ev("EditEntry", A(o + 1, nm(x), nm(y), vv, kk, ss), A(r < 0 ? -1 : r), state());
      }
      else if(op < 77) { int r = s.EditAddEntry(NAMES[x].s, NAMES[y].s, VALS[v], ki, si); open[o] = true; ev("EditAddEntry", A(o + 1, nm(x), nm(y), v + 1, ki, si), A(r < 0 ? -1 : r), state()); }
      else if(op < 84) {
        INIsection* sec = s.GetSection(NAMES[x].s, si); INIentry* p = s.GetEntryPtr(NAMES[x].s, NAMES[y].s, ki, si);
        INIentry& q = s.GetEntry(NAMES[x].s, NAMES[y].s, ki, si); INIsection::_NODE* nd = s.GetEntryNode(NAMES[x].s, NAMES[y].s, ki, si);
        JA rs; rs.push_back(p ? valOf(p->GetString()) : -1); rs.push_back(q.IsValid() ? valOf(q.GetString()) : -1); rs.push_back(nd ? valOf(nd->val.GetString()) : -1);
        if(sec) { INIentry* p2 = sec->GetEntryPtr(NAMES[y].s, ki); rs.push_back(p2 ? valOf((const char*)*p2) : -1); }
        if(!si && !ki) { INIentry& q2 = s[NAMES[x].s][NAMES[y].s]; rs.push_back(q2.IsValid() ? valOf(q2.GetString()) : -1); }
        ev("Get", A(o + 1, nm(x), nm(y), ki, si), A((int)s.GetNumSections(NAMES[x].s), sec ? (int)sec->GetNumEntries(NAMES[y].s) : -1, arr(rs)), state());
      }
      else if(op < 92) { if(!open[o]) continue; save(o); open[o] = false; std::string t = slurp(own[o]); ev("Save", A(o + 1), A(reload(own[o]), comments(t)), state()); }
      else if(op < 94) { // a second storage, with a file of its own
        if(!open[o] || files > 8 || homeless[o]) continue; int p = 1 - o; bool fresh = !S[p];
        if(fresh) S[p] = new INIstorage(s); else *S[p] = s;
        ev("Copy", A(p + 1, o + 1), A(), state());
        own[p] = path(++files); unlink(own[p].c_str()); S[p]->EndINIEdit(own[p].c_str()); open[p] = homeless[p] = false;
        std::string t = slurp(own[p]); ev("Save", A(p + 1), A(reload(own[p]), comments(t)), state());
      }
      else if(op < 96) { int p = 1 - o; if(!S[p]) S[p] = new INIstorage(std::move(s)); else *S[p] = std::move(s); if(g.chance(20) && S[p]) { INIstorage& self = *S[p]; self = self; } delete S[o]; S[o] = 0; open[p] = open[o]; own[p] = own[o]; homeless[p] = homeless[o]; ev("Move", A(p + 1, o + 1), A(), state()); }
      else if(op < 97 && S[1 - o]) { delete S[o]; S[o] = 0; ev("Drop", A(o + 1), A(), state()); }
      else if(op < 99 && !S[1 - o]) { // continue with a copy, original gone
        int p = 1 - o; S[p] = new INIstorage(s); ev("Copy", A(p + 1, o + 1), A(), state()); delete S[o]; S[o] = 0; open[p] = open[o]; own[p] = own[o]; homeless[p] = homeless[o]; ev("Drop", A(o + 1), A(), state());
      }
    }
    for(int o = 0; o < 2; ++o) if(S[o]) {
      if(open[o]) {
        if(g.chance(25) && !homeless[o]) { J before = reload(own[o]); S[o]->DiscardINIEdit(); ev("Discard", A(o + 1, before), A(reload(own[o])), state()); }
        else { save(o); std::string t = slurp(own[o]); ev("Save", A(o + 1), A(reload(own[o]), comments(t)), state()); } }
      delete S[o]; S[o] = 0; ev("Drop", A(o + 1), A(), state());
    }
    endRun();
    for(int k = 0; k <= files; ++k) unlink(path(k).c_str());
  }
  rmdir(dir.c_str());
  return finish();
}
