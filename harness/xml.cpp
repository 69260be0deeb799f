// XML documents edited, copied, written and read, for spec/XmlTrace.tla.
#include "vp.h"
#include <memory>
#include <sys/stat.h>
#include "bss-util/bss_util.h"
#include "bss-util/XML.h"
using namespace vp;
using namespace bss;
typedef std::string S;
static J codes(const S& s) { JA r; for(unsigned char c : s) r.push_back((int)c); return arr(r); }
static const char* NM[] = { "a", "b", "item", "a1", "zz" };
static S slurp(const S& p) { S r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return r; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static int clampi(double d) { return d > 2e9 || d < -2e9 || d != d ? 2000000001 : (int)d; }
static int clampi(int64_t d) { return d > 2000000000 || d < -2000000000 ? 2000000002 : (int)d; }
static J show(XMLNode& x) {
  JA at, ch, nl, al;
  for(size_t i = 0; i < x.GetAttributes(); ++i) { XMLValue* v = x.GetAttribute(i); at.push_back(A(codes(v->Name), codes(v->String), clampi(v->Integer), clampi(v->Float))); }
  for(size_t i = 0; i < x.GetNodes(); ++i) ch.push_back(show(*x.GetNode(i)));
  for(const char* n : NM) {
    JA q; XMLNode* last = 0; size_t lim = x.GetNodes() + 2;
    for(XMLNode* k = x.GetNode(n); k && lim; k = k->next, --lim) { int ix = -7; for(size_t i = 0; i < x.GetNodes(); ++i) if(x.GetNode(i) == k) ix = (int)i; q.push_back(ix); if(ix < 0) break; if(k->prev != last) q.push_back(-9); last = k; }
    nl.push_back(A(codes(n), arr(q)));
    int ix = -1; if(XMLValue* v = x.GetAttribute(n)) { ix = -7; for(size_t i = 0; i < x.GetAttributes(); ++i) if(x.GetAttribute(i) == v) ix = (int)i;
      if(x.GetAttributeString(n) != v->String.c_str() || x.GetAttributeInt(n) != v->Integer || x.GetAttributeFloat(n) != v->Float || x(n) != v) ix = -8; }
    else if(x.GetAttributeString(n) || x.GetAttributeInt(n) || x.GetAttributeFloat(n) != 0) ix = -8;
    al.push_back(A(codes(n), ix));
  }
  if(x.GetNode(x.GetNodes()) || x.GetAttribute(x.GetAttributes())) al.push_back(A(codes("a"), -77));
  return A(codes(x.GetName()), codes(x.GetValue().String), clampi(x.GetValue().Integer), clampi(x.GetValue().Float), arr(at), arr(ch), arr(nl), arr(al));
}
static Rng* G;
static S blank() { static const char* B[] = { "", "", " ", "\n", "\t ", "  " }; return B[G->below(6)]; }
static S data(int n) { // plain text, few digits
  static const char* T[] = { "a", "c", "<", ">", "&", "\"", "'", " ", "\n", "/", "=", "?", "-", ".", ";", "#", "\xc3\xa9", "a", "c", "]]>", "&amp;", "--" };
  if(G->chance(12)) { static const char* W[] = { "true", "false", "0x1F", "-12", "907", "7.25", "-0.5", "0", " 31", "0xc0a" }; return W[G->below(10)]; }
  S s; int dg = 0; for(int k = G->below(n + 1); k > 0; --k) if(dg < 2 && G->chance(10)) { s += (char)('0' + G->below(10)); ++dg; } else s += T[G->below(22)];
  if(s.size() > 1 && s[0] == '0') s[0] = 'a';
  return s;
}
static S esc(const S& s, bool attr) { // some correct spelling of s
  S r; for(size_t i = 0; i < s.size(); ++i) { char c = s[i]; char b[16];
    if((unsigned char)c < 128 && c > 32 && G->chance(6)) { snprintf(b, sizeof b, G->chance(50) ? "&#%d;" : "&#x%X;", c); r += b; }
    else if(c == '\xc3' && G->chance(40)) { r += G->chance(50) ? "&#233;" : "&#xe9;"; ++i; }
    else if(c == '<') r += "&lt;"; else if(c == '&') r += "&amp;"; else if(c == '>') r += attr || G->chance(50) ? "&gt;" : ">";
    else if(c == '"') r += attr || G->chance(50) ? "&quot;" : "\""; else if(c == '\'' ) r += G->chance(50) ? "&apos;" : "'"; else r += c; }
  return r;
}
static S comment() { static const char* B[] = { "", " c ", "-", "--x", "<a>", "</a>", " - > ", "&lt;", "a-", "\"", "<!", "-- " }; return S("<!--") + B[G->below(12)] + "-->"; }
static S attrs(int n) { S r; bool used[5] = {}; for(; n > 0; --n) { int k = G->below(5); if(used[k]) continue; used[k] = true;
  S eq = G->chance(80) ? "=" : G->chance(50) ? " = " : "\n="; r += (G->chance(85) ? S(" ") : S("\n\t")) + NM[k] + eq + "\"" + esc(data(5), true) + "\""; } return r; }
static S elem(int depth) {
  S n = NM[G->below(4)], r = "<" + S(G->chance(5) ? " " : "") + n + attrs(G->below(3)) + (G->chance(20) ? blank() : S());
  if(G->chance(30)) return r + "/>";
  r += ">"; bool txt = G->chance(60); int ch = depth > 0 ? (int)G->below(4) : 0;
  if(txt) r += esc(data(6), false);
  for(; ch > 0; --ch) { if(G->chance(25)) r += comment(); r += blank() + elem(depth - 1); if(G->chance(25)) r += ' ' + esc(data(3), false); }
  if(G->chance(15)) r += comment();
  return r + "</" + n + (G->chance(15) ? " " : "") + ">";
}
static S document() {
  S r = G->chance(20) ? blank() : S();
  if(G->chance(60)) r += S("<?") + (G->chance(85) ? "xml" : "a1") + attrs(G->below(3)) + (G->chance(25) ? " " : "") + "?>" + blank();
  for(int n = G->below(4); n > 0; --n) { if(G->chance(20)) r += comment() + blank(); r += elem(2) + blank(); }
  if(G->chance(15)) r += comment();
  return r;
}
struct At { XMLNode* x; JA p; };
static void walk(XMLNode& x, JA p, std::vector<At>& out) { out.push_back(At{ &x, p }); for(size_t i = 0; i < x.GetNodes(); ++i) { JA q = p; q.push_back((int)i); walk(*x.GetNode(i), q, out); } }
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 9157 + 11); G = &g;
  S dir = (a.out.empty() ? S("/tmp/vpxml") : a.out) + ".d", file = dir + "/t.xml"; mkdir(dir.c_str(), 0700);
  for(long it = 0; it < a.budget; ++it) {
    beginRun("{}");
    std::unique_ptr<XMLFile> d(new XMLFile());
    for(int n = 2 + g.below(g.chance(20) ? 30 : 12); n > 0; --n) {
      std::vector<At> at; walk(*d, JA(), at);
      size_t pi = g.chance(45) ? 0 : g.below(at.size()); XMLNode& x = *at[pi].x; J P = arr(at[pi].p); const char* nm = NM[g.below(g.chance(90) ? 4 : 5)];
      bool big = at.size() > 14;
      switch(g.below(17)) {
      case 0: case 1: case 2: if(big) break; x.AddNode(nm); ev("AddNode", A(P, codes(nm)), A(), show(*d)); break;
      case 3: { size_t q = g.below(at.size()); std::vector<At> sub; walk(*at[q].x, JA(), sub); if(at.size() + sub.size() > 18 || !q) break;
        x.AddNode(*at[q].x); ev("AddCopy", A(P, arr(at[q].p)), A(), show(*d)); break; }
      case 4: { if(big) break; S t = blank() + (g.chance(20) ? comment() : S()) + elem(1); XMLNode y(t.c_str()); int k = g.below(4); if(k == 0) x.AddNode(y); else if(k == 1) { XMLNode z(std::move(y)); x.AddNode(z); } else if(k == 2) { XMLNode z("<b a=\"1\">2<a/></b>"); z = std::move(y); x.AddNode(z); } else { XMLNode z("<b a=\"1\">2<a/></b>"); z = y; x.AddNode(z); } ev("Graft", A(P, codes(t)), A(), show(*d)); break; }
      case 5: case 6: { S v = data(5); nm = NM[g.below(5)];
        if(g.chance(50)) { XMLValue* r = x.AddAttribute(nm); r->String = v; ev("AddAttr", A(P, codes(nm), codes(v), 0, 0), A(), show(*d)); }
        else { XMLValue y; y.Name = nm; y.String = v; y.Integer = g.below(1000); y.Float = y.Integer + 7; int i = (int)y.Integer; x.AddAttribute(y); ev("AddAttr", A(P, codes(nm), codes(v), i, i + 7), A(), show(*d)); } break; }
      case 7: { int k = g.below(x.GetNodes() + (g.chance(20) ? 2 : 0) + !x.GetNodes()); bool r = x.RemoveNode((size_t)k); ev("RemoveNode", A(P, k), A(r), show(*d)); break; }
      case 8: { bool r = x.RemoveNode(nm); ev("RemoveNodeN", A(P, codes(nm)), A(r), show(*d)); break; }
      case 9: { int k = g.below(x.GetAttributes() + (g.chance(20) ? 2 : 0) + !x.GetAttributes()); bool r = x.RemoveAttribute((size_t)k); ev("RemoveAttr", A(P, k), A(r), show(*d)); break; }
      case 10: { nm = NM[g.below(5)]; bool r = x.RemoveAttribute(nm); ev("RemoveAttrN", A(P, codes(nm)), A(r), show(*d)); break; }
      case 11: { if(g.chance(70)) { S v = data(6); x.SetValue(v.c_str()); ev("SetStr", A(P, codes(v)), A(), show(*d)); }
        else { int v = (int)g.range(-99999, 99999); if(g.chance(50)) x.SetValue((int64_t)v); else x.SetValue(v + (v < 0 ? -0.5 : 0.5)); ev("SetInt", A(P, v), A(codes(x.GetValue().String)), show(*d)); } break; }
      case 12: if(!g.chance(30)) break; if(g.chance(50)) { x.Clear(); ev("Clear", A(P), A(), show(*d)); } else { const char* y = g.chance(50) ? "xml" : "a1"; d->SetName(y); ev("SetName", A(codes(y)), A(), show(*d)); } break;
      case 13: { size_t q = g.below(at.size()); if(strcmp(at[q].x->GetName(), x.GetName()) || (at.size() > 10 && q <= pi)) break; x = *at[q].x; ev("Assign", A(P, arr(at[q].p)), A(), show(*d)); break; }
      case 14: { std::unique_ptr<XMLFile> o; int k = g.below(4); bool keep = true; J before = show(*d);
        if(k == 0) { o.reset(new XMLFile(*d)); } else if(k == 1) o.reset(new XMLFile(std::move(*d))), keep = false;
        else { o.reset(new XMLFile(g.chance(50) ? "<a><b c=\"1\"/><a/></a><b/>" : "")); if(k == 2) *o = *d; else *o = std::move(*d), keep = false; }
        if(keep) { J after = show(*d); if(after.s != before.s) { ev("CHANGED", A(), A(), after); } }
        d = std::move(o); ev("Renew", A(k), A(), show(*d)); break; }
      case 15: { S t = document(); if(t.size() > 420) break; if(g.chance(50)) d.reset(new XMLFile(t.c_str())); else { std::istringstream ss(t); d.reset(new XMLFile(ss)); } ev("Read", A(codes(t)), A(), show(*d)); break; }
      default: { bool pretty = g.chance(50); S w; if(g.chance(30)) { d->Write(file.c_str(), pretty); w = slurp(file); } else { std::ostringstream ss; d->Write(ss, pretty); w = ss.str(); }
        if(w.size() > 700) break; ev("Write", A(pretty), A(codes(w)), show(*d));
        if(g.chance(50)) { d.reset(new XMLFile(w.c_str())); ev("Read", A(codes(w)), A(), show(*d)); } }
      }
    }
    d.reset(); endRun();
  }
  unlink(file.c_str()); rmdir(dir.c_str());
  return finish();
}
