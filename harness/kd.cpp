// C18: KDTree.  Coordinates are logged in half units; queries list the ids reported, in order.
#include "vp.h"
#include <memory>
#include "bss-util/KDTree.h"
using namespace bss; using namespace vp;
struct It { float rect[4]; LLBase<It> list; KDNode<It>* node; int id; uint32_t canary; };
static const float* RECT(It* t) { return t->rect; }
static LLBase<It>& LIST(It* t) { return t->list; }
static KDNode<It>*& NODE(It* t) { return t->node; }
static std::vector<int> hits;
static void HIT(It* t) { hits.push_back(t->id); }
static const int N = 40;
template<class Alloc> struct D {
  typedef KDTree<It, &RECT, &LIST, &NODE, Alloc> C;
  C* c; std::vector<It*> it; std::vector<bool> in; Rng& g; int span, ext, q; int thr;
  D(Rng& r) : g(r) {}
  int coord() { return g.range(-span, span); }
  void rect(float* f) { int w = g.chance(60) ? g.below(ext + 1) : g.chance(50) ? 0 : g.below(2 * span + 1), h = g.chance(60) ? g.below(ext + 1) : g.chance(50) ? 0 : g.below(2 * span + 1); int x = coord(), y = coord(); f[0] = x / 2.0f; f[1] = y / 2.0f; f[2] = (x + w) / 2.0f; f[3] = (y + h) / 2.0f; }
  static J jr(const float* f) { return A((int)(f[0] * 2), (int)(f[1] * 2), (int)(f[2] * 2), (int)(f[3] * 2)); }
  void query(bool big) {
    float f[4]; rect(f); if(big) { f[0] = f[1] = -1000; f[2] = f[3] = 1000; } else if(g.chance(40)) { float n = g.below(span + 1) / 2.0f; f[2] += n; f[3] += n; } hits.clear();
    if(g.chance(30) && !big) { int k = g.below(N); if(in[k]) { for(int i = 0; i < 4; ++i) f[i] = it[k]->rect[i]; if(g.chance(50)) { f[0] = f[2]; f[1] = f[3]; f[2] += g.below(3) / 2.0f; f[3] += g.below(3) / 2.0f; } } }
    float w[4] = { f[0], f[1], f[2], f[3] };
    if(g.chance(50)) c->template Traverse<&HIT>(w); else if(g.chance(50)) c->TraverseAction(w, [](It* t) { hits.push_back(t->id); }); else { auto l = [](It* t) { hits.push_back(t->id); }; c->TraverseAction(w, l); }
    ev("Query", A(jr(f)), A(J(hits)), J(0));
  }
  void all() { hits.clear(); bool ok = true; c->TraverseAll([&](It* t) { It* prev = 0; for(; t; prev = t, t = t->list.next) { hits.push_back(t->id); if(t->list.prev != prev) ok = false; } }); ev("All", A(), A(J(hits), ok), J(0)); }
  void run(int kind) {
    span = kind == 0 ? 3 : kind == 1 ? 12 : 60; ext = kind == 0 ? 2 : kind == 1 ? 6 : 20; const int ths[] = { 20, 20, 0, 5, 50, 100, 1000 }; thr = ths[g.below(7)];
    int lim = kind == 0 ? 8 : kind == 1 ? 20 : N;
    it.clear(); in.assign(N, false); for(int i = 0; i < N; ++i) { It* t = (It*)malloc(sizeof(It)); memset(t, 0xCD, sizeof *t); t->id = i + 1; it.push_back(t); }
    beginRun("{\"thr\":" + std::to_string(thr) + "}"); c = thr == 20 ? new C() : new C(thr);
    int steps = 30 + g.below(kind == 2 ? 120 : 60); bool drain = false, sorted = g.chance(30); int sx = -span;
    for(int s = 0; s < steps; ++s) {
      if(g.chance(4)) drain = !drain;
      int k = g.below(lim), w = g.below(20);
      if(w < 9) {
        if(!in[k] && !(drain && g.chance(80))) { rect(it[k]->rect); if(sorted) { float d = it[k]->rect[2] - it[k]->rect[0]; it[k]->rect[0] = sx / 2.0f; it[k]->rect[2] = sx / 2.0f + d; if(++sx > 3 * span) sx = -span; }
          bool root = g.chance(12); float r0[4]; memcpy(r0, it[k]->rect, sizeof r0); if(root) c->InsertRoot(it[k]); else c->Insert(it[k]); in[k] = true; ev("Insert", A(k + 1, jr(r0)), A(), J(0)); }
        else if(in[k]) { c->Remove(it[k]); in[k] = false; ev("Remove", A(k + 1), A(), J(0)); if(g.chance(30)) { free(it[k]); It* t = (It*)malloc(sizeof(It)); memset(t, 0xCD, sizeof *t); t->id = k + 1; it[k] = t; } }
      }
      else if(w < 15) query(false);
      else if(w == 15) { query(true); all(); }
      else if(w == 16) { if(g.chance(40)) { if(in[k] && g.chance(60)) { KDNode<It>* n = it[k]->node; c->Rebalance(n); } else if(c->GetRoot() && c->GetRoot()->num) c->Rebalance(c->GetRoot()); ev("Keep", A(), A(), J(0)); } }
      else if(w == 17) { if(g.chance(50)) { c->Solve(); ev("Keep", A(), A(), J(0)); } }
      else if(w == 18) { if(g.chance(10)) { c->Clear(); in.assign(N, false); ev("Clear", A(), A(), J(0)); } else if(g.chance(20)) { static const uint32_t t2[] = { 0, 10, 20, 60 }; c->SetRBThreshold(t2[g.below(4)]); } }
      else if(g.chance(25)) { C* n; if(g.chance(50)) n = new C(std::move(*c)); else { n = new C(7); if(g.chance(50)) { It tmp; memset(&tmp, 0, sizeof tmp); n->Insert(&tmp); *n = std::move(*c); } else *n = std::move(*c); } delete c; c = n; ev("Keep", A(), A(), J(0)); }
      if(g.chance(8)) { query(true); }
    }
    query(true); for(int i = 0; i < 6; ++i) query(false); all();
    delete c; for(auto t : it) free(t);
    endRun();
  }
};
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Rng g(a.seed * 7919 + 18 + atoi(a.part.c_str()) * 104729); long b = a.budget ? a.budget : 40;
  for(long i = 0; i < b; ++i) for(int k = 0; k < 3; ++k) { D<StandardAllocator<KDNode<It>>> d(g); d.run(k); if(i % 2 == 0) { D<PolymorphicAllocator<KDNode<It>, BlockPolicy>> e(g); e.run(k); } }
  return finish();
}
