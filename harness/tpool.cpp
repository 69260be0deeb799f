// Interleavings of the thread pool, for spec/TaskTrace.tla.
#include "conc.h"
#include <memory>
#include <atomic>
#include "bss-util/bss_util.h"
#include "bss-util/ThreadPool.h"
using namespace vp;
using namespace bss;
struct Job { int id, n, kind, arg; std::vector<int> kids; bool meet; }; // kind 0: AddTask, 1: AddFunc
static std::vector<Job> jobs; static ThreadPool* pool; static int jid[64];
struct Own { // argument stored by value in the pool: owns heap memory
  int* p; Own(int x) : p((int*)malloc(sizeof(int))) { *p = x; }
  Own(const Own& o) : p((int*)malloc(sizeof(int))) { *p = *o.p; } Own(Own&& o) : p(o.p) { o.p = 0; }
  ~Own() { if(p) free(p); p = 0; } };
static void submit(int id, int parent); static int workers;
static int volatile shared_work; static std::atomic<int> arrived; static int asked, ended; // executions asked for / ended
static void body(int id, int arg) {
  note("S", A(vps::self(), id, arg));
  shared_work = shared_work + 1;
  if(jobs[id].meet) { arrived.fetch_add(1); while(arrived.load() < jobs[id].n); } // all instances have to run at once
  for(int k : jobs[id].kids) submit(k, id);
  note("F", A(vps::self(), id)); { VP_RECORD; ++ended; }
}
static void taskfn(void* p) { int id = (int)((int*)p - jid); body(id, jid[id]); }
static int funcfn(int id, Own o, short extra) { body(id, *o.p + extra); return id; }
static void voidfn(Own o) { body(*o.p / 1000, *o.p % 1000); }
static void submit(int id, int parent) {
  const Job& j = jobs[id];
  inv("Add", A(id, j.n, j.arg, parent));
  { VP_RECORD; asked += j.n ? j.n : workers; }
  if(j.kind == 0) pool->AddTask(taskfn, &jid[id], (size_t)j.n);
  else if(j.kind == 1) pool->AddFunc<int, int, Own, short>(funcfn, id, Own(j.arg - 3), 3);
  else pool->AddFunc<void, Own>(voidfn, Own(id * 1000 + j.arg));
  ret();
}
struct Op { char k; int id; };
int main(int argc, char** argv) {
  Args a = parse(argc, argv); Explorer x(a.seed * 104729 + 3); Rng g(a.seed * 131 + 11);
  { // the task queue's nodes come from a pool shared by the whole process: let it grow once, outside the recorded runs
    vps::Strategy w; w.realHeap = true; jobs.resize(1); static int dummy;
    vps::run(w, [] { ThreadPool* p = new ThreadPool((size_t)1); p->AddTask([](void*) {}, &dummy, 400); p->Wait(); delete p; });
  }
  for(long i = 0; i < a.budget && !x.bad; ++i) {
    int W = g.range(1, 3), nthr = g.chance(35) ? 2 : 1, extra = 0;
    jobs.clear(); jobs.push_back({});
    std::vector<std::vector<Op>> prog(nthr);
    auto mk = [&](bool kid) { Job j; j.id = (int)jobs.size(); j.kind = g.below(4) < 2 ? 0 : 1 + g.below(2); j.n = j.kind ? 1 : g.chance(50) ? 1 : g.range(2, 3); j.arg = 10 + j.id * 7; jid[j.id] = j.arg; j.meet = false; jobs.push_back(j); return j.id; };
    for(int t = 0; t < nthr; ++t) {
      int n = g.range(1, nthr == 2 ? 2 : 4);
      for(int k = 0; k < n; ++k) {
        int id = mk(false);
        if(jobs.size() < 8 && g.chance(30)) { int c = mk(true); jobs[id].kids.push_back(c); if(jobs.size() < 8 && g.chance(30)) { int d = mk(true); jobs[g.chance(50) ? c : id].kids.push_back(d); } }
        prog[t].push_back({ 'a', id });
        if(g.chance(35)) prog[t].push_back({ 'w', 0 });
        if(t == 0 && W + extra < 4 && g.chance(8)) { prog[t].push_back({ 't', 0 }); ++extra; }
      }
      if(g.chance(40)) prog[t].push_back({ 'w', 0 });
    }
    if(nthr == 1 && !extra && g.chance(15)) { int id = mk(false); jobs[id].kind = 0; jobs[id].n = 0; prog[0].push_back({ 'a', id }); } // 0 instances: once per worker
    if(W > 1 && g.chance(40)) { int id = prog[0][0].id; jobs[id].kind = 0; jobs[id].n = W; jobs[id].meet = true; jobs[id].kids.clear(); }
    int last = g.below(3);
    bool dflt = i % 12 == 5 && !extra && ThreadPool::IdealWorkerCount() <= 10; // the pool that picks its own number of workers
    if(dflt) { for(auto& j : jobs) if(j.meet) { j.meet = false; j.n = 1; } W = (int)ThreadPool::IdealWorkerCount(); }
    auto doProg = [&](int t) { for(auto& o : prog[t]) {
      if(o.k == 'a') submit(o.id, 0);
      else if(o.k == 't') { pool->AddThreads(1); }
      else { inv("Wait"); pool->Wait(); ret(); } } };
    x.explore("{\"kind\":\"pool\",\"workers\":" + std::to_string(W) + "}", [&] {
      pool = dflt ? new ThreadPool() : new ThreadPool((size_t)W); workers = W; { VP_RECORD; asked = ended = 0; arrived.store(0); }
      bool fin = nthr == 1;
      if(nthr == 2) vps::spawn([&] { doProg(1); VP_RECORD; fin = true; });
      doProg(0);
      if(!fin) vps::waitUntil([&] { return fin; });
      if(last == 1) vps::waitUntil([&] { return asked == ended; }); // without helping
      if(last == 0) { inv("Wait"); pool->Wait(); ret();
      note("Busy", A(), A((int)pool->Busy())); }
      delete pool;
      note("End", A(), A(vps::alive(), (int)vps::liveBlocks()));
    }, 150, 120, 250);
  }
  fprintf(stderr, "schedules=%ld bad=%ld maxlen=%ld\n", x.schedules, x.bad, x.maxlen);
  return finish();
}
