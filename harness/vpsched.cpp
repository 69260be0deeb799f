#include "vpsched.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <new>
#include <map>
#include <algorithm>

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __real_memset(void*, int, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
void vps_switch(void** save, void* to);
}
asm(R"(
.text
.globl vps_switch
.type vps_switch,@function
vps_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vps_switch,.-vps_switch
)");
namespace vps {
static const size_t ARENA = 64u << 20, STACK = 192u << 10; static const int MAXF = 24;
static const uintptr_t BASE = 0x200000000000ull; // fixed, so that addresses are the same in every run
static char* arena; static uint8_t* shadow; static size_t top, hiwater; static long nlive, nmalloc;
struct Blk { size_t n; };
static std::map<size_t, size_t>* blocks; // offset -> size of live blocks
static void amInit() {
  if(arena) return;
  arena = (char*)mmap((void*)BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if(arena == MAP_FAILED) { perror("arena"); _exit(3); }
  shadow = (uint8_t*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  blocks = new std::map<size_t, size_t>();
}
static inline bool inArena(const volatile void* p) { return (uintptr_t)p - BASE < ARENA; }
struct Fiber {
  void* sp = 0; char* stk = 0; std::function<void()> fn; bool done = false, started = false;
  bool blocked = false; uint64_t bepoch = 0;                 // spinning: waits for somebody to change memory
  std::function<bool()> ready;                               // hard blocked until ready()
  int prio = 0; long streak = 0;
  struct Seen { uintptr_t pc, addr; uint64_t val; int n; }; Seen seen[64]; int nseen = 0; uint64_t sepoch = 0;
};
static Fiber F[MAXF]; static int nf; static int cur = -1; static void* schedSp; static bool sched_on = false, active = false, quiet = true;
static uint64_t epoch; static long steps, lastChange; static Strategy S; static Outcome O; static bool wantOthers; static uint64_t rs;
static std::vector<long> changeAt; static size_t prei; static int prioCounter; static bool aborted; static int desperate;
static inline uint64_t rnd() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static void die(const std::string& what) { // leave the run for good
  quiet = true; aborted = true; O.ok = false; O.what = what; void* dummy; vps_switch(&dummy, schedSp);
  abort();
}
static bool runnable(int i) {
  Fiber& f = F[i];
  if(f.done) return false;
  if(f.ready) { bool q = quiet; quiet = true; bool r = f.ready(); quiet = q; return r; }
  if(f.blocked && f.bepoch == epoch) return false;
  return true;
}
static void switchTo(int t) {
  if(t == cur) return;
  int me = cur; bool q = quiet; cur = t; vps_switch(&F[me].sp, F[t].sp); quiet = q;
}
static int list(int* r, bool withCur) { int n = 0; for(int k = 0; k < nf; ++k) { if(k == cur && !withCur) continue; if(runnable(k)) r[n++] = k; } return n; }
// Choose who runs next.  mayStay: the current fiber can continue.
static void choose(bool mayStay) {
  int r[MAXF]; 
  ++steps;
  if(steps > 400000) die("STUCK");
  bool stay = mayStay && runnable(cur);
  int n = list(r, false);
  if(!n && !stay) {
    // nobody can move: spinners may still be in bounded retry loops, so give everybody a long extra chance
    bool any = false; for(int k = 0; k < nf; ++k) if(!F[k].done && !F[k].ready) any = true;
    if(!any || steps - lastChange > 6000) die("STUCK");
    ++desperate; ++epoch; // wakes spinners; lastChange is untouched
    n = list(r, false); stay = runnable(cur);
    if(!n && !stay) die("STUCK");
  }
  if(wantOthers && (long)O.others.size() < 4000) O.others.push_back(stay ? n : -n);
  if(stay && ++F[cur].streak > 400) { if(n) { F[cur].streak = 0; switchTo(r[rnd() % n]); return; } F[cur].streak = 0; }
  switch(S.kind) {
  case RANDOM:
    if(!stay) { switchTo(r[rnd() % n]); return; }
    if(n && (int)(rnd() % 100) < S.switchPct) { F[cur].streak = 0; switchTo(r[rnd() % n]); }
    return;
  case PCT: {
    for(long c : changeAt) if(c == steps) F[cur].prio = --prioCounter; // drop below everybody
    int best = stay ? cur : -1;
    for(int k = 0; k < n; ++k) if(best < 0 || F[r[k]].prio > F[best].prio) best = r[k];
    switchTo(best); return; }
  case PREEMPT:
    if(prei < S.pre.size() && S.pre[prei].first <= steps) { int k = S.pre[prei].second; ++prei; if(n) { F[cur].streak = 0; switchTo(r[k % n]); return; } }
    if(!stay) switchTo(r[S.seed % n]);
    return;
  }
}
static void fiberMain() {
  int me = cur; quiet = false; F[me].fn(); quiet = true;
  F[me].done = true; epoch++; lastChange = steps;
  if(me == 0) { void* d; vps_switch(&d, schedSp); abort(); }
  choose(false); abort();
}
static void prep(int i, const std::function<void()>& f) {
  Fiber& x = F[i];
  if(!x.stk) { x.stk = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(x.stk, 4096, PROT_NONE); }
  x.fn = f; x.done = x.blocked = false; x.ready = nullptr; x.nseen = 0; x.streak = 0; x.prio = (int)(rnd() % 1000) + 1000;
  uintptr_t t = ((uintptr_t)x.stk + STACK - 64) & ~(uintptr_t)15; void** p = (void**)t;
  *--p = 0; *--p = (void*)fiberMain; for(int k = 0; k < 6; ++k) *--p = 0; x.sp = p;
}
Outcome run(const Strategy& s, const std::function<void()>& body, bool wo) {
  amInit(); S = s; O = Outcome(); wantOthers = wo; rs = s.seed * 0x9E3779B97F4A7C15ull + 12345; epoch = 1; steps = lastChange = 0; prei = 0; prioCounter = 0; desperate = 0; aborted = false; sched_on = false;
  if(top) { memset(shadow, 0, top); memset(arena, 0, top); } top = 0; nlive = nmalloc = 0; blocks->clear();
  changeAt.clear(); if(s.kind == PCT) for(int k = 0; k < s.depth; ++k) changeAt.push_back(1 + (long)(rnd() % (s.length ? s.length : 1)));
  nf = 1; prep(0, body); cur = 0; active = true; quiet = false;
  vps_switch(&schedSp, F[0].sp);
  active = false; quiet = true; sched_on = false; cur = -1; O.steps = steps;
  return O;
}
int spawn(const std::function<void()>& f) { bool q = quiet; quiet = true; if(nf >= MAXF) die("SPAWN"); int i = nf++; prep(i, f); ++epoch; lastChange = steps; quiet = q; return i; }
void concurrent() { sched_on = true; }
static void waitReady(const std::function<bool()>& c) { // hard block
  bool q = quiet; quiet = true; F[cur].ready = c; int me = cur;
  while(!c()) choose(false);
  F[me].ready = nullptr; quiet = q;
}
void joinAll() {
  sched_on = true; int me = cur;
  waitReady([me]() { for(int k = 0; k < nf; ++k) if(k != me && !F[k].done) return false; return true; });
  sched_on = false;
}
int self() { return cur; }
int alive() { int n = 0; for(int k = 0; k < nf; ++k) if(k != cur && !F[k].done) ++n; return n; }
void waitUntil(const std::function<bool()>& c) { waitReady(c); }
Quiet::Quiet() : old(quiet) { quiet = true; }
Quiet::~Quiet() { quiet = old; }
long liveBlocks() { return nlive; }
size_t liveBytes() { size_t n = 0; for(auto& b : *blocks) n += b.second; return n; }
long mallocs() { return nmalloc; }
size_t off(const void* p) { return inArena(p) ? (uintptr_t)p - BASE + 1 : 0; }
size_t liveTo(const void* p) { if(!inArena(p)) return 0; size_t o = (uintptr_t)p - BASE, n = 0; while(o + n < top && shadow[o + n] == 1) ++n; return n; }

static inline bool onStack(const volatile void* p) { Fiber& f = F[cur]; return (uintptr_t)p - (uintptr_t)f.stk < STACK; }
static inline void checkMem(const volatile void* p, size_t n, bool write) {
  if(!inArena(p)) { if((uintptr_t)p < 65536) die("BADMEM"); return; }
  size_t o = (uintptr_t)p - BASE;
  for(size_t i = 0; i < n; ++i) if(shadow[o + i] != 1) { if(getenv("VPS_TRACE")) fprintf(stderr, "BADMEM %s off=%zu n=%zu state=%d fiber=%d pc=%p\n", write ? "write" : "read", o, n, shadow[o + i], cur, __builtin_return_address(0)), __builtin_trap(); die("BADMEM"); }
}
static inline uint64_t peek(const volatile void* p, size_t n) { uint64_t v = 0; memcpy(&v, (const void*)p, n > 8 ? 8 : n); if(n == 16) v ^= ((const uint64_t*)p)[1] * 0x9E3779B97F4A7C15ull; return v; }
static inline void changed() { ++epoch; lastChange = steps; F[cur].streak = F[cur].streak; }
// Before an access.  Returns after this fiber has been chosen to perform it.
static void access(const volatile void* p, size_t n, bool plainWrite, uintptr_t pc) {
  if(quiet || !active) return;
  if(onStack(p)) return;
  if(sched_on) { quiet = true; choose(true); quiet = false; }
  checkMem(p, n, plainWrite);
  if(plainWrite) changed();
}
// After a read-like access that changed nothing: spin detection.
static void sawRead(const volatile void* p, size_t n, uintptr_t pc) {
  if(quiet || !active || !sched_on || onStack(p)) return;
  Fiber& f = F[cur]; uint64_t v = peek(p, n);
  if(f.sepoch != epoch) { f.sepoch = epoch; f.nseen = 0; }
  for(int i = 0; i < f.nseen; ++i) if(f.seen[i].pc == pc && f.seen[i].addr == (uintptr_t)p && f.seen[i].val == v) {
    if(++f.seen[i].n >= 3) { f.blocked = true; f.bepoch = epoch; f.seen[i].n = 1; quiet = true; int me = cur; choose(false); F[me].blocked = false; quiet = false; }
    return;
  }
  if(f.nseen < 64) { f.seen[f.nseen++] = { pc, (uintptr_t)p, v, 1 }; }
}
void point(const volatile void* p, int size, bool write) { access(p, size, false, (uintptr_t)__builtin_return_address(0)); }
void asmDone(bool ch, const volatile void* p, int n) { if(quiet || !active) return; if(ch) changed(); else sawRead(p, n, (uintptr_t)__builtin_return_address(0)); }
static void range(const volatile void* p, size_t n, bool w, uintptr_t pc) { if(n) access(p, n, w, pc); }

// ---- heap ----
static void* amAlloc(size_t al, size_t n, bool zero) {
  if(al < 16) al = 16;
  size_t o = (top + 48 + al - 1) & ~(al - 1);
  if(o + n + 64 > ARENA) die("OOM");
  top = o + (n ? n : 1) + 32; memset(shadow + o, 1, n ? n : 1);
  memset(arena + o, zero ? 0 : 0xA5, n); (*blocks)[o] = n; ++nlive; ++nmalloc;
  return arena + o;
}
static void amFree(void* p) {
  size_t o = (uintptr_t)p - BASE; auto it = blocks->find(o);
  if(it == blocks->end()) die("BADFREE");
  memset(shadow + o, 2, it->second ? it->second : 1); blocks->erase(it); --nlive;
}
static bool tracked() { return active && !quiet && !S.realHeap; }
struct QQ { bool o; QQ() : o(quiet) { quiet = true; } ~QQ() { quiet = o; } };
}
using namespace vps;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void* __wrap_malloc(size_t n) { if(!tracked()) return __real_malloc(n); QQ q; return amAlloc(16, n, false); }
void* __wrap_calloc(size_t a, size_t b) { if(!tracked()) return __real_calloc(a, b); QQ q; return amAlloc(16, a * b, true); }
void __wrap_free(void* p) {
  if(!p) return;
  if(!inArena(p)) { __real_free(p); return; }
  if(active && !quiet && sched_on) { quiet = true; choose(true); quiet = false; }
  QQ q; amFree(p); ++epoch; lastChange = steps;
}
void* __wrap_realloc(void* p, size_t n) {
  if(!p) return __wrap_malloc(n);
  if(!inArena(p)) return __real_realloc(p, n);
  QQ q; auto it = blocks->find((uintptr_t)p - BASE); if(it == blocks->end()) die("BADFREE");
  size_t old = it->second; void* r = amAlloc(16, n, false); memcpy(r, p, old < n ? old : n); amFree(p); return r;
}
size_t __real_malloc_usable_size(void*);
size_t __wrap_malloc_usable_size(void* p) { if(!p) return 0; if(!inArena(p)) return __real_malloc_usable_size(p); auto it = blocks->find((uintptr_t)p - BASE); return it == blocks->end() ? 0 : it->second; }
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if(!tracked()) return __real_posix_memalign(r, al, n); QQ q; *r = amAlloc(al, n, false); return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { if(!tracked()) return __real_aligned_alloc(al, n); QQ q; return amAlloc(al, n, false); }
void* __wrap_memset(void* p, int c, size_t n) { range(p, n, true, PC); return __real_memset(p, c, n); }
void* __wrap_memcpy(void* p, const void* s, size_t n) { range(s, n, false, PC); range(p, n, true, PC); return __real_memcpy(p, s, n); }
void* __wrap_memmove(void* p, const void* s, size_t n) { range(s, n, false, PC); range(p, n, true, PC); return __real_memmove(p, s, n); }

// ---- threads, semaphores, mutexes ----
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) {
  if(!active) { fprintf(stderr, "pthread_create outside a run\n"); _exit(3); }
  int i; { bool o = quiet; i = spawn([f, a]() { f(a); }); quiet = o; }
  *t = (pthread_t)(uintptr_t)(i + 1); sched_on = true; return 0;
}
int pthread_join(pthread_t t, void** r) { int k = (int)(uintptr_t)t - 1; if(k < 0 || k >= nf) return ESRCH; bool q = quiet; quiet = true; waitReady([k]() { return F[k].done; }); quiet = q; if(r) *r = 0; return 0; }
int pthread_detach(pthread_t) { return 0; }
int sem_init(sem_t* s, int, unsigned v) throw() { memset(s, 0, sizeof *s); *(volatile int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) throw() { return 0; }
int sem_post(sem_t* s) throw() { if(active && !quiet) access(s, 4, true, PC); ++*(int*)s; return 0; }
int sem_trywait(sem_t* s) throw() { if(active && !quiet) access(s, 4, true, PC); if(*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; return 0; }
int sem_wait(sem_t* s) {
  if(active && !quiet) access(s, 4, true, PC);
  if(*(int*)s <= 0) waitReady([s]() { return *(volatile int*)s > 0; });
  --*(int*)s; return 0;
}
int sem_timedwait(sem_t* s, const timespec*) { if(active && !quiet) access(s, 4, true, PC); if(*(int*)s <= 0) { errno = ETIMEDOUT; return -1; } --*(int*)s; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if(!active || quiet) return active ? 0 : __real_pthread_mutex_lock(m);
  access(m, 4, true, PC); if(*(int*)m) waitReady([m]() { return *(volatile int*)m == 0; }); *(int*)m = 1; return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if(!active || quiet) return active ? 0 : __real_pthread_mutex_trylock(m); access(m, 4, true, PC); if(*(int*)m) return EBUSY; *(int*)m = 1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if(!active || quiet) return active ? 0 : __real_pthread_mutex_unlock(m); access(m, 4, true, PC); *(int*)m = 0; return 0; }
int sched_yield() throw() { if(active && !quiet && sched_on) { quiet = true; choose(true); quiet = false; } return 0; }
int __wrap_nanosleep(const timespec*, timespec*) { return sched_yield(); }
int __wrap_usleep(unsigned) { return sched_yield(); }
int __wrap_clock_nanosleep(int, int, const timespec*, timespec*) { return sched_yield(); }

// ---- TSan call-outs ----
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); } void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define RW(n) \
void __tsan_read##n(void* p) { access(p, n, false, PC); sawRead(p, n, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); sawRead(p, n, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); sawRead(p, n, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { range(p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { range(p, n, true, PC); }
}
#define RMW(T, B, NAME, EXPR) T __tsan_atomic##B##_##NAME(volatile T* p, T v, int) { access(p, sizeof(T), false, PC); T o = *p; T n = (EXPR); *p = n; if(n != o) { if(active && !quiet) changed(); } else sawRead(p, sizeof(T), PC); return o; }
#define AT(T, B) extern "C" { \
T __tsan_atomic##B##_load(const volatile T* p, int) { access(p, sizeof(T), false, PC); T v = *p; sawRead(p, sizeof(T), PC); return v; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int) { access(p, sizeof(T), false, PC); if(*p != v && active && !quiet) changed(); *p = v; } \
RMW(T, B, exchange, v) RMW(T, B, fetch_add, o + v) RMW(T, B, fetch_sub, o - v) RMW(T, B, fetch_and, o & v) RMW(T, B, fetch_or, o | v) RMW(T, B, fetch_xor, o ^ v) RMW(T, B, fetch_nand, ~(o & v)) \
bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access(p, sizeof(T), false, PC); T o = *p; if(o == *c) { *p = v; if(o != v) { if(active && !quiet) changed(); } else sawRead(p, sizeof(T), PC); return true; } *c = o; sawRead(p, sizeof(T), PC); return false; } \
bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) { access(p, sizeof(T), false, PC); T o = *p; if(o == *c) { *p = v; if(o != v) { if(active && !quiet) changed(); } else sawRead(p, sizeof(T), PC); return true; } *c = o; sawRead(p, sizeof(T), PC); return false; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access(p, sizeof(T), false, PC); T o = *p; if(o == c) { *p = v; if(o != v) { if(active && !quiet) changed(); } else sawRead(p, sizeof(T), PC); } else sawRead(p, sizeof(T), PC); return o; } }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64) AT(unsigned __int128, 128)
extern "C" void __tsan_atomic_thread_fence(int) {} 
extern "C" void __tsan_atomic_signal_fence(int) {}
// operator new/delete: tracked like malloc
void* operator new(size_t n) { return __wrap_malloc(n); } void* operator new[](size_t n) { return __wrap_malloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n); }
void* operator new(size_t n, std::align_val_t a) { if(!tracked()) return __real_aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); QQ q; return amAlloc((size_t)a, n, false); }
void operator delete(void* p) noexcept { __wrap_free(p); } void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); } void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
