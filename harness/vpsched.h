// Controlled scheduler for the concurrent drivers.  The driver is compiled with -fsanitize=thread, but linked with
// vpsched.cpp instead of the TSan run-time: every memory access of the code under test calls into the scheduler,
// which runs all "threads" as fibers on one OS thread and decides at each access who continues (sequentially
// consistent interleavings).  Heap memory comes from an arena whose bytes are tracked: an access outside a live
// heap block ends the run with a BADMEM event, a run in which nobody can make progress ends with STUCK.
#ifndef VPSCHED_H
#define VPSCHED_H
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <vector>
#include <string>
namespace vps {
enum Kind { RANDOM, PCT, PREEMPT };
struct Strategy {
  bool realHeap = false;                                         // warm-up run: memory from the ordinary heap, which outlives the run
  Kind kind = RANDOM; uint64_t seed = 1; int switchPct = 50;   // RANDOM: chance to switch at a point
  int depth = 2; long length = 200;                              // PCT: change points within the first length steps
  std::vector<std::pair<long, int>> pre;                         // PREEMPT: at step n switch to the k-th other runnable fiber
};
struct Outcome { bool ok = true; std::string what; long steps = 0; std::vector<int> others; }; // others[i]: number of other runnable fibers at step i (PREEMPT enumeration)
// Runs body as fiber 0 ("main") with memory checking; inside it spawn()/joinAll() run the scheduled fibers.
Outcome run(const Strategy& s, const std::function<void()>& body, bool wantOthers = false);
int spawn(const std::function<void()>& f);      // only from inside body
void concurrent();                              // start interleaving: the calling fiber becomes a scheduled one
void joinAll();                                 // caller waits for all other fibers, then runs alone
int self();
int alive();                                    // fibers other than the caller that have not ended
void waitUntil(const std::function<bool()>& c); // hard wait (recording code, not scheduled work)
void point(const volatile void* p, int size, bool write);       // explicit scheduling point (inline asm)
void asmDone(bool changed, const volatile void* p, int size);                                   // after an explicit write: did memory change?
struct Quiet { bool old; Quiet(); ~Quiet(); };  // recording code: not scheduled, not tracked
long liveBlocks();                              // heap blocks of this run still allocated
size_t liveBytes();                             // their total size
long mallocs();                                 // heap blocks ever allocated in this run
size_t off(const void* p);                      // arena offset of a heap address (deterministic), or 0
size_t liveTo(const void* p);                   // number of contiguous live bytes from p on (0 if p is not live)
}
#define VP_RECORD vps::Quiet vpq__
#endif
