// Deterministic simulator runtime.
//
// One OS process, one runnable task at a time.  Tasks are real threads (so that
// thread-local storage inside MLIR/LLVM behaves as in production) which are
// parked on a futex and released one at a time: *who* runs next is decided only
// by the seeded scheduler below.  Every mutex / rwlock / once / static guard
// operation, every atomic operation and (with a run-chosen probability) every
// plain memory access of the code compiled with -fsanitize=thread is a
// potential preemption point.
#ifndef VERIF_SIMRT_H
#define VERIF_SIMRT_H
#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int kMaxTasks = 24;
constexpr int kMaxDecisions = 1 << 16;
constexpr int kMaxProbes = 64;

enum DecisionKind : uint32_t { DK_SWITCH = 0, DK_FAULT = 1 };

struct Decision {
  uint64_t ev;    // global event number at which the decision was taken
  uint32_t kind;  // DecisionKind
  uint32_t value; // task to run / fault kind
};

enum FaultKind : uint32_t {
  F_STALL = 0,    // a runnable task is kept off the cpu for a while
  F_CAS = 1,      // weak compare-exchange fails spuriously
  F_LATE = 2,     // a pool worker starts its work late
  F_USER = 3,     // >= F_USER: defined by the harness
  F_COUNT = 24
};

// How one run is scheduled.  Everything is derived from `seed`.
struct Config {
  uint64_t seed = 1;
  int strategy = 0;       // 0 uniform,1 sticky,2 pct,3 round robin,4 serial,5 starve
  uint32_t stickyInv = 4; // switch probability 1/stickyInv at sync points
  uint32_t accessMean = 0; // mean distance between preemptions at plain accesses
  int pctDepth = 2;
  uint32_t pctLen = 1000;
  int starved = -1;
  uint32_t stallInv = 0; // stall probability 1/stallInv per decision
  uint32_t casInv = 0;   // spurious CAS failure probability
  uint32_t lateInv = 0;
  uint32_t userFaultInv = 0;
  int allocPolicy = 0; // 0 lifo, 1 fifo, 2 random slot, 3 quarantine
  int workers = 4;
  uint64_t maxEvents = 400000000ull;
  bool raceCheck = true;
  bool memCheck = true;
  // replay: explicit decisions instead of PRNG draws
  bool replay = false;
  const Decision *decisions = nullptr;
  uint32_t numDecisions = 0;
};

enum Status : uint32_t { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INTERNAL = 3 };

struct Result {
  volatile uint32_t status;
  char vclass[96];
  char message[6000];
  uint64_t events;
  uint64_t syncPoints;
  uint64_t switches;
  uint64_t preemptions; // switches away from a still runnable task
  uint64_t hash;        // hash over the whole event log
  uint64_t schedHash;   // hash over (task, point) of every switch
  uint64_t contended;   // lock acquisitions that had to wait
  uint64_t poolTasks;
  uint64_t maxRunnable;
  uint64_t racesChecked;
  uint64_t faults[F_COUNT];
  uint64_t probes[kMaxProbes];
  uint32_t numDecisions;
  uint32_t decisionsTruncated;
  Decision decisions[kMaxDecisions];
  char extra[4096]; // free-form, harness supplied (workload digest, outcome)
};

void initProcess();            // reserve arenas, once, before anything else
void setResult(Result *r);     // shared page
Result &result();
void enterBootArena();         // allocations go to the boot arena
// Runs fn(arg) as simulated main task under `cfg`; returns when it is done.
void run(const Config &cfg, void (*fn)(void *), void *arg);

bool active();                 // inside a simulated run
int self();                    // current task id
const Config &config();
// Turn all instrumentation off/on for oracle code executed in a simulated task.
struct Pause {
  bool prev;
  Pause();
  ~Pause();
};

// Simulated caller threads.
int spawn(void (*fn)(void *), void *arg, const char *name);
void instrument(bool on); // of the current task
// Whether exceeding the budget of events and memory makes the run inconclusive
// rather than a violation.
void costly(bool on);
void join(int task);
void yieldPoint(uint32_t tag); // explicit scheduling point
bool userFault(uint32_t kind); // coin for a harness-defined fault (recorded)
uint64_t eventNow();
void probe(int id);
void liveTasks(int delta);     // tasks that may run concurrently, not yet joined

// Block the current task until *word != 0 (no busy waiting).
void blockOn(const void *key);
void wakeAll(const void *key);
void hbRelease(const void *key);
void hbAcquire(const void *key);

// Record a violation and terminate the run.
[[noreturn]] void violation(const char *vclass, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void internalError(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));

// Small PRNG shared by runtime and harness.
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) {
    s[0] = splitmix(seed);
    s[1] = splitmix(seed);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    uint64_t r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo + 1));
  }
  bool chance(uint32_t inv) { return inv && below(inv) == 0; }
};

} // namespace sim
#endif
