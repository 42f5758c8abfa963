#include <dlfcn.h>
// See simrt.h.  This file is compiled WITHOUT instrumentation.
#include "simrt.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end;

namespace sim {
namespace {

//===--------------------------------------------------------------------===//
// Arenas and shadow
//===--------------------------------------------------------------------===//
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr uintptr_t kBootSize = 1ull << 30;
constexpr uintptr_t kSimBase = kBase + kBootSize;
constexpr uintptr_t kSimSize = 2ull << 30;
constexpr uintptr_t kStackBase = kSimBase + kSimSize;
constexpr uintptr_t kStackSize = 64ull << 20;
constexpr uintptr_t kRegionEnd = kStackBase + kStackSize * kMaxTasks;
constexpr uintptr_t kRegionSize = kRegionEnd - kBase;

struct Cell {
  uint32_t pc;
  uint32_t clk;
  uint8_t tid;
  uint8_t mask;
  uint8_t flags; // 1 valid, 2 write, 4 atomic
  uint8_t pad;
};
constexpr int kCells = 4;
struct Granule {
  Cell c[kCells];
};
Granule *gShadow;      // one per 8 bytes of the region
uint8_t *gState;       // valid bytes of each granule (heap only)
bool gReady = false;

// Globals of the executable: a direct mapped table.
struct GlobGranule {
  uintptr_t addr;
  Granule g;
};
constexpr size_t kGlobSlots = 1 << 16;
GlobGranule *gGlob;

enum : uint32_t { HDR_LIVE = 0xA110CA7E, HDR_FREE = 0xF4EEB10C };
struct Hdr {
  uint64_t size; // requested
  uint32_t cls;
  uint32_t magic;
};
static_assert(sizeof(Hdr) == 16);

constexpr int kNumClasses = 64;
size_t gClassSize[kNumClasses];
int classOf(size_t n) {
  if (n == 0)
    n = 1;
  if (n <= 512)
    return (int)((n + 15) / 16) - 1;
  for (int c = 32; c < kNumClasses; ++c)
    if (gClassSize[c] >= n)
      return c;
  return -1;
}

struct FreeNode {
  FreeNode *next;
};
struct Arena {
  uintptr_t base, cur, end;
  FreeNode *head[kNumClasses];
  FreeNode *tail[kNumClasses];
  uint32_t count[kNumClasses];
} gBoot, gSim;
bool gUseSim = false;

bool inRegion(uintptr_t a) { return a - kBase < kRegionSize; }
bool inHeap(uintptr_t a) { return a - kBase < kBootSize + kSimSize; }

void setState(uintptr_t p, size_t n) {
  size_t g = (p - kBase) >> 3;
  size_t full = n >> 3;
  memset(gState + g, 8, full);
  if (n & 7)
    gState[g + full] = n & 7;
}

//===--------------------------------------------------------------------===//
// Tasks
//===--------------------------------------------------------------------===//
enum TState : uint8_t { T_UNUSED, T_RUNNABLE, T_BLOCKED, T_DONE };
struct Task {
  int id;
  TState st;
  std::atomic<int> go;
  const void *key; // blocked on
  void (*fn)(void *);
  void *arg;
  const char *name;
  uint64_t stalledUntil; // sync point number
  uint64_t prio;
  uint32_t vc[kMaxTasks];
  uint32_t pendingAcq[kMaxTasks];
  uint32_t relFence[kMaxTasks];
  bool hasRelFence;
  pthread_t th;
};
Task gTask[kMaxTasks];
int gNumTasks = 0;
int gCur = 0;
__thread int tSelf = -1;
bool gActive = false; // a simulated run is going on
__thread bool tInstr = false; // instrumentation of this task is on
int gLiveOther = 0;   // tasks besides main that are not joined/idle

Config gCfg;
Result *gRes;
Result gDummy;
Rng gRng;       // schedule decisions
Rng gAllocRng;  // allocation placement
uint64_t gEv = 0;
uint64_t gSync = 0;
int64_t gCountdown = 0;
uint64_t gHash, gSchedHash;
uint32_t gReplayPos = 0;
uint64_t gPctChange[16];
int gPctN = 0;
uint64_t gPctLow = 0;
int gStopping = 0;

inline void mix(uint64_t v) {
  gHash = (gHash ^ v) * 0x9FB21C651E98DF25ull;
  gHash ^= gHash >> 29;
}

long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
void futexWait(std::atomic<int> *w, int v) {
  rawSyscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
void futexWake(std::atomic<int> *w) {
  rawSyscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

void park(Task &t) {
  while (!t.go.load(std::memory_order_acquire))
    futexWait(&t.go, 0);
  t.go.store(0, std::memory_order_relaxed);
}
void release(Task &t) {
  t.go.store(1, std::memory_order_release);
  futexWake(&t.go);
}

void record(uint32_t kind, uint32_t value) {
  if (gRes->numDecisions < (uint32_t)kMaxDecisions)
    gRes->decisions[gRes->numDecisions++] = {gEv, kind, value};
  else
    gRes->decisionsTruncated = 1;
}

// Next replay decision for the current event, of the given kind, or -1.
int replayAt(uint32_t kind) {
  while (gReplayPos < gCfg.numDecisions &&
         gCfg.decisions[gReplayPos].ev < gEv)
    ++gReplayPos;
  if (gReplayPos < gCfg.numDecisions &&
      gCfg.decisions[gReplayPos].ev == gEv &&
      gCfg.decisions[gReplayPos].kind == kind)
    return (int)gCfg.decisions[gReplayPos++].value;
  return -1;
}

void resetCountdown() {
  if (gCfg.replay || gCfg.accessMean == 0)
    gCountdown = INT64_MAX;
  else
    gCountdown = 1 + (int64_t)gRng.below(2 * (uint64_t)gCfg.accessMean);
}

void deadlock() {
  char buf[2000];
  int n = 0;
  for (int i = 0; i < gNumTasks; ++i)
    n += snprintf(buf + n, sizeof(buf) - n, " [%s#%d %s key=%p]",
                  gTask[i].name, i,
                  gTask[i].st == T_DONE      ? "done"
                  : gTask[i].st == T_BLOCKED ? "blocked"
                                             : "runnable",
                  gTask[i].key);
  violation("deadlock", "no task can run:%s", buf);
}

// Choose who runs next.  `curOk`: the current task may continue.
int choose(bool atAccess) {
  int run[kMaxTasks], n = 0;
  for (int i = 0; i < gNumTasks; ++i)
    if (gTask[i].st == T_RUNNABLE)
      run[n++] = i;
  if (n == 0)
    deadlock();
  if ((uint64_t)n > gRes->maxRunnable)
    gRes->maxRunnable = n;
  bool curOk = gTask[gCur].st == T_RUNNABLE;
  int def = curOk ? gCur : run[0];
  if (n == 1)
    return def;
  if (gCfg.replay) {
    int v = replayAt(DK_SWITCH);
    if (v >= 0) {
      if (v < gNumTasks && gTask[v].st == T_RUNNABLE) {
        record(DK_SWITCH, v);
        return v;
      }
    }
    return def;
  }
  // Fault: stall one runnable task for a while.
  if (gCfg.stallInv && gRng.chance(gCfg.stallInv)) {
    int v = run[gRng.below(n)];
    if (gTask[v].stalledUntil <= gSync) {
      gTask[v].stalledUntil = gSync + 5 + gRng.below(200);
      gRes->faults[F_STALL]++;
    }
  }
  int el[kMaxTasks], m = 0;
  for (int i = 0; i < n; ++i)
    if (gTask[run[i]].stalledUntil <= gSync)
      el[m++] = run[i];
  if (m == 0) {
    m = n;
    memcpy(el, run, sizeof(int) * n);
  }
  if (gCfg.strategy == 5 && m > 1) {
    int k = 0;
    for (int i = 0; i < m; ++i)
      if (el[i] != gCfg.starved)
        el[k++] = el[i];
    m = k;
  }
  bool curEl = false;
  for (int i = 0; i < m; ++i)
    curEl |= el[i] == gCur && curOk;
  int pick;
  switch (gCfg.strategy) {
  case 1:
  case 5:
    if (curEl && !atAccess && gRng.below(gCfg.stickyInv) != 0)
      pick = gCur;
    else
      pick = el[gRng.below(m)];
    break;
  case 2: {
    for (int k = 0; k < gPctN; ++k)
      if (gSync == gPctChange[k])
        gTask[gCur].prio = --gPctLow;
    pick = el[0];
    for (int i = 1; i < m; ++i)
      if (gTask[el[i]].prio > gTask[pick].prio)
        pick = el[i];
    if (atAccess && gRng.below(4) == 0)
      pick = el[gRng.below(m)];
    break;
  }
  case 3: {
    pick = el[0];
    for (int i = 0; i < m; ++i)
      if (el[i] > gCur) {
        pick = el[i];
        break;
      }
    break;
  }
  case 4:
    pick = curEl && !atAccess ? gCur : el[gRng.below(m)];
    break;
  default:
    pick = el[gRng.below(m)];
  }
  if (pick != def)
    record(DK_SWITCH, pick);
  return pick;
}

void switchTo(int next) {
  if (next == gCur)
    return;
  Task &me = gTask[gCur];
  gRes->switches++;
  if (me.st == T_RUNNABLE)
    gRes->preemptions++;
  gSchedHash = (gSchedHash ^ ((uint64_t)next << 40) ^ gSync) *
               0x9FB21C651E98DF25ull;
  gSchedHash ^= gSchedHash >> 31;
  mix(0x5157C4ull ^ ((uint64_t)next << 32) ^ gEv);
  gCur = next;
  bool done = me.st == T_DONE;
  release(gTask[next]);
  if (!done)
    park(me);
}

bool gCostly = false;
void finish(Status st, const char *cls, const char *fmt, va_list ap);

// The work is known to grow exponentially with the workload being run: running
// out of resources tells nothing.
[[noreturn]] void inconclusive(const char *fmt, ...) {
  tInstr = false;
  va_list ap;
  va_start(ap, fmt);
  finish(ST_OK, "meaningless", fmt, ap);
  va_end(ap);
  __builtin_trap();
}

void checkBudget() {
  if (gEv > gCfg.maxEvents && gCostly)
    inconclusive("simulated events");
  if (gEv > gCfg.maxEvents)
    violation("no-progress",
              "the run did not finish within %llu simulated events",
              (unsigned long long)gCfg.maxEvents);
}

// A synchronisation point of the running task.
void syncPoint(uint32_t tag) {
  ++gEv;
  ++gSync;
  mix(((uint64_t)tag << 8) ^ (uint64_t)gCur ^ (gEv << 20));
  checkBudget();
  if (gNumTasks > 1)
    switchTo(choose(false));
}

// The current task cannot continue.
void blockCur(const void *key) {
  Task &me = gTask[gCur];
  me.st = T_BLOCKED;
  me.key = key;
  ++gEv;
  ++gSync;
  mix(0xB10C ^ ((uint64_t)gCur << 40) ^ gEv);
  switchTo(choose(false));
}

//===--------------------------------------------------------------------===//
// Happens-before
//===--------------------------------------------------------------------===//
struct SyncVar {
  const void *addr;
  uint32_t vc[kMaxTasks];
  int owner;     // mutex / rwlock writer / guard owner, -1 none
  int readers;   // rwlock
  int depth;     // recursive
};
// Chained hash table with stable entries; the entries of freed memory are
// dropped by syncPurge (a new object at the same address is a new sync object).
constexpr size_t kSyncBuckets = 1 << 16;
constexpr size_t kSyncMax = 1 << 20;
uint32_t *gSyncHead; // index + 1
uint32_t *gSyncNext;
SyncVar *gSyncTab;
uint8_t *gSyncBits; // one bit per heap granule that carries an entry
uint32_t gSyncUsed = 0, gSyncFree = 0;

inline size_t syncHash(const void *a) {
  return (((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 40) &
         (kSyncBuckets - 1);
}

SyncVar &sv(const void *a) {
  size_t h = syncHash(a);
  for (uint32_t i = gSyncHead[h]; i; i = gSyncNext[i - 1])
    if (gSyncTab[i - 1].addr == a)
      return gSyncTab[i - 1];
  uint32_t i = gSyncFree;
  if (i)
    gSyncFree = gSyncNext[i - 1];
  else if (gSyncUsed == kSyncMax)
    internalError("sync table full");
  else
    i = ++gSyncUsed;
  SyncVar &s = gSyncTab[i - 1];
  memset(&s, 0, sizeof(s));
  s.addr = a;
  s.owner = -1;
  gSyncNext[i - 1] = gSyncHead[h];
  gSyncHead[h] = i;
  if (inHeap((uintptr_t)a)) {
    size_t g = ((uintptr_t)a - kBase) >> 3;
    gSyncBits[g >> 3] |= 1 << (g & 7);
  }
  return s;
}

void syncDrop(const void *a) {
  size_t h = syncHash(a);
  for (uint32_t *p = &gSyncHead[h]; *p; p = &gSyncNext[*p - 1])
    if (gSyncTab[*p - 1].addr == a) {
      uint32_t i = *p;
      *p = gSyncNext[i - 1];
      gSyncNext[i - 1] = gSyncFree;
      gSyncFree = i;
      return;
    }
}

void syncPurge(uintptr_t p, size_t n) {
  size_t g0 = (p - kBase) >> 3, g1 = (p + n + 7 - kBase) >> 3;
  for (size_t g = g0; g < g1;) {
    if ((g & 7) == 0 && gSyncBits[g >> 3] == 0) {
      g += 8;
      continue;
    }
    if (gSyncBits[g >> 3] & (1 << (g & 7))) {
      gSyncBits[g >> 3] &= ~(1 << (g & 7));
      for (int k = 0; k < 8; ++k)
        syncDrop((const void *)(kBase + (g << 3) + k));
    }
    ++g;
  }
}

void vcJoin(uint32_t *a, const uint32_t *b) {
  for (int i = 0; i < kMaxTasks; ++i)
    if (b[i] > a[i])
      a[i] = b[i];
}
void acq(const void *a) { vcJoin(gTask[gCur].vc, sv(a).vc); }
void rel(const void *a) {
  vcJoin(sv(a).vc, gTask[gCur].vc);
  gTask[gCur].vc[gCur]++;
}
void relSet(const void *a) {
  memcpy(sv(a).vc, gTask[gCur].vc, sizeof(sv(a).vc));
  gTask[gCur].vc[gCur]++;
}

// The shared state of a future handed out by the pool is released by code of
// libMLIR, whose atomic operations are out of sight.  No code under test uses
// futures.
bool futureInternals(uint32_t pc) {
  Dl_info i;
  return dladdr((void *)(uintptr_t)pc, &i) && i.dli_sname && strstr(i.dli_sname, "__future_base");
}
void reportRace(uintptr_t addr, const Cell &old, uint32_t pc, bool w, bool at) {
  if (futureInternals(pc) || futureInternals(old.pc))
    return;
  violation("data-race",
            "pc=0x%x task=%d %s%s / pc=0x%x task=%d %s%s addr=0x%llx",
            pc, gCur, at ? "atomic " : "", w ? "write" : "read", old.pc,
            old.tid, (old.flags & 4) ? "atomic " : "",
            (old.flags & 2) ? "write" : "read", (unsigned long long)addr);
}

inline void touch(Granule &g, uintptr_t addr, uint8_t mask, bool w, bool at,
                  uint32_t pc) {
  const Task &me = gTask[gCur];
  int slot = -1;
  int hbSlot = -1;
  for (int i = 0; i < kCells; ++i) {
    Cell &c = g.c[i];
    if (!(c.flags & 1)) {
      if (slot < 0)
        slot = i;
      continue;
    }
    if (c.tid == gCur) {
      // Same task: replace if the new access subsumes the old one.
      if ((c.mask & ~mask) == 0 && (w || !(c.flags & 2)) &&
          (!at || (c.flags & 4)))
        slot = i;
      continue;
    }
    bool hb = c.clk <= me.vc[c.tid];
    if ((c.mask & mask) && (w || (c.flags & 2)) && !(at && (c.flags & 4)) &&
        !hb)
      reportRace(addr, c, pc, w, at);
    if (hb && (c.mask & ~mask) == 0 && (w || !(c.flags & 2)))
      hbSlot = i;
  }
  if (slot < 0)
    slot = hbSlot;
  if (slot < 0)
    slot = (int)((gEv) % kCells);
  g.c[slot] = Cell{pc, me.vc[gCur], (uint8_t)gCur, mask,
                   (uint8_t)(1 | (w ? 2 : 0) | (at ? 4 : 0)), 0};
}

void badAccess(uintptr_t a, size_t n, bool w, uint32_t pc) {
  violation("memory-error",
            "pc=0x%x invalid %s of %zu byte(s) at 0x%llx (freed or out of "
            "bounds)",
            pc, w ? "write" : "read", n, (unsigned long long)a);
}

inline void checkState(uintptr_t a, size_t n, bool w, uint32_t pc) {
  uintptr_t off = a - kBase;
  size_t g = off >> 3;
  size_t o = off & 7;
  if (o + n <= 8) {
    if (gState[g] < o + n)
      badAccess(a, n, w, pc);
    return;
  }
  uintptr_t end = off + n;
  for (size_t i = g; i <= (end - 1) >> 3; ++i) {
    size_t need = (i == (end - 1) >> 3) ? ((end - 1) & 7) + 1 : 8;
    if (gState[i] < need)
      badAccess(a, n, w, pc);
  }
}

inline void access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pcFull) {
  uint32_t pc = (uint32_t)pcFull;
  ++gEv;
  if (__builtin_expect((gEv & 0xFFFFF) == 0, 0))
    checkBudget();
  if (!at) {
    if (gCfg.replay) {
      if (gNumTasks > 1 && gReplayPos < gCfg.numDecisions &&
          gCfg.decisions[gReplayPos].ev <= gEv) {
        int v = replayAt(DK_SWITCH);
        if (v >= 0 && v < gNumTasks && gTask[v].st == T_RUNNABLE) {
          record(DK_SWITCH, v);
          switchTo(v);
        }
      }
    } else if (__builtin_expect(--gCountdown <= 0, 0)) {
      resetCountdown();
      if (gNumTasks > 1 && gLiveOther > 0)
        switchTo(choose(true));
    }
  }
  if (inRegion(a)) {
    if (gCfg.memCheck && inHeap(a))
      checkState(a, n, w, pc);
    if (gLiveOther == 0 || !gCfg.raceCheck)
      return;
    gRes->racesChecked++;
    uintptr_t off = a - kBase;
    size_t o = off & 7;
    size_t g = off >> 3;
    while (n) {
      size_t k = 8 - o < n ? 8 - o : n;
      touch(gShadow[g], a, (uint8_t)(((1u << k) - 1) << o), w, at, pc);
      n -= k;
      a += k;
      o = 0;
      ++g;
    }
    return;
  }
  if (gLiveOther == 0 || !gCfg.raceCheck)
    return;
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) {
    gRes->racesChecked++;
    while (n) {
      size_t o = a & 7;
      size_t k = 8 - o < n ? 8 - o : n;
      uintptr_t ga = a & ~7ull;
      GlobGranule &gg = gGlob[(ga >> 3) & (kGlobSlots - 1)];
      if (gg.addr != ga) {
        memset(&gg, 0, sizeof(gg));
        gg.addr = ga;
      }
      touch(gg.g, a, (uint8_t)(((1u << k) - 1) << o), w, at, pc);
      n -= k;
      a += k;
    }
  }
}

inline bool on() { return tInstr; }

void accessRange(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (n)
    access(a, n, w, false, pc);
}

//===--------------------------------------------------------------------===//
// Allocation
//===--------------------------------------------------------------------===//
uintptr_t gWatch;
void watched(const char *what, uintptr_t p, size_t n);
void *arenaAlloc(size_t n, size_t align) {
  if (!gReady)
    initProcess();
  Arena &ar = gUseSim ? gSim : gBoot;
  if (align > 16) {
    // Over-aligned: carve directly, never recycled.
    uintptr_t p = (ar.cur + 16 + align - 1) & ~(align - 1);
    size_t sz = (n + 15) & ~15ull;
    ar.cur = p + sz + 16;
    if (ar.cur > ar.end)
      abort();
    Hdr *h = (Hdr *)(p - 16);
    h->size = n;
    h->cls = 0xFFFF;
    h->magic = HDR_LIVE;
    setState(p, n ? n : 1);
    return (void *)p;
  }
  int c = classOf(n);
  uintptr_t blk = 0;
  if (c >= 0 && ar.head[c]) {
    bool take = true;
    if (gUseSim) {
      if (gCfg.allocPolicy == 2)
        take = gAllocRng.below(2) == 0;
      else if (gCfg.allocPolicy == 3)
        take = ar.count[c] > 32;
    }
    if (take) {
      FreeNode *f = ar.head[c];
      if (gUseSim && gCfg.allocPolicy == 2 && f->next &&
          gAllocRng.below(2) == 0) {
        FreeNode *g = f->next;
        f->next = g->next;
        if (!f->next)
          ar.tail[c] = f;
        f = g;
      } else {
        ar.head[c] = f->next;
        if (!ar.head[c])
          ar.tail[c] = nullptr;
      }
      ar.count[c]--;
      blk = (uintptr_t)f - 16;
    }
  }
  if (!blk) {
    size_t sz = c >= 0 ? gClassSize[c] : ((n + 4095) & ~4095ull);
    // 16 byte header + payload + 16 byte trailing red zone
    if (gUseSim && gCfg.allocPolicy == 2)
      ar.cur += 16 * gAllocRng.below(4);
    blk = ar.cur;
    ar.cur += 16 + sz + 16;
    if (ar.cur > ar.end) {
      const char m[] = "simrt: arena exhausted\n";
      (void)!write(2, m, sizeof(m) - 1);
      if (gActive && gCostly)
        inconclusive("simulated heap");
      if (gActive)
        violation("no-progress", "memory use exceeded the simulated heap");
      abort();
    }
  }
  Hdr *h = (Hdr *)blk;
  h->size = n;
  h->cls = c >= 0 ? (uint32_t)c : 0xFFFF;
  h->magic = HDR_LIVE;
  uintptr_t p = blk + 16;
  if (gWatch)
    watched("alloc", p, n);
  setState(p, n ? n : 1);
  return (void *)p;
}

// Debugging aid: SIM_WATCH=<address> prints who allocates or frees it.
void watched(const char *what, uintptr_t p, size_t n) {
  if (gWatch < p || gWatch >= p + n)
    return;
  dprintf(2, "%s %p+%zu ev=%llu:", what, (void *)p, n, (unsigned long long)gEv);
  uintptr_t *fp = (uintptr_t *)__builtin_frame_address(0);
  for (int i = 0; i < 24 && fp && (uintptr_t)fp > 0x1000; ++i) {
    dprintf(2, " %llx", (unsigned long long)fp[1]);
    if (fp[0] <= (uintptr_t)fp)
      break;
    fp = (uintptr_t *)fp[0];
  }
  dprintf(2, "\n");
}

void arenaFree(void *ptr, uintptr_t pc) {
  if (!ptr)
    return;
  uintptr_t p = (uintptr_t)ptr;
  if (!inHeap(p))
    return; // allocated before the arenas existed
  Hdr *h = (Hdr *)(p - 16);
  if (h->magic != HDR_LIVE) {
    if (gActive)
      violation("memory-error", "pc=0x%x double or invalid free of %p",
                (uint32_t)pc, ptr);
    abort();
  }
  size_t n = h->size ? h->size : 1;
  if (gWatch)
    watched("free", p, n);
  size_t g = (p - kBase) >> 3;
  size_t gn = (n + 7) >> 3;
  if (tInstr && gLiveOther > 0 && gCfg.raceCheck) {
    // Freeing is a write to the whole block (bounded for very large ones).
    size_t lim = gn < 512 ? gn : 512;
    for (size_t i = 0; i < lim; ++i)
      touch(gShadow[g + i], p + 8 * i, 0xFF, true, false, (uint32_t)pc);
  }
  if (gActive)
    memset(&gShadow[g], 0, gn * sizeof(Granule));
  memset(gState + g, 0, gn);
  if (gUseSim)
    syncPurge((uintptr_t)ptr, h->size);
  h->magic = HDR_FREE;
  if (h->cls == 0xFFFF)
    return;
  Arena &ar = p >= kSimBase ? gSim : gBoot;
  if (p < kSimBase && gUseSim)
    return; // boot blocks are not recycled during a run
  FreeNode *f = (FreeNode *)p;
  int c = (int)h->cls;
  ar.count[c]++;
  bool lifo = !gUseSim || gCfg.allocPolicy == 0 || gCfg.allocPolicy == 2;
  if (!ar.head[c]) {
    f->next = nullptr;
    ar.head[c] = ar.tail[c] = f;
  } else if (lifo) {
    f->next = ar.head[c];
    ar.head[c] = f;
  } else {
    f->next = nullptr;
    ar.tail[c]->next = f;
    ar.tail[c] = f;
  }
}

void *mapAt(uintptr_t at, size_t n) {
  void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     (at ? MAP_FIXED_NOREPLACE : 0),
                 -1, 0);
  if (p == MAP_FAILED || (at && (uintptr_t)p != at)) {
    const char m[] = "simrt: cannot map arena\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(70);
  }
  return p;
}

void *taskMain(void *a) {
  Task *t = (Task *)a;
  tSelf = t->id;
  // Tell the creator that thread start-up is over, then wait to be scheduled.
  release(gTask[gCur]);
  park(*t);
  tInstr = true;
  t->fn(t->arg);
  tInstr = false;
  hbRelease(t);
  t->st = T_DONE;
  for (int i = 0; i < gNumTasks; ++i)
    if (gTask[i].st == T_BLOCKED && gTask[i].key == t)
      gTask[i].st = T_RUNNABLE;
  ++gEv;
  ++gSync;
  switchTo(choose(false));
  for (;;)
    pause();
  return nullptr;
}

struct MainArg {
  void (*fn)(void *);
  void *arg;
};
std::atomic<int> gMainDone;

void mainEntry(void *a) {
  MainArg *m = (MainArg *)a;
  m->fn(m->arg);
  tInstr = false;
  gActive = false;
  gRes->events = gEv;
  gRes->syncPoints = gSync;
  gRes->hash = gHash;
  gRes->schedHash = gSchedHash;
  gMainDone.store(1, std::memory_order_release);
  futexWake(&gMainDone);
  for (;;)
    pause();
}

int newTask(void (*fn)(void *), void *arg, const char *name) {
  if (gNumTasks >= kMaxTasks)
    internalError("too many tasks");
  int id = gNumTasks;
  Task &t = gTask[id];
  t.id = id;
  t.fn = fn;
  t.arg = arg;
  t.name = name;
  t.st = T_RUNNABLE;
  t.go.store(0);
  t.key = nullptr;
  t.stalledUntil = 0;
  t.hasRelFence = false;
  memset(t.vc, 0, sizeof(t.vc));
  memset(t.pendingAcq, 0, sizeof(t.pendingAcq));
  t.vc[id] = 1;
  t.prio = 1000000 + gRng.below(1000000);
  return id;
}

void startThread(int id, Task *creator) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)(kStackBase + kStackSize * id),
                        kStackSize);
  if (pthread_create(&gTask[id].th, &at, taskMain, &gTask[id]) != 0)
    internalError("pthread_create failed");
  pthread_attr_destroy(&at);
  park(*creator);
}


} // namespace

//===--------------------------------------------------------------------===//
// Public interface
//===--------------------------------------------------------------------===//
void initProcess() {
  if (gReady)
    return;
  gReady = true;
  if (const char *w = getenv("SIM_WATCH"))
    gWatch = strtoull(w, nullptr, 16);
  mapAt(kBase, kRegionSize);
  gShadow = (Granule *)mapAt(0, (kRegionSize >> 3) * sizeof(Granule));
  gState = (uint8_t *)mapAt(0, kRegionSize >> 3);
  gGlob = (GlobGranule *)mapAt(0, kGlobSlots * sizeof(GlobGranule));
  gSyncTab = (SyncVar *)mapAt(0, kSyncMax * sizeof(SyncVar));
  gSyncNext = (uint32_t *)mapAt(0, kSyncMax * 4);
  gSyncHead = (uint32_t *)mapAt(0, kSyncBuckets * 4);
  gSyncBits = (uint8_t *)mapAt(0, (kBootSize + kSimSize) / 64);
  for (int c = 0; c < 32; ++c)
    gClassSize[c] = 16 * (size_t)(c + 1);
  size_t s = 768;
  for (int c = 32; c < kNumClasses; c += 2) {
    gClassSize[c] = s;             // 768, 1536, ...
    gClassSize[c + 1] = s / 3 * 4; // 1024, 2048, ...
    s *= 2;
  }
  gBoot = Arena{kBase, kBase + 64, kBase + kBootSize, {}, {}, {}};
  gSim = Arena{kSimBase, kSimBase + 64, kSimBase + kSimSize, {}, {}, {}};
  gRes = &gDummy;
  __libc_single_threaded = 0;
}

void setResult(Result *r) { gRes = r; }
Result &result() { return *gRes; }
bool active() { return gActive; }
int self() { return gCur; }
const Config &config() { return gCfg; }
uint64_t eventNow() { return gEv; }

void run(const Config &cfg, void (*fn)(void *), void *arg) {
  gCfg = cfg;
  gRng.reseed(cfg.seed * 2 + 1);
  gAllocRng.reseed(cfg.seed * 2 + 0x5bd1e995);
  gEv = gSync = 0;
  gHash = 0x1234567;
  gSchedHash = 0x7654321;
  gReplayPos = 0;
  gNumTasks = 0;
  gLiveOther = 0;
  gPctN = 0;
  gPctLow = 100000;
  if (cfg.strategy == 2)
    for (int i = 0; i < cfg.pctDepth && i < 16; ++i)
      gPctChange[gPctN++] = 1 + gRng.below(cfg.pctLen ? cfg.pctLen : 1);
  resetCountdown();
  MainArg m{fn, arg};
  // The bootstrap thread is not a task; borrow slot of a dummy creator.
  static Task boot;
  boot.go.store(0);
  gUseSim = true;
  int id = newTask(mainEntry, &m, "main");
  gNumTasks = 1;
  gCur = 0;
  // taskMain releases gTask[gCur] == itself; so wait on the thread differently:
  // we simply make the task immediately schedulable.
  gActive = true;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)kStackBase, kStackSize);
  if (pthread_create(&gTask[id].th, &at, taskMain, &gTask[id]) != 0)
    internalError("pthread_create failed");
  while (!gMainDone.load(std::memory_order_acquire))
    futexWait(&gMainDone, 0);
}

Pause::Pause() : prev(tInstr) { tInstr = false; }
Pause::~Pause() { tInstr = prev; }
void instrument(bool on) { tInstr = on; }

int spawn(void (*fn)(void *), void *arg, const char *name) {
  int id = newTask(fn, arg, name);
  gTask[id].st = T_BLOCKED; // not schedulable until its thread exists
  Task &me = gTask[gCur];
  gNumTasks = id + 1;
  // thread start-up runs while we wait: nothing else is running
  startThread(id, &me);
  gTask[id].st = T_RUNNABLE;
  vcJoin(gTask[id].vc, me.vc);
  gTask[id].vc[id] = 1;
  me.vc[gCur]++;
  gLiveOther++;
  return id;
}

void join(int task) {
  syncPoint(0x101);
  while (gTask[task].st != T_DONE)
    blockCur(&gTask[task]);
  hbAcquire(&gTask[task]);
  gLiveOther--;
}

void yieldPoint(uint32_t tag) { syncPoint(tag); }

bool userFault(uint32_t kind) {
  ++gEv;
  bool fire;
  if (gCfg.replay) {
    int v = replayAt(DK_FAULT);
    fire = v == (int)kind;
  } else {
    uint32_t inv = kind == F_CAS    ? gCfg.casInv
                   : kind == F_LATE ? gCfg.lateInv
                                    : gCfg.userFaultInv;
    fire = gRng.chance(inv);
  }
  if (fire) {
    record(DK_FAULT, kind);
    gRes->faults[kind]++;
  }
  mix(0xFA017ull ^ ((uint64_t)kind << 32) ^ fire);
  return fire;
}

void probe(int id) { gRes->probes[id]++; }

void blockOn(const void *key) { blockCur(key); }
void wakeAll(const void *key) {
  for (int i = 0; i < gNumTasks; ++i)
    if (gTask[i].st == T_BLOCKED && gTask[i].key == key) {
      gTask[i].st = T_RUNNABLE;
      gTask[i].key = nullptr;
    }
}
void hbRelease(const void *key) { rel(key); }
void hbAcquire(const void *key) { acq(key); }
void liveTasks(int delta) { gLiveOther += delta; }

namespace {
void finish(Status st, const char *cls, const char *fmt, va_list ap) {
  if (gRes->status == ST_NONE) {
    snprintf(gRes->vclass, sizeof(gRes->vclass), "%s", cls);
    vsnprintf(gRes->message, sizeof(gRes->message), fmt, ap);
    gRes->events = gEv;
    gRes->syncPoints = gSync;
    gRes->hash = gHash;
    gRes->schedHash = gSchedHash;
    gRes->status = st;
  }
  _exit(st == ST_VIOLATION ? 1 : 3);
}
} // namespace

void costly(bool on) { gCostly = on; }
void violation(const char *vclass, const char *fmt, ...) {
  tInstr = false;
  va_list ap;
  va_start(ap, fmt);
  finish(ST_VIOLATION, vclass, fmt, ap);
  va_end(ap);
  __builtin_trap();
}
void internalError(const char *fmt, ...) {
  tInstr = false;
  va_list ap;
  va_start(ap, fmt);
  finish(ST_INTERNAL, "internal", fmt, ap);
  va_end(ap);
  __builtin_trap();
}

} // namespace sim

using namespace sim;

//===----------------------------------------------------------------------===//
// malloc family
//===----------------------------------------------------------------------===//
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void *malloc(size_t n) { return arenaAlloc(n, 16); }
void free(void *p) { arenaFree(p, PC); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n))
    return nullptr;
  void *p = arenaAlloc(n, 16);
  memset(p, 0, n);
  return p;
}
void *realloc(void *p, size_t n) {
  if (!p)
    return arenaAlloc(n, 16);
  if (n == 0) {
    arenaFree(p, PC);
    return nullptr;
  }
  size_t old = ((Hdr *)((char *)p - 16))->size;
  void *q = arenaAlloc(n, 16);
  memcpy(q, p, old < n ? old : n);
  arenaFree(p, PC);
  return q;
}
void *memalign(size_t a, size_t n) { return arenaAlloc(n, a < 16 ? 16 : a); }
void *aligned_alloc(size_t a, size_t n) { return arenaAlloc(n, a < 16 ? 16 : a); }
int posix_memalign(void **o, size_t a, size_t n) {
  *o = arenaAlloc(n, a < 16 ? 16 : a);
  return 0;
}
void *valloc(size_t n) { return arenaAlloc(n, 4096); }
size_t malloc_usable_size(void *p) {
  return p ? ((Hdr *)((char *)p - 16))->size : 0;
}
}
void *operator new(size_t n) { return arenaAlloc(n, 16); }
void *operator new[](size_t n) { return arenaAlloc(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return arenaAlloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arenaAlloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return arenaAlloc(n, (size_t)a < 16 ? 16 : (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return arenaAlloc(n, (size_t)a < 16 ? 16 : (size_t)a); }
void operator delete(void *p) noexcept { arenaFree(p, PC); }
void operator delete[](void *p) noexcept { arenaFree(p, PC); }
void operator delete(void *p, size_t) noexcept { arenaFree(p, PC); }
void operator delete[](void *p, size_t) noexcept { arenaFree(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { arenaFree(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { arenaFree(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { arenaFree(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { arenaFree(p, PC); }

//===----------------------------------------------------------------------===//
// pthread interposition.  Outside a simulated run the process is single
// threaded, hence locks are no-ops there.
//===----------------------------------------------------------------------===//
namespace {
bool simTask() { return gActive && tSelf >= 0 && tSelf == gCur; }
int lockExcl(const void *m, bool recursive, bool tryOnly) {
  if (!simTask())
    return 0;
  syncPoint(0x201);
  SyncVar *s = &sv(m);
  if (recursive && s->owner == gCur) {
    s->depth++;
    return 0;
  }
  bool waited = false;
  while (s->owner >= 0 || s->readers > 0) {
    if (tryOnly)
      return EBUSY;
    if (s->owner == gCur)
      violation("deadlock", "task %d locks a mutex it already holds", gCur);
    if (!waited)
      gRes->contended++;
    waited = true;
    blockCur(m);
  }
  s->owner = gCur;
  s->depth = 1;
  acq(m);
  return 0;
}
int unlockExcl(const void *m) {
  if (!simTask())
    return 0;
  SyncVar *s = &sv(m);
  if (s->owner != gCur) {
    if (s->owner < 0)
      return 0; // locked before the run started
    violation("lock-misuse", "task %d unlocks a mutex held by task %d", gCur,
              s->owner);
  }
  if (--s->depth > 0)
    return 0;
  rel(m);
  s->owner = -1;
  wakeAll(m);
  syncPoint(0x202);
  return 0;
}
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  return lockExcl(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, false);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  return lockExcl(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, true);
}
int pthread_mutex_unlock(pthread_mutex_t *m) { return unlockExcl(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lockExcl(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return lockExcl(m, false, true); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!simTask())
    return 0;
  syncPoint(0x203);
  SyncVar *s = &sv(m);
  bool waited = false;
  while (s->owner >= 0) {
    if (!waited)
      gRes->contended++;
    waited = true;
    blockCur(m);
  }
  s->readers++;
  acq(m);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  return pthread_rwlock_rdlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!simTask())
    return 0;
  SyncVar *s = &sv(m);
  if (s->owner == gCur)
    return unlockExcl(m);
  if (s->readers > 0) {
    s->readers--;
    rel(m);
    if (s->readers == 0)
      wakeAll(m);
    syncPoint(0x204);
  }
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!simTask())
    internalError("pthread_cond_wait outside of the simulation");
  SyncVar *s = &sv(m);
  rel(m);
  s->owner = -1;
  s->depth = 0;
  wakeAll(m);
  blockCur(c);
  acq(c);
  return lockExcl(m, false, false);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!simTask())
    return 0;
  rel(c);
  wakeAll(c); // spurious wake-ups are allowed; predicates are re-checked
  syncPoint(0x205);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  volatile int *w = (volatile int *)o;
  if (!simTask()) {
    if (*w == 0) {
      *w = 1;
      fn();
      *w = 2;
    }
    return 0;
  }
  {
      syncPoint(0x206);
    while (*w == 1)
      blockCur(o);
    if (*w == 2) {
      acq(o);
      return 0;
    }
    *w = 1;
  }
  fn();
  {
      *w = 2;
    rel(o);
    wakeAll(o);
    syncPoint(0x207);
  }
  return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  if (b[0]) {
    if (simTask())
      acq(g);
    return 0;
  }
  if (!simTask()) {
    b[1] = 1;
    return 1;
  }
  syncPoint(0x208);
  while (b[1] && !b[0])
    blockCur(g);
  if (b[0]) {
    acq(g);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  b[0] = 1;
  b[1] = 0;
  if (simTask()) {
      rel(g);
    wakeAll(g);
    syncPoint(0x209);
  }
}
void __cxa_guard_abort(uint64_t *g) {
  ((volatile char *)g)[1] = 0;
  if (simTask())
    wakeAll(g);
}
}

//===----------------------------------------------------------------------===//
// -fsanitize=thread entry points (our own runtime, not the real one)
//===----------------------------------------------------------------------===//
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                  \
  void __tsan_read##N(void *p) {                                               \
    if (on())                                                                  \
      access((uintptr_t)p, N, false, false, PC);                               \
  }                                                                            \
  void __tsan_write##N(void *p) {                                              \
    if (on())                                                                  \
      access((uintptr_t)p, N, true, false, PC);                                \
  }                                                                            \
  void __tsan_unaligned_read##N(void *p) {                                     \
    if (on())                                                                  \
      access((uintptr_t)p, N, false, false, PC);                               \
  }                                                                            \
  void __tsan_unaligned_write##N(void *p) {                                    \
    if (on())                                                                  \
      access((uintptr_t)p, N, true, false, PC);                                \
  }                                                                            \
  void __tsan_read_write##N(void *p) {                                         \
    if (on())                                                                  \
      access((uintptr_t)p, N, true, false, PC);                                \
  }                                                                            \
  void __tsan_unaligned_read_write##N(void *p) {                               \
    if (on())                                                                  \
      access((uintptr_t)p, N, true, false, PC);                                \
  }                                                                            \
  void __tsan_volatile_read##N(void *p) { __tsan_read##N(p); }                 \
  void __tsan_volatile_write##N(void *p) { __tsan_write##N(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
  if (on())
    accessRange((uintptr_t)p, n, false, PC);
}
void __tsan_write_range(void *p, size_t n) {
  if (on())
    accessRange((uintptr_t)p, n, true, PC);
}
void __tsan_vptr_read(void *p) {
  if (on())
    access((uintptr_t)p, 8, false, false, PC);
}
void __tsan_vptr_update(void **p, void *v) {
  // Storing what is there already is no write; counted as an event all the
  // same, as memory of an object being built may hold anything.
  if (on())
    access((uintptr_t)p, 8, *p != v, false, PC);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (on()) {
    accessRange((uintptr_t)s, n, false, PC);
    accessRange((uintptr_t)d, n, true, PC);
  }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (on()) {
    accessRange((uintptr_t)s, n, false, PC);
    accessRange((uintptr_t)d, n, true, PC);
  }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (on())
    accessRange((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
} // extern "C"

namespace {
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq
inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
void atomicPre(const volatile void *p, size_t n, bool w, uintptr_t pc) {
  syncPoint(0x301);
  access((uintptr_t)p, n, w, true, pc);
}
void atomicLoadHB(const volatile void *p, int mo) {
  const void *a = (const void *)p;
  if (isAcq(mo))
    acq(a);
  else
    vcJoin(gTask[gCur].pendingAcq, sv(a).vc);
}
void atomicStoreHB(const volatile void *p, int mo, bool rmw) {
  const void *a = (const void *)p;
  if (isRel(mo)) {
    if (rmw)
      rel(a);
    else
      relSet(a);
  } else {
    SyncVar &s = sv(a);
    if (!rmw)
      memset(s.vc, 0, sizeof(s.vc));
    if (gTask[gCur].hasRelFence)
      vcJoin(s.vc, gTask[gCur].relFence);
  }
}
} // namespace

#define ATOMIC(BITS, T)                                                        \
  T __tsan_atomic##BITS##_load(const volatile T *p, int mo) {                  \
    if (on()) {                                                                \
      atomicPre(p, sizeof(T), false, PC);                                      \
      atomicLoadHB(p, mo);                                                     \
    }                                                                          \
    return *p;                                                                 \
  }                                                                            \
  void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo) {               \
    if (on()) {                                                                \
      atomicPre(p, sizeof(T), true, PC);                                       \
      atomicStoreHB(p, mo, false);                                             \
    }                                                                          \
    *p = v;                                                                    \
  }                                                                            \
  T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo) {               \
    if (on()) {                                                                \
      atomicPre(p, sizeof(T), true, PC);                                       \
      atomicLoadHB(p, mo);                                                     \
      atomicStoreHB(p, mo, true);                                              \
    }                                                                          \
    T o = *p;                                                                  \
    *p = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  FETCH(BITS, T, add, o + v)                                                   \
  FETCH(BITS, T, sub, o - v)                                                   \
  FETCH(BITS, T, and, o &v)                                                    \
  FETCH(BITS, T, or, o | v)                                                    \
  FETCH(BITS, T, xor, o ^ v)                                                   \
  FETCH(BITS, T, nand, ~(o & v))                                               \
  static int cas##BITS(volatile T *p, T *c, T v, int mo, int fmo, bool weak,   \
                       uintptr_t pc) {                                         \
    if (on()) {                                                                \
      atomicPre(p, sizeof(T), true, pc);                                       \
      if (weak && gCfg.casInv + gCfg.replay && userFault(F_CAS)) {             \
        *c = *p;                                                               \
        return 0;                                                              \
      }                                                                        \
      if (*p == *c) {                                                          \
        atomicLoadHB(p, mo);                                                   \
        atomicStoreHB(p, mo, true);                                            \
      } else                                                                   \
        atomicLoadHB(p, fmo);                                                  \
    }                                                                          \
    if (*p == *c) {                                                            \
      *p = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    *c = *p;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *c, T v,  \
                                                    int mo, int fmo) {         \
    return cas##BITS(p, c, v, mo, fmo, false, PC);                             \
  }                                                                            \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *c, T v,    \
                                                  int mo, int fmo) {           \
    return cas##BITS(p, c, v, mo, fmo, true, PC);                              \
  }                                                                            \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T *p, T c, T v,        \
                                               int mo, int fmo) {              \
    cas##BITS(p, &c, v, mo, fmo, false, PC);                                   \
    return c;                                                                  \
  }
#define FETCH(BITS, T, NAME, EXPR)                                             \
  T __tsan_atomic##BITS##_fetch_##NAME(volatile T *p, T v, int mo) {           \
    if (on()) {                                                                \
      atomicPre(p, sizeof(T), true, PC);                                       \
      atomicLoadHB(p, mo);                                                     \
      atomicStoreHB(p, mo, true);                                              \
    }                                                                          \
    T o = *p;                                                                  \
    *p = (T)(EXPR);                                                            \
    return o;                                                                  \
  }
extern "C" {
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!on())
    return;
  syncPoint(0x302);
  Task &t = gTask[gCur];
  if (isAcq(mo))
    vcJoin(t.vc, t.pendingAcq);
  if (isRel(mo)) {
    memcpy(t.relFence, t.vc, sizeof(t.vc));
    t.hasRelFence = true;
    t.vc[gCur]++;
  }
}
void __tsan_atomic_signal_fence(int) {}
}

//===----------------------------------------------------------------------===//
// Thread identity, futexes, time and entropy: the remaining ways by which the
// operating system could influence a run.
//===----------------------------------------------------------------------===//
extern "C" {
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i)
    a[i] = va_arg(ap, long);
  va_end(ap);
  if (simTask()) {
    if (n == SYS_gettid)
      return 1000 + tSelf;
    if (n == SYS_futex) {
      int op = (int)a[1] & FUTEX_CMD_MASK;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        syncPoint(0x501);
        if (*(volatile int *)a[0] != (int)a[2]) {
          errno = EAGAIN;
          return -1;
        }
        blockCur((const void *)a[0]);
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        syncPoint(0x502);
        wakeAll((const void *)a[0]);
        return 1;
      }
    }
  }
  long r = rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (gActive) { // one simulated event is one nanosecond
    ts->tv_sec = 1000000000 + gEv / 1000000000;
    ts->tv_nsec = gEv % 1000000000;
    return 0;
  }
  return (int)rawSyscall(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
}
unsigned int arc4random(void) { return (unsigned)gAllocRng.next(); }
}
