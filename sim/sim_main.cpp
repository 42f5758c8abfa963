// Driver: batches of seeded runs (one forked process per run), determinism
// gate, minimisation and replay.  Not instrumented.
#include "harness.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace sim;

namespace {
Result *gShared;
const char *gMode = "default";
int gHangSeconds = 120;
uint64_t gMaxEvents = 0; // overrides the budget of the runs

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Outcome {
  uint32_t status = 0;
  std::string vclass, message, extra;
  uint64_t hash = 0, schedHash = 0, events = 0;
  std::vector<Decision> decisions;
  bool truncated = false;
};

struct RunArg {
  const std::string *workload;
  bool meaningful;
};
void runMain(void *a) {
  RunArg *r = (RunArg *)a;
  r->meaningful = harnessExecute(*r->workload, gMode);
}

Config configFromSeed(uint64_t seed) {
  Rng r(seed ^ 0xC0FF1Eull);
  Config c;
  c.seed = seed;
  static const int strat[] = {0, 1, 1, 1, 2, 2, 3, 4, 5, 5};
  c.strategy = strat[r.below(10)];
  static const uint32_t st[] = {2, 4, 16, 64};
  c.stickyInv = st[r.below(4)];
  static const uint32_t am[] = {0, 0, 3000, 500, 100, 30};
  c.accessMean = am[r.below(6)];
  c.pctDepth = 1 + r.below(5);
  static const uint32_t pl[] = {30, 100, 400, 2000};
  c.pctLen = pl[r.below(4)];
  static const int wk[] = {1, 2, 2, 3, 3, 4, 5, 8};
  c.workers = wk[r.below(8)];
  c.starved = r.below(c.workers + 1);
  static const uint32_t sl[] = {0, 0, 20, 100};
  c.stallInv = sl[r.below(4)];
  static const uint32_t ci[] = {0, 3, 10};
  c.casInv = ci[r.below(3)];
  static const uint32_t la[] = {0, 0, 2, 5};
  c.lateInv = la[r.below(4)];
  static const uint32_t uf[] = {0, 3, 10, 40};
  c.userFaultInv = uf[r.below(4)];
  c.allocPolicy = r.below(4);
  harnessConfig(c, r, gMode);
  return c;
}

std::string workloadFromSeed(uint64_t seed) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + 77);
  return harnessGenerate(r, gMode);
}

// Executes one run in a forked child.
Outcome execute(const Config &cfg, const std::string *workload) {
  memset((void *)gShared, 0, offsetof(Result, decisions));
  gShared->extra[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(3);
  }
  if (pid == 0) {
    // CPU time, so that a loaded machine cannot turn a slow run into a hang.
    struct itimerval it = {{0, 0}, {gHangSeconds, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int dn = getenv("VERIF_SHOW") ? -1 : open("/dev/null", O_WRONLY);
    if (!getenv("SIM_STDERR")) {
      dup2(dn, 2);
      dup2(dn, 1);
    }
    sim::setResult(gShared);
    std::string w = workload ? *workload : workloadFromSeed(cfg.seed);
    RunArg a{&w, false};
    Config c = cfg;
    if (gMaxEvents)
      c.maxEvents = gMaxEvents;
    sim::run(c, runMain, &a);
    if (gShared->status == ST_NONE) {
      gShared->status = ST_OK;
      if (!a.meaningful)
        snprintf(gShared->vclass, sizeof(gShared->vclass), "meaningless");
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  Outcome o;
  o.status = gShared->status;
  o.vclass = gShared->vclass;
  o.message = gShared->message;
  o.extra = std::string(gShared->extra,
                        strnlen(gShared->extra, sizeof(gShared->extra)));
  o.hash = gShared->hash;
  o.schedHash = gShared->schedHash;
  o.events = gShared->events;
  o.decisions.assign(gShared->decisions,
                     gShared->decisions + gShared->numDecisions);
  o.truncated = gShared->decisionsTruncated;
  if (o.status == ST_NONE) {
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGPROF) {
        o.status = ST_VIOLATION;
        o.vclass = "hang";
        o.message = "the run did not end within the CPU-time watchdog";
      } else if (sg == SIGKILL) {
        o.status = ST_INTERNAL;
        o.vclass = "internal";
        o.message = "run was killed";
      } else {
        o.status = ST_VIOLATION;
        o.vclass = "crash";
        o.message = std::string("the process died with signal ") +
                    strsignal(sg);
      }
    } else {
      o.status = ST_VIOLATION;
      o.vclass = "crash";
      o.message = "the process exited with code " +
                  std::to_string(WEXITSTATUS(st));
    }
  }
  return o;
}

bool same(const Outcome &a, const std::string &cls) {
  return a.status == ST_VIOLATION && a.vclass == cls;
}

struct Replay {
  std::string cls, mode;
  Config cfg;
  std::vector<Decision> dec;
  std::string workload;
  std::string message;
  uint64_t hash = 0;
  // the schedule is the one the seed draws, not a recorded list of decisions
  bool seedOnly = false;
};

std::string escapeLine(const std::string &s) {
  std::string r;
  for (char c : s)
    if (c == '\n')
      r += "\\n";
    else
      r += c;
  return r;
}

void writeReplay(const char *path, const Replay &r, const char *property) {
  FILE *f = fopen(path, "w");
  if (!f) {
    perror(path);
    exit(3);
  }
  fprintf(f, "# deterministic simulation replay\n");
  fprintf(f, "property %s\nmode %s\nclass %s\nmessage %s\nhash %016llx\n",
          property, r.mode.c_str(), r.cls.c_str(),
          escapeLine(r.message).c_str(), (unsigned long long)r.hash);
  fprintf(f,
          "config seed=%llu alloc=%d workers=%d casInv=%u maxEvents=%llu\n",
          (unsigned long long)r.cfg.seed, r.cfg.allocPolicy, r.cfg.workers,
          r.cfg.casInv, (unsigned long long)r.cfg.maxEvents);
  if (r.seedOnly)
    fprintf(f, "schedule drawn-from-seed\n");
  for (auto &d : r.dec)
    fprintf(f, "D %llu %u %u\n", (unsigned long long)d.ev, d.kind, d.value);
  fprintf(f, "WORKLOAD\n%s", r.workload.c_str());
  fclose(f);
}

bool readReplay(const char *path, Replay &r, std::string &property) {
  FILE *f = fopen(path, "r");
  if (!f)
    return false;
  static char line[1 << 16];
  bool wl = false;
  while (fgets(line, sizeof line, f)) {
    if (wl) {
      r.workload += line;
      continue;
    }
    std::string s(line);
    while (!s.empty() && (s.back() == '\n'))
      s.pop_back();
    if (s == "WORKLOAD") {
      wl = true;
      continue;
    }
    auto val = [&](const char *k) -> const char * {
      size_t n = strlen(k);
      return s.compare(0, n, k) == 0 ? s.c_str() + n : nullptr;
    };
    if (auto v = val("property "))
      property = v;
    else if (auto v = val("mode "))
      r.mode = v;
    else if (auto v = val("class "))
      r.cls = v;
    else if (auto v = val("message "))
      r.message = v;
    else if (auto v = val("hash "))
      r.hash = strtoull(v, nullptr, 16);
    else if (val("schedule drawn-from-seed"))
      r.seedOnly = true;
    else if (auto v = val("config ")) {
      unsigned long long seed = 0, me = 0;
      int al = 0, wk = 0;
      unsigned ci = 0;
      sscanf(v, "seed=%llu alloc=%d workers=%d casInv=%u maxEvents=%llu",
             &seed, &al, &wk, &ci, &me);
      r.cfg = Config();
      r.cfg.seed = seed;
      r.cfg.allocPolicy = al;
      r.cfg.workers = wk;
      r.cfg.casInv = ci;
      if (me)
        r.cfg.maxEvents = me;
    } else if (s.compare(0, 2, "D ") == 0) {
      unsigned long long ev;
      unsigned k, v2;
      sscanf(s.c_str() + 2, "%llu %u %u", &ev, &k, &v2);
      r.dec.push_back({ev, k, v2});
    }
  }
  fclose(f);
  return true;
}

Outcome tryReplay(const Config &base, const std::vector<Decision> &dec,
                  const std::string &w) {
  Config c = base;
  c.replay = true;
  c.decisions = dec.data();
  c.numDecisions = dec.size();
  return execute(c, &w);
}

std::vector<std::string> splitLines(const std::string &s) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('\n', i);
    if (j == std::string::npos)
      j = s.size();
    v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return v;
}
std::string joinLines(const std::vector<std::string> &v) {
  std::string s;
  for (auto &l : v)
    s += l + "\n";
  return s;
}

// Minimises workload, then the schedule/fault trace.
void shrink(Replay &r, double seconds) {
  double end = now() + seconds;
  double endWork = now() + seconds * 0.65;
  int tries = 0;
  auto attempt = [&](const std::string &w, Replay &out) {
    ++tries;
    Outcome o = tryReplay(r.cfg, {}, w);
    if (same(o, r.cls)) {
      out = r;
      out.workload = w;
      out.dec = o.decisions;
      out.message = o.message;
      out.hash = o.hash;
      return true;
    }
    // the schedule matters: look for another schedule of the smaller workload
    o = tryReplay(r.cfg, r.dec, w);
    if (same(o, r.cls)) {
      out = r;
      out.workload = w;
      out.dec = o.decisions;
      out.message = o.message;
      out.hash = o.hash;
      return true;
    }
    if (r.dec.empty())
      return false;
    for (int k = 0; k < 6; ++k) {
      Config c = configFromSeed(r.cfg.seed * 31 + k * 7919 + tries);
      c.workers = r.cfg.workers;
      c.maxEvents = r.cfg.maxEvents;
      o = execute(c, &w);
      if (same(o, r.cls) && !o.truncated) {
        Config cc = c;
        Outcome o2 = tryReplay(cc, o.decisions, w);
        if (same(o2, r.cls)) {
          out = r;
          out.cfg = cc;
          out.workload = w;
          out.dec = o2.decisions;
          out.message = o2.message;
          out.hash = o2.hash;
          return true;
        }
      }
    }
    return false;
  };
  // workload lines
  bool progress = true;
  while (progress && now() < endWork) {
    progress = false;
    auto lines = splitLines(r.workload);
    for (size_t chunk = std::max<size_t>(1, lines.size() / 2);;
         chunk /= 2) {
      for (size_t i = 0; i < lines.size() && now() < endWork;) {
        auto cand = lines;
        cand.erase(cand.begin() + i,
                   cand.begin() + std::min(i + chunk, cand.size()));
        Replay o;
        if (attempt(joinLines(cand), o)) {
          r = o;
          lines = cand;
          progress = true;
        } else
          i += chunk;
      }
      if (chunk <= 1)
        break;
    }
    // numbers
    for (size_t li = 0; li < lines.size() && now() < endWork; ++li) {
      if (lines[li].size() > 400)
        continue;
      for (size_t p = 0; p < lines[li].size() && now() < endWork;) {
        if (!isdigit(lines[li][p])) {
          ++p;
          continue;
        }
        size_t q = p;
        while (q < lines[li].size() && isdigit(lines[li][q]))
          ++q;
        long v = strtol(lines[li].substr(p, q - p).c_str(), nullptr, 10);
        bool done = false;
        for (long nv : {0l, 1l, v / 2, v - 1}) {
          if (nv >= v || nv < 0)
            continue;
          auto cand = lines;
          cand[li] = lines[li].substr(0, p) + std::to_string(nv) +
                     lines[li].substr(q);
          Replay o;
          if (attempt(joinLines(cand), o)) {
            r = o;
            lines = cand;
            progress = true;
            done = true;
            break;
          }
        }
        if (!done)
          p = q;
        else {
          size_t e = p;
          while (e < lines[li].size() && isdigit(lines[li][e]))
            ++e;
          p = e;
        }
      }
    }
  }
  // schedule and faults
  {
    Outcome o = tryReplay(r.cfg, {}, r.workload);
    if (same(o, r.cls)) {
      r.dec.clear();
    } else {
      size_t chunk = std::max<size_t>(1, r.dec.size() / 2);
      for (;;) {
        for (size_t i = 0; i < r.dec.size() && now() < end;) {
          auto cand = r.dec;
          cand.erase(cand.begin() + i,
                     cand.begin() + std::min(i + chunk, cand.size()));
          Outcome c = tryReplay(r.cfg, cand, r.workload);
          if (same(c, r.cls))
            r.dec = cand;
          else
            i += chunk;
        }
        if (chunk <= 1 || now() >= end)
          break;
        chunk /= 2;
      }
    }
    Outcome f = tryReplay(r.cfg, r.dec, r.workload);
    if (same(f, r.cls)) {
      r.message = f.message;
      r.hash = f.hash;
    }
  }
}

uint64_t arg64(int argc, char **argv, const char *k, uint64_t d) {
  for (int i = 2; i + 1 < argc; ++i)
    if (!strcmp(argv[i], k))
      return strtoull(argv[i + 1], nullptr, 0);
  return d;
}
const char *argS(int argc, char **argv, const char *k, const char *d) {
  for (int i = 2; i + 1 < argc; ++i)
    if (!strcmp(argv[i], k))
      return argv[i + 1];
  return d;
}
} // namespace

// The driver's own memory lives on the boot arena; run state on the simulated
// heap, which starts empty in every forked run.
int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) {
    setenv("SIM_NOASLR_TRIED", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  if (argc < 2)
    return 3;
  sim::initProcess();
  gMode = argS(argc, argv, "--mode", "default");
  gHangSeconds = (int)arg64(argc, argv, "--hang", 120);
  gMaxEvents = arg64(argc, argv, "--max-events", 0);
  int cpu = (int)arg64(argc, argv, "--cpu", ~0ull);
  if (cpu >= 0) {
    cpu_set_t s;
    CPU_ZERO(&s);
    CPU_SET(cpu, &s);
    sched_setaffinity(0, sizeof s, &s);
  }
  gShared = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  harnessBoot(gMode);

  std::string cmd = argv[1];
  if (cmd == "batch") {
    uint64_t base = arg64(argc, argv, "--seed", 1);
    uint64_t from = arg64(argc, argv, "--from", 0);
    uint64_t step = arg64(argc, argv, "--step", 1);
    uint64_t count = arg64(argc, argv, "--count", 1000);
    uint64_t maxViol = arg64(argc, argv, "--max-violations", 3);
    uint64_t dupEvery = arg64(argc, argv, "--dup-every", 16);
    double budget = (double)arg64(argc, argv, "--seconds", 60);
    const char *out = argS(argc, argv, "--out", "/dev/stdout");
    FILE *f = fopen(out, "w");
    double t0 = now();
    uint64_t runs = 0, dups = 0, viol = 0, meaningless = 0, events = 0,
             sync = 0, sw = 0, pre = 0, cont = 0, tasks = 0, races = 0,
             maxRun = 0, trunc = 0;
    uint64_t faults[F_COUNT] = {}, probes[kMaxProbes] = {}, strat[8] = {},
             workers[16] = {};
    uint64_t faultRuns[F_COUNT] = {};
    for (uint64_t i = 0; i < count && now() - t0 < budget && viol < maxViol;
         ++i) {
      uint64_t x = base * 1000003ull + from + i * step;
      uint64_t seed = Rng::splitmix(x) >> 1;
      Config c = configFromSeed(seed);
      Outcome o = execute(c, nullptr);
      ++runs;
      strat[c.strategy & 7]++;
      workers[c.workers & 15]++;
      events += gShared->events;
      sync += gShared->syncPoints;
      sw += gShared->switches;
      pre += gShared->preemptions;
      cont += gShared->contended;
      tasks += gShared->poolTasks;
      races += gShared->racesChecked;
      maxRun = std::max<uint64_t>(maxRun, gShared->maxRunnable);
      trunc += o.truncated;
      for (int k = 0; k < F_COUNT; ++k) {
        faults[k] += gShared->faults[k];
        faultRuns[k] += gShared->faults[k] != 0;
      }
      for (int k = 0; k < kMaxProbes; ++k)
        probes[k] += gShared->probes[k];
      if (o.status == ST_OK && o.vclass == "meaningless")
        ++meaningless;
      fprintf(f, "R %llu %016llx %016llx %s\n", (unsigned long long)seed,
              (unsigned long long)o.schedHash, (unsigned long long)o.hash,
              o.extra.c_str());
      bool dup = dupEvery && (i % dupEvery == 0);
      if (o.status == ST_VIOLATION || dup) {
        Outcome o2 = execute(c, nullptr);
        ++dups;
        if (o2.status != o.status || o2.vclass != o.vclass ||
            o2.hash != o.hash || o2.events != o.events) {
          fprintf(f,
                  "N %llu nondeterministic: %u/%s/%016llx/%llu vs "
                  "%u/%s/%016llx/%llu %s | %s\n",
                  (unsigned long long)seed, o.status, o.vclass.c_str(),
                  (unsigned long long)o.hash, (unsigned long long)o.events,
                  o2.status, o2.vclass.c_str(), (unsigned long long)o2.hash,
                  (unsigned long long)o2.events,
                  escapeLine(o.message).c_str(),
                  escapeLine(o2.message).c_str());
          fflush(f);
          continue;
        }
      }
      if (o.status == ST_VIOLATION) {
        ++viol;
        fprintf(f, "V %llu %s %s\n", (unsigned long long)seed,
                o.vclass.c_str(), escapeLine(o.message).c_str());
        fflush(f);
      } else if (o.status == ST_INTERNAL) {
        fprintf(f, "I %llu %s\n", (unsigned long long)seed,
                escapeLine(o.message).c_str());
        fflush(f);
      }
    }
    fprintf(f,
            "S {\"runs\":%llu,\"dups\":%llu,\"violations\":%llu,"
            "\"meaningless\":%llu,\"events\":%llu,\"sync_points\":%llu,"
            "\"switches\":%llu,\"preemptions\":%llu,\"contended\":%llu,"
            "\"pool_tasks\":%llu,\"accesses_race_checked\":%llu,"
            "\"max_runnable\":%llu,\"truncated\":%llu,\"seconds\":%.3f",
            (unsigned long long)runs, (unsigned long long)dups,
            (unsigned long long)viol, (unsigned long long)meaningless,
            (unsigned long long)events, (unsigned long long)sync,
            (unsigned long long)sw, (unsigned long long)pre,
            (unsigned long long)cont, (unsigned long long)tasks,
            (unsigned long long)races, (unsigned long long)maxRun,
            (unsigned long long)trunc, now() - t0);
    static const char *const builtin[] = {"stalled_task",
                                          "spurious_cas_failure",
                                          "late_worker"};
    fprintf(f, ",\"faults\":{");
    for (int k = 0, first = 1; k < F_COUNT; ++k) {
      const char *nm = k < F_USER ? builtin[k] : nullptr;
      if (k >= F_USER) {
        int j = 0;
        while (harnessFaults[j] && j < k - F_USER)
          ++j;
        nm = harnessFaults[j];
        if (!nm)
          break;
      }
      fprintf(f, "%s\"%s\":{\"fired\":%llu,\"runs\":%llu}", first ? "" : ",",
              nm, (unsigned long long)faults[k],
              (unsigned long long)faultRuns[k]);
      first = 0;
    }
    fprintf(f, "},\"probes\":{");
    for (int k = 0; k < kMaxProbes && harnessProbes[k]; ++k)
      fprintf(f, "%s\"%s\":%llu", k ? "," : "", harnessProbes[k],
              (unsigned long long)probes[k]);
    fprintf(f, "},\"strategies\":{");
    static const char *const sn[] = {"uniform",     "sticky", "pct",
                                     "round_robin", "serial", "starve"};
    for (int k = 0; k < 6; ++k)
      fprintf(f, "%s\"%s\":%llu", k ? "," : "", sn[k],
              (unsigned long long)strat[k]);
    fprintf(f, "},\"workers\":{");
    for (int k = 0, first = 1; k < 16; ++k)
      if (workers[k]) {
        fprintf(f, "%s\"%d\":%llu", first ? "" : ",", k,
                (unsigned long long)workers[k]);
        first = 0;
      }
    fprintf(f, "}}\n");
    fclose(f);
    return 0;
  }
  if (cmd == "one") { // run one seed, print the outcome
    uint64_t seed = arg64(argc, argv, "--run-seed", 1);
    Config c = configFromSeed(seed);
    Outcome o = execute(c, nullptr);
    printf("status=%u class=%s events=%llu hash=%016llx dec=%zu sync=%llu "
           "switches=%llu extra=%s\n%s\n",
           o.status, o.vclass.c_str(), (unsigned long long)o.events,
           (unsigned long long)o.hash, o.decisions.size(),
           (unsigned long long)gShared->syncPoints,
           (unsigned long long)gShared->switches, o.extra.c_str(),
           o.message.c_str());
    return 0;
  }
  if (cmd == "sweep") { // the workload of a replay file under many schedules
    Replay r;
    std::string prop;
    if (argc < 3 || !readReplay(argv[2], r, prop))
      return 3;
    uint64_t n = arg64(argc, argv, "--count", 100), bad = 0;
    for (uint64_t i = 0; i < n; ++i) {
      Config c = configFromSeed(arg64(argc, argv, "--seed", 1) * 1000003 + i + arg64(argc, argv, "--from", 0));
      Outcome o = execute(c, &r.workload);
      if (o.status != ST_OK) {
        ++bad;
        printf("%llu %s %s\n", (unsigned long long)c.seed, o.vclass.c_str(),
               o.message.c_str());
      }
    }
    printf("%llu of %llu\n", (unsigned long long)bad, (unsigned long long)n);
    return 0;
  }
  if (cmd == "gen") {
    printf("%s", workloadFromSeed(arg64(argc, argv, "--run-seed", 1)).c_str());
    return 0;
  }
  if (cmd == "minimize") { // --run-seed S --out FILE --property P
    uint64_t seed = arg64(argc, argv, "--run-seed", 1);
    Config c = configFromSeed(seed);
    Outcome o = execute(c, nullptr);
    if (o.status != ST_VIOLATION) {
      printf("not reproduced\n");
      return 4;
    }
    Replay r;
    r.cls = o.vclass;
    r.mode = gMode;
    r.cfg = c;
    r.dec = o.decisions;
    r.message = o.message;
    r.hash = o.hash;
    r.workload = workloadFromSeed(seed);
    // same run, now driven by the recorded decisions instead of the PRNG
    Outcome o2;
    if (!o.truncated)
      o2 = tryReplay(c, r.dec, r.workload);
    if (!same(o2, r.cls)) {
      Outcome o3 = execute(c, &r.workload);
      if (same(o3, r.cls)) {
        r.seedOnly = true;
        r.dec.clear();
        r.hash = o3.hash;
        r.message = o3.message;
        writeReplay(argS(argc, argv, "--out", "/dev/stdout"), r,
                    argS(argc, argv, "--property", "?"));
        printf("not minimised: the schedule is drawn from the seed\n");
        return 0;
      }
      printf("recorded decisions do not reproduce: %u %s %s\n", o2.status,
             o2.vclass.c_str(), o2.message.c_str());
      return 4;
    }
    r.message = o2.message;
    r.hash = o2.hash;
    shrink(r, (double)arg64(argc, argv, "--seconds", 60));
    writeReplay(argS(argc, argv, "--out", "/dev/stdout"), r,
                argS(argc, argv, "--property", "?"));
    printf("minimised: %zu decisions, %zu workload lines\n", r.dec.size(),
           splitLines(r.workload).size());
    return 0;
  }
  if (cmd == "replay") {
    Replay r;
    std::string prop;
    if (argc < 3 || !readReplay(argv[2], r, prop)) {
      fprintf(stderr, "cannot read replay\n");
      return 3;
    }
    static std::string modeKeep;
    modeKeep = r.mode;
    if (strcmp(gMode, modeKeep.c_str()) != 0) {
      fprintf(stderr, "replay needs --mode %s\n", modeKeep.c_str());
      return 3;
    }
    Outcome o = r.seedOnly ? execute(configFromSeed(r.cfg.seed), &r.workload)
                           : tryReplay(r.cfg, r.dec, r.workload);
    printf("status=%u class=%s hash=%016llx events=%llu\n%s\n%s\n", o.status,
           o.vclass.c_str(), (unsigned long long)o.hash,
           (unsigned long long)o.events, o.message.c_str(), o.extra.c_str());
    return o.status == ST_VIOLATION ? 1 : o.status == ST_OK ? 0 : 3;
  }
  return 3;
}
