#include "simpool.h"
namespace sim {
bool SimThreadPool::isWorker() const {
  return started && self() >= firstWorker && self() < firstWorker + (int)n;
}
void SimThreadPool::asyncEnqueue(std::function<void()> t,
                                 llvm::ThreadPoolTaskGroup *g) {
  Pause p;
  if (!started) {
    started = true;
    for (unsigned i = 0; i < n; ++i) {
      int id = spawn(worker, this, "worker");
      liveTasks(-1);
      if (i == 0)
        firstWorker = id;
    }
  }
  q.push_back({std::move(t), g});
  groups[g].outstanding++;
  groups[g].total++;
  liveTasks(1);
  hbRelease(&q);
  wakeAll(&q);
  result().poolTasks++;
  yieldPoint(0x401);
}
void SimThreadPool::runOne(size_t idx) {
  Item it = std::move(q[idx]);
  q.erase(q.begin() + idx);
  hbAcquire(&q);
  if (userFault(F_LATE))
    for (int i = 0; i < 8; ++i)
      yieldPoint(0x402);
  {
    yieldPoint(0x403);
    instrument(true);
    it.fn();
    // The task object owns a reference to the shared state of the future: its
    // reference count is part of the synchronisation of the code under test.
    it.fn = nullptr;
    instrument(false);
  }
  GroupState &gs = groups[it.group];
  hbRelease(&gs);
  if (--gs.outstanding == 0)
    wakeAll(&gs);
  yieldPoint(0x404);
}
void SimThreadPool::worker(void *a) {
  auto *p = (SimThreadPool *)a;
  instrument(false);
  for (;;) {
    while (p->q.empty())
      blockOn(&p->q);
    p->runOne(0);
  }
}
void SimThreadPool::wait(llvm::ThreadPoolTaskGroup &g) {
  Pause p;
  yieldPoint(0x405);
  auto gi = groups.find(&g);
  if (gi == groups.end())
    return;
  GroupState &gs = gi->second;
  if (isWorker()) {
    while (gs.outstanding > 0) {
      size_t i = 0;
      while (i < q.size() && q[i].group != &g)
        ++i;
      if (i == q.size())
        break;
      runOne(i);
    }
  }
  while (gs.outstanding > 0)
    blockOn(&gs);
  hbAcquire(&gs);
  liveTasks(-(int)gs.total);
  groups.erase(gi);
}
void SimThreadPool::wait() {
  Pause p;
  yieldPoint(0x406);
  for (;;) {
    bool any = false;
    for (auto &g : groups)
      if (g.second.outstanding > 0) {
        any = true;
        blockOn(&g.second);
        break;
      }
    if (!any)
      break;
  }
  for (auto &g : groups) {
    hbAcquire(&g.second);
    liveTasks(-(int)g.second.total);
  }
  groups.clear();
}
} // namespace sim
