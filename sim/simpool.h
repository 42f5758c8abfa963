// The thread pool seam: MLIRContext::setThreadPool(llvm::ThreadPoolInterface&).
#ifndef VERIF_SIMPOOL_H
#define VERIF_SIMPOOL_H
#include "simrt.h"
#include "llvm/Support/ThreadPool.h"
#include <deque>
#include <functional>
#include <map>
namespace sim {
class SimThreadPool : public llvm::ThreadPoolInterface {
public:
  explicit SimThreadPool(unsigned n) : n(n) {}
  ~SimThreadPool() override {}
  void wait() override;
  void wait(llvm::ThreadPoolTaskGroup &g) override;
  unsigned getMaxConcurrency() const override { return n; }

private:
  void asyncEnqueue(std::function<void()> t,
                    llvm::ThreadPoolTaskGroup *g) override;
  static void worker(void *);
  bool isWorker() const;
  void runOne(size_t idx);
  struct Item {
    std::function<void()> fn;
    llvm::ThreadPoolTaskGroup *group;
  };
  struct GroupState {
    unsigned outstanding = 0;
    unsigned total = 0;
  };
  unsigned n;
  bool started = false;
  int firstWorker = 0;
  std::deque<Item> q;
  std::map<llvm::ThreadPoolTaskGroup *, GroupState> groups;
};
} // namespace sim
#endif
