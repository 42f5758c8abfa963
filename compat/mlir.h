// Some sources are written for a slightly later MLIR than the one installed
// here; this offers what they use on top of the installed one.
#ifndef VERIF_COMPAT_MLIR_H
#define VERIF_COMPAT_MLIR_H
#include "mlir/Interfaces/CallInterfaces.h"
#include "mlir/Interfaces/FunctionImplementation.h"
#include "mlir/IR/SymbolTable.h"
#include <mutex>
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
namespace mlir {
struct VerifGreedyRewriteConfig : GreedyRewriteConfig {
  VerifGreedyRewriteConfig &enableFolding(bool on = true) {
    fold = on;
    return *this;
  }
  VerifGreedyRewriteConfig &setListener(RewriterBase::Listener *l) {
    listener = l;
    return *this;
  }
  VerifGreedyRewriteConfig &setUseTopDownTraversal(bool on = true) {
    useTopDownTraversal = on;
    return *this;
  }
  VerifGreedyRewriteConfig &setMaxIterations(int64_t n) {
    maxIterations = n;
    return *this;
  }
};
namespace call_interface_impl {
using function_interface_impl::addArgAndResultAttrs;
} // namespace call_interface_impl
} // namespace mlir
// See symbol_table.cpp.
namespace verif_compat {
void registerLocked(void *, mlir::SymbolTableCollection *, std::mutex *);
void unregisterLocked(void *);
} // namespace verif_compat
namespace mlir {
struct VerifLockedSymbolTableCollection : SymbolTableCollection {
  std::mutex verifMutex;
  explicit VerifLockedSymbolTableCollection(SymbolTableCollection &c) {
    verif_compat::registerLocked(static_cast<SymbolTableCollection *>(this), &c, &verifMutex);
  }
  ~VerifLockedSymbolTableCollection() {
    verif_compat::unregisterLocked(static_cast<SymbolTableCollection *>(this));
  }
};
} // namespace mlir
#define LockedSymbolTableCollection VerifLockedSymbolTableCollection
#define GreedyRewriteConfig VerifGreedyRewriteConfig
#endif
