// In the MLIR the sources are written for, SymbolTableCollection's methods are
// virtual, so that a LockedSymbolTableCollection passed as its base still locks
// and still uses the tables of the collection it wraps.  In the installed one
// they are not.  These definitions take the place of the library's for the
// code linked here, and look the wrapper up (VerifLockedSymbolTableCollection
// in mlir.h registers it).
#include "mlir/IR/SymbolTable.h"
#include <mutex>
namespace verif_compat {
template <auto Member>
struct Opener2 {
  friend auto &tablesOf2(mlir::SymbolTableCollection &c) { return c.*Member; }
};
auto &tablesOf2(mlir::SymbolTableCollection &c);
template struct Opener2<&mlir::SymbolTableCollection::symbolTables>;

static constexpr int kMax = 64;
struct Entry {
  void *wrapper;
  mlir::SymbolTableCollection *wrapped;
  std::mutex *mutex;
};
static Entry entries[kMax];
static int used = 0;

__attribute__((no_sanitize("thread"))) void
registerLocked(void *wrapper, mlir::SymbolTableCollection *c, std::mutex *m) {
  for (int i = 0; i < kMax; ++i)
    if (!entries[i].wrapper) {
      entries[i] = {wrapper, c, m};
      if (i >= used)
        used = i + 1;
      return;
    }
  abort();
}
__attribute__((no_sanitize("thread"))) void unregisterLocked(void *wrapper) {
  for (int i = 0; i < used; ++i)
    if (entries[i].wrapper == wrapper)
      entries[i].wrapper = nullptr;
}
__attribute__((no_sanitize("thread"))) void forgetLocked() { used = 0; for (auto &e : entries) e.wrapper = nullptr; }
__attribute__((no_sanitize("thread"))) static Entry *find(void *c) {
  for (int i = 0; i < used; ++i)
    if (entries[i].wrapper == c)
      return &entries[i];
  return nullptr;
}
} // namespace verif_compat
using namespace verif_compat;
namespace mlir {
static SymbolTable &tableOf(SymbolTableCollection &c, Operation *op) {
  auto it = tablesOf2(c).try_emplace(op, nullptr);
  if (it.second)
    it.first->second = std::make_unique<SymbolTable>(op);
  return *it.first->second;
}
SymbolTable &SymbolTableCollection::getSymbolTable(Operation *op) {
  if (Entry *e = find(this)) {
    Entry copy = *e;
    std::lock_guard<std::mutex> guard(*copy.mutex);
    return copy.wrapped->getSymbolTable(op);
  }
  return tableOf(*this, op);
}
Operation *SymbolTableCollection::lookupSymbolIn(Operation *t, StringAttr symbol) {
  return getSymbolTable(t).lookup(symbol);
}
LogicalResult SymbolTableCollection::lookupSymbolIn(Operation *t, SymbolRefAttr name,
                                                    SmallVectorImpl<Operation *> &symbols) {
  Operation *root = lookupSymbolIn(t, name.getRootReference());
  if (!root)
    return failure();
  symbols.push_back(root);
  ArrayRef<FlatSymbolRefAttr> nested = name.getNestedReferences();
  if (nested.empty())
    return success();
  if (!root->hasTrait<OpTrait::SymbolTable>())
    return failure();
  for (FlatSymbolRefAttr ref : nested.drop_back()) {
    root = lookupSymbolIn(root, ref.getAttr());
    if (!root || !root->hasTrait<OpTrait::SymbolTable>())
      return failure();
    symbols.push_back(root);
  }
  symbols.push_back(lookupSymbolIn(root, name.getLeafReference()));
  return success(symbols.back() != nullptr);
}
Operation *SymbolTableCollection::lookupSymbolIn(Operation *t, SymbolRefAttr name) {
  SmallVector<Operation *, 4> symbols;
  if (failed(lookupSymbolIn(t, name, symbols)))
    return nullptr;
  return symbols.back();
}
Operation *SymbolTableCollection::lookupNearestSymbolFrom(Operation *from, StringAttr symbol) {
  Operation *t = SymbolTable::getNearestSymbolTable(from);
  return t ? lookupSymbolIn(t, symbol) : nullptr;
}
Operation *SymbolTableCollection::lookupNearestSymbolFrom(Operation *from, SymbolRefAttr symbol) {
  Operation *t = SymbolTable::getNearestSymbolTable(from);
  return t ? lookupSymbolIn(t, symbol) : nullptr;
}
} // namespace mlir
