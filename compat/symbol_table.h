// SymbolTableCollection::invalidateSymbolTable is not in the installed MLIR.
// The headers come first, as their declarations concern the original class.
#ifndef VERIF_COMPAT_SYMBOL_TABLE_H
#define VERIF_COMPAT_SYMBOL_TABLE_H
#include "mlir.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/BaseModelica/Transforms/AutomaticDifferentiation.h"
#include "marco/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.h"
#include "marco/Dialect/BaseModelica/Transforms/FunctionUnwrap.h"
#include "marco/Dialect/BaseModelica/Transforms/IDA.h"
#include "marco/Dialect/BaseModelica/Transforms/Modeling/Bridge.h"
#include "marco/Dialect/BaseModelica/Transforms/SCCSolvingWithKINSOL.h"
#include "marco/Dialect/BaseModelica/Transforms/Solvers/SUNDIALS.h"
#include "marco/Dialect/IDA/IR/Dialect.h"
#include "marco/Dialect/KINSOL/IR/Dialect.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "mlir/IR/SymbolTable.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/DialectConversion.h"
#include "mlir/Transforms/Passes.h"
namespace verif_compat {
template <auto Member>
struct Opener {
  friend auto &tablesOf(mlir::SymbolTableCollection &c) { return c.*Member; }
};
auto &tablesOf(mlir::SymbolTableCollection &c);
template struct Opener<&mlir::SymbolTableCollection::symbolTables>;
} // namespace verif_compat
namespace mlir {
struct VerifSymbolTableCollection : SymbolTableCollection {
  void invalidateSymbolTable(Operation *op) { verif_compat::tablesOf(*this).erase(op); }
};
} // namespace mlir
#define SymbolTableCollection VerifSymbolTableCollection
#endif
