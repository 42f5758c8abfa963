// Not generated by the installed mlir-tblgen.
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
namespace mlir::bmodelica {
uint64_t RealType::getPreferredAlignment(const mlir::DataLayout &d, mlir::DataLayoutEntryListRef p) const { return getABIAlignment(d, p); }
uint64_t IntegerType::getPreferredAlignment(const mlir::DataLayout &d, mlir::DataLayoutEntryListRef p) const { return getABIAlignment(d, p); }
uint64_t BooleanType::getPreferredAlignment(const mlir::DataLayout &d, mlir::DataLayoutEntryListRef p) const { return getABIAlignment(d, p); }
}
