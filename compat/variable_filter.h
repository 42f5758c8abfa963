// lib/VariableFilter/VariableFilter.cpp is written for the diagnostics API of a
// later clang than the one installed here: options passed by reference. These
// two classes offer that API on top of the installed one.
#ifndef VERIF_COMPAT_VARIABLE_FILTER_H
#define VERIF_COMPAT_VARIABLE_FILTER_H
#include "marco/VariableFilter/Parser.h"
#include "marco/VariableFilter/VariableFilter.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/DiagnosticIDs.h"
#include "clang/Basic/DiagnosticOptions.h"
#include "clang/Basic/LangOptions.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "llvm/Support/raw_ostream.h"
// Counts what is reported, instead of printing it.
extern "C" void verifDiagnostic(int isError);
namespace clang {
class VerifDiagnosticPrinter : public DiagnosticConsumer {
public:
  VerifDiagnosticPrinter(llvm::raw_ostream &, DiagnosticOptions &) {}
  void HandleDiagnostic(DiagnosticsEngine::Level level, const Diagnostic &info) override {
    llvm::SmallString<128> m;
    info.FormatDiagnostic(m);
    verifDiagnostic(level >= DiagnosticsEngine::Error);
  }
};
class VerifDiagnosticsEngine : public DiagnosticsEngine {
public:
  VerifDiagnosticsEngine(llvm::IntrusiveRefCntPtr<DiagnosticIDs> ids, DiagnosticOptions &, DiagnosticConsumer *c)
      : DiagnosticsEngine(std::move(ids), new DiagnosticOptions(), c) {}
};
} // namespace clang
#define TextDiagnosticPrinter VerifDiagnosticPrinter
#define DiagnosticsEngine VerifDiagnosticsEngine
#endif
