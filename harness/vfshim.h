// VariableFilter.cpp is written against an LLVM in which the clang diagnostic
// classes take their options by reference. This header, included before that
// file, provides classes with that interface on top of the installed ones. What
// would be printed to the standard error stream is recorded instead.
#pragma once
#include "marco/VariableFilter/Parser.h"
#include "clang/Basic/LangOptions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "llvm/Support/raw_ostream.h"
#include <string>

extern std::string vfDiagnostics;

namespace vfshim {
struct Sink {
  llvm::raw_string_ostream os{vfDiagnostics};
};
} // namespace vfshim

namespace clang {
struct VfPrinter : private vfshim::Sink, public TextDiagnosticPrinter {
  VfPrinter(llvm::raw_ostream &, const DiagnosticOptions &o)
      : TextDiagnosticPrinter(this->Sink::os, plain(o)) {}
  VfPrinter(llvm::raw_ostream &r, DiagnosticOptions *o) : VfPrinter(r, *o) {}
  static DiagnosticOptions *plain(const DiagnosticOptions &o) {
    auto *r = new DiagnosticOptions(o);
    r->ShowColors = false;
    return r;
  }
};
struct VfEngine : DiagnosticsEngine {
  template <typename I>
  VfEngine(I ids, const DiagnosticOptions &o, DiagnosticConsumer *c)
      : DiagnosticsEngine(ids, new DiagnosticOptions(o), c) {}
  template <typename I>
  VfEngine(I ids, DiagnosticOptions *o, DiagnosticConsumer *c)
      : DiagnosticsEngine(ids, o, c) {}
};
} // namespace clang

#ifndef VF_HARNESS
#define TextDiagnosticPrinter VfPrinter
#define DiagnosticsEngine VfEngine
#endif
