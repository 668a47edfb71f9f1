// An MLIR context that records its diagnostics, with a module to work on.
#ifndef MLIRUTIL_H
#define MLIRUTIL_H
#include "mlir/AsmParser/AsmParser.h"
#include "mlir/Bytecode/BytecodeWriter.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OperationSupport.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "llvm/Support/raw_ostream.h"
#include <string>

struct MlirEnv {
  mlir::MLIRContext ctx{mlir::MLIRContext::Threading::DISABLED};
  std::vector<std::string> errors;
  mlir::OwningOpRef<mlir::ModuleOp> module;
  MlirEnv() {
    ctx.getDiagEngine().registerHandler([this](mlir::Diagnostic &d) {
      if (d.getSeverity() == mlir::DiagnosticSeverity::Error)
        errors.push_back(d.str());
      return mlir::success();
    });
    module = mlir::ModuleOp::create(loc());
  }
  mlir::Location loc() { return mlir::UnknownLoc::get(&ctx); }
  std::string said() {
    return errors.empty() ? std::string() : ": " + errors.front();
  }
  mlir::Attribute parseAttr(const std::string &t) {
    errors.clear();
    return mlir::parseAttribute(t, &ctx);
  }
  mlir::OwningOpRef<mlir::ModuleOp> parse(const std::string &t) {
    errors.clear();
    return mlir::parseSourceString<mlir::ModuleOp>(
        t, mlir::ParserConfig(&ctx));
  }
  template <typename T, typename... A>
  T add(A &&...a) {
    mlir::OpBuilder b(&ctx);
    b.setInsertionPointToEnd(module->getBody());
    return b.create<T>(loc(), std::forward<A>(a)...);
  }
  template <typename T, typename... A>
  T inModule(A &&...a) {
    module->getBody()->clear();
    return add<T>(std::forward<A>(a)...);
  }
  static const char *wayName(int w) {
    static const char *n[] = {"the text", "the generic text", "the bytecode",
                              "a clone", "the text of a clone"};
    return n[w];
  }
  std::string text(mlir::Operation *op, bool generic) {
    std::string s;
    llvm::raw_string_ostream os(s);
    mlir::OpPrintingFlags f;
    if (generic)
      f.printGenericOpForm();
    op->print(os, f);
    return s;
  }
  mlir::OwningOpRef<mlir::ModuleOp> roundTrip(int way) {
    errors.clear();
    if (way == 3)
      return module->clone();
    if (way == 4) {
      mlir::OwningOpRef<mlir::ModuleOp> m = module->clone();
      return parse(text(*m, false));
    }
    std::string s;
    if (way == 2) {
      llvm::raw_string_ostream os(s);
      if (mlir::failed(mlir::writeBytecodeToFile(*module, os)))
        return {};
    } else
      s = text(*module, way == 1);
    return parse(s);
  }
  static bool equivalent(mlir::Operation *a, mlir::Operation *b) {
    return mlir::OperationEquivalence::isEquivalentTo(
        a, b, mlir::OperationEquivalence::IgnoreLocations);
  }
  static size_t hash(mlir::Operation *a) {
    return mlir::OperationEquivalence::computeHash(
        a, mlir::OperationEquivalence::ignoreHashValue,
        mlir::OperationEquivalence::ignoreHashValue,
        mlir::OperationEquivalence::IgnoreLocations);
  }
};
#endif
