// Modelica source text through the real parser, lowering and passes.
#ifndef VF_PIPELINE_H
#define VF_PIPELINE_H
#include "compat.h"
#include "marco/AST/BaseModelica/AST.h"
#include "marco/Codegen/Lowering/BaseModelica/Bridge.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/BaseModelica/IR/Ops.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/InvertibleOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/Passes.h"
#include "marco/Dialect/BaseModelica/Transforms/RuntimeVerifiableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/VectorizableOpInterfaceImpl.h"
#include "marco/Dialect/IDA/IR/Dialect.h"
#include "marco/Dialect/KINSOL/IR/Dialect.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "marco/Dialect/Runtime/IR/Ops.h"
#include "marco/Parser/BaseModelica/Parser.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/SourceManager.h"
#include "mlir/Dialect/Affine/IR/AffineOps.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Interfaces/DataLayoutInterfaces.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"
#include <string>

// (required by this release, gone in newer ones)
namespace mlir::bmodelica {
#define VF_ALIGN(T)                                                            \
  uint64_t T::getPreferredAlignment(                                    \
      const mlir::DataLayout &, llvm::ArrayRef<mlir::DataLayoutEntryInterface>) \
      const {                                                                  \
    return 8;                                                                  \
  }
VF_ALIGN(BooleanType)
VF_ALIGN(IntegerType)
VF_ALIGN(RealType)
} // namespace mlir::bmodelica

namespace pl {
using S = std::string;
namespace bmo = mlir::bmodelica;

struct Diags : clang::DiagnosticConsumer {
  S errors;
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l,
                        const clang::Diagnostic &d) override {
    clang::DiagnosticConsumer::HandleDiagnostic(l, d);
    if (l < clang::DiagnosticsEngine::Error)
      return;
    llvm::SmallString<64> m;
    d.FormatDiagnostic(m);
    errors += m.str().str() + "; ";
  }
};

struct Context {
  S diags;
  mlir::DialectRegistry reg;
  std::unique_ptr<mlir::MLIRContext> ctx;
  Context() {
    reg.insert<bmo::BaseModelicaDialect, mlir::modeling::ModelingDialect,
               mlir::runtime::RuntimeDialect, mlir::ida::IDADialect,
               mlir::kinsol::KINSOLDialect, mlir::func::FuncDialect,
               mlir::arith::ArithDialect, mlir::scf::SCFDialect,
               mlir::tensor::TensorDialect, mlir::linalg::LinalgDialect>();
    bmo::registerClassInterfaceExternalModels(reg);
    bmo::registerDerivableOpInterfaceExternalModels(reg);
    bmo::registerEquationExpressionOpInterfaceExternalModels(reg);
    bmo::registerInvertibleOpInterfaceExternalModels(reg);
    bmo::registerRuntimeVerifiableOpInterfaceExternalModels(reg);
    bmo::registerVectorizableOpInterfaceExternalModels(reg);
    bmo::registerConstantMaterializableTypeInterfaceExternalModels(reg);
    bmo::registerDerivableTypeInterfaceExternalModels(reg);
    ctx = std::make_unique<mlir::MLIRContext>(
        reg, mlir::MLIRContext::Threading::DISABLED);
    ctx->getDiagEngine().registerHandler([this](mlir::Diagnostic &d) {
      if (d.getSeverity() == mlir::DiagnosticSeverity::Error)
        diags += d.str() + "; ";
      return mlir::success();
    });
  }
};

inline S print(mlir::Operation *op) {
  S s;
  llvm::raw_string_ostream os(s);
  op->print(os);
  return s;
}

// Source text to the module the passes start from.
inline mlir::OwningOpRef<mlir::ModuleOp> lower(Context &x, const S &src) {
  using namespace marco;
  auto file = std::make_shared<SourceFile>("model.mo");
  clang::SourceManagerForFile sm(file->getFileName(), src);
  Diags diags;
  clang::DiagnosticsEngine engine(
      llvm::IntrusiveRefCntPtr<clang::DiagnosticIDs>(new clang::DiagnosticIDs),
      llvm::IntrusiveRefCntPtr<clang::DiagnosticOptions>(
          new clang::DiagnosticOptions),
      &diags, false);
  engine.setSourceManager(&sm.get());
  auto buf = llvm::MemoryBuffer::getMemBufferCopy(src);
  file->setMemoryBuffer(buf.get());
  parser::bmodelica::Parser p(engine, sm.get(), file);
  auto root = p.parseRoot();
  if (!root) {
    x.diags += diags.errors;
    return nullptr;
  }
  codegen::lowering::bmodelica::Bridge bridge(*x.ctx);
  if (!bridge.lower(*(*root)->cast<ast::bmodelica::Root>()))
    return nullptr;
  return mlir::OwningOpRef<mlir::ModuleOp>(*bridge.getMLIRModule().release());
}
} // namespace pl
#endif
