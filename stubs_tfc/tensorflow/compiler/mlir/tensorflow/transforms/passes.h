// Dependency stand-in: the passes of TensorFlow, by name.
#ifndef STUB_TF_PASSES_H_
#define STUB_TF_PASSES_H_
#include <memory>
#include <string>
#include "llvm/ADT/StringRef.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"
namespace mlir {
namespace TF {
using FuncPass = std::unique_ptr<OperationPass<func::FuncOp>>;
using ModulePass = std::unique_ptr<OperationPass<ModuleOp>>;
struct StandardPipelineOptions { bool enable_inliner = false; bool form_clusters = false; };
struct LayoutOptimizationPipelineOptions { std::string force_data_format; bool skip_fold_transpose_in_ops = false; };
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& options);
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& options);
FuncPass CreateDeviceIndexSelectorPass();
FuncPass CreateInitTextFileToImportPass(std::string saved_model_dir);
ModulePass CreateTFShapeInferencePass();
ModulePass CreateTFFunctionalControlFlowToRegions();
ModulePass CreateTFRegionControlFlowToFunctional();
}
namespace TFDevice { TF::FuncPass CreateDecomposeResourceOpsPass(); }
}
#endif
