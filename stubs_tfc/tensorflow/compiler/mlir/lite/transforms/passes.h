// Dependency stand-in: the passes of TensorFlow Lite, by name.
#ifndef STUB_TFL_PASSES_H_
#define STUB_TFL_PASSES_H_
#include <memory>
#include <string>
#include <vector>
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/Pass.h"
#include "tensorflow/compiler/mlir/lite/quantization/quantization_config.h"
namespace mlir { namespace TFL {
using FuncPass = std::unique_ptr<OperationPass<func::FuncOp>>;
using ModulePass = std::unique_ptr<OperationPass<ModuleOp>>;
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& quant_specs);
FuncPass CreateDefaultQuantParamsPass(double default_min, double default_max, bool is_signed);
FuncPass CreateQuantizePass();
FuncPass CreatePostQuantizePass(bool emit_quant_adaptor_ops);
FuncPass CreatePostQuantizeRemoveQDQPass();
FuncPass CreateOptimizeOpOrderPass();
FuncPass CreateOptimizePass(bool enable_canonicalization);
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& target_ops);
FuncPass CreatePrepareTFPass(bool unfold_batch_matmul, bool allow_bf16_and_f16_type_legalization);
FuncPass CreateLegalizeTFPass(bool run_tfl_runtime_verification);
FuncPass CreateReduceWhileOperandsPass();
FuncPass CreateSplitMergedOperandsPass();
FuncPass CreateRuntimeVerifyPass();
ModulePass CreatePrepareCompositeFunctionsPass();
ModulePass CreateLowerStaticTensorListPass();
ModulePass CreateLegalizeTFWhilePass();
ModulePass CreateAnalyzeVariablesPass();
ModulePass CreateLegalizeVariablesPass();
ModulePass CreateLegalizeHashTablesPass();
ModulePass CreateOptimizeFunctionalOpsPass();
ModulePass CreateInsertCallOnceOpFromSessionInitializerPass();
ModulePass CreateUnfoldLargeSplatConstantPass();
ModulePass CreateWhileOutlinePass();
} }
#endif
