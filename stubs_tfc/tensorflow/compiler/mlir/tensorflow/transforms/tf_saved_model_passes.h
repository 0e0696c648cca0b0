// Dependency stand-in: the passes over saved models, by name.
#ifndef STUB_TF_SM_PASSES_H_
#define STUB_TF_SM_PASSES_H_
#include "tensorflow/compiler/mlir/tensorflow/transforms/passes.h"
namespace mlir { namespace tf_saved_model {
TF::ModulePass CreateOptimizeGlobalTensorsPass();
TF::ModulePass CreateFreezeGlobalTensorsPass();
TF::ModulePass CreateFreezeAssetsPass(std::string saved_model_dir);
} }
#endif
