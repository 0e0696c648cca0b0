// Dependency stand-in.
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Support/LogicalResult.h"
#include "tensorflow/core/public/session.h"
namespace mlir { namespace tf_saved_model { LogicalResult FreezeVariables(ModuleOp module, tensorflow::Session* session); } }
