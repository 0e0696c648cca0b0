// Dependency stand-in.
#include <memory>
#include <string>
#include <vector>
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/Pass.h"
namespace mlir { namespace odml { std::unique_ptr<OperationPass<ModuleOp>> createPrintOpStatsPass(std::vector<std::string> dialects); } }
