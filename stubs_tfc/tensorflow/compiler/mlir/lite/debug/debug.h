// Dependency stand-in.
#ifndef STUB_TFL_DEBUG_H_
#define STUB_TFL_DEBUG_H_
#include "mlir/Pass/PassManager.h"
namespace tensorflow {
namespace converter { struct DebugOptions {}; }
void InitPassManager(mlir::PassManager& pm, const converter::DebugOptions& options);
}
#endif
