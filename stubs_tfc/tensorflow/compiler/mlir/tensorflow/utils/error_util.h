// Dependency stand-in: collects the errors reported while it is in scope, as TensorFlow's does.
#ifndef STUB_TF_ERROR_UTIL_H_
#define STUB_TF_ERROR_UTIL_H_
#include "absl/status/status.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
namespace mlir {
class StatusScopedDiagnosticHandler {
 public:
  StatusScopedDiagnosticHandler(MLIRContext* context, bool propagate = false);
  ~StatusScopedDiagnosticHandler();
  absl::Status ConsumeStatus();
  absl::Status Combine(absl::Status status);
 private:
  MLIRContext* x_; unsigned long id_; std::string m_; bool any_ = false;
};
}
#endif
