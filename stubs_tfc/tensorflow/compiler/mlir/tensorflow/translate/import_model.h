// Dependency stand-in: importing graphs and saved models.
#ifndef STUB_TF_IMPORT_MODEL_H_
#define STUB_TF_IMPORT_MODEL_H_
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>
#include "absl/status/status.h"
#include "absl/types/span.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OwningOpRef.h"
#include "tensorflow/core/public/session.h"
namespace tensorflow {
struct GraphDef { std::string text; };
struct GraphDebugInfo {};
struct ArrayInfo { std::string name; std::string dtype; std::optional<std::vector<int>> shape; };
struct GraphImportConfig {
  std::vector<ArrayInfo> inputs;
  std::vector<std::string> outputs;
  bool prune_unused_nodes = false;
  bool convert_legacy_fed_inputs = false;
  bool graph_as_function = false;
  bool upgrade_legacy = false;
};
absl::Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& dtypes, const std::vector<std::optional<std::vector<int>>>& shapes, std::vector<ArrayInfo>* inputs);
absl::Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* outputs);
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& graphdef, const GraphDebugInfo& debug_info, const GraphImportConfig& specs, mlir::MLIRContext* context);
}
#endif
