// Dependency stand-in.
#include "tensorflow/compiler/mlir/tensorflow/translate/import_model.h"
namespace tensorflow {
absl::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& input_filename, int saved_model_version, const std::unordered_set<std::string>& tags, absl::Span<const std::string> extra_tf_opdefs, absl::Span<std::string> exported_names, const GraphImportConfig& specs, bool enable_variable_lifting, mlir::MLIRContext* context, std::unique_ptr<SavedModelBundle>* saved_model_bundle);
}
