// Dependency stand-in.
#include <string>
#include "tensorflow/compiler/mlir/tensorflow/translate/import_model.h"
namespace tensorflow { absl::Status LoadProtoFromBuffer(const std::string& input, GraphDef* proto); }
