// Dependency stand-in.
#include "absl/status/status.h"
#include "tensorflow/compiler/mlir/lite/flatbuffer_export.h"
namespace tensorflow { namespace internal { absl::Status RegisterAllCustomOps(const toco::TocoFlags& toco_flags); } }
