// Dependency stand-in: writing a module as a TensorFlow Lite flatbuffer.
#ifndef STUB_TFL_EXPORT_H_
#define STUB_TFL_EXPORT_H_
#include <string>
#include <unordered_set>
#include "llvm/ADT/PointerUnion.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Operation.h"
#include "mlir/IR/Value.h"
namespace toco {
class TocoFlags {
 public:
  void set_force_select_tf_ops(bool v) { select_ = v; }
  void set_allow_custom_ops(bool v) { custom_ = v; }
  bool force_select_tf_ops() const { return select_; }
  bool allow_custom_ops() const { return custom_; }
 private:
  bool select_ = false, custom_ = false;
};
}
namespace tensorflow {
class OpOrArgNameMapper {
 public:
  using OpOrVal = llvm::PointerUnion<mlir::Operation*, mlir::Value>;
  virtual ~OpOrArgNameMapper();
 protected:
  virtual std::string GetName(OpOrVal op_or_val) = 0;
};
class OpOrArgLocNameMapper : public OpOrArgNameMapper {
 protected:
  std::string GetName(OpOrVal op_or_val) override;
};
}
namespace tflite {
struct FlatbufferExportOptions {
  toco::TocoFlags toco_flags;
  std::unordered_set<std::string> saved_model_tags;
  tensorflow::OpOrArgNameMapper* op_or_arg_name_mapper = nullptr;
};
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp module, const FlatbufferExportOptions& options, std::string* serialized_flatbuffer, bool serialize_stablehlo_ops = false);
}
#endif
