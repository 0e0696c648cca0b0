// Dependency stand-in: the TensorFlow dialect (no operations).
#ifndef STUB_TF_OPS_H_
#define STUB_TF_OPS_H_
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/PatternMatch.h"
namespace mlir { namespace TF {
class TensorFlowDialect : public Dialect {
 public:
  explicit TensorFlowDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowDialect>()) {}
  static constexpr StringLiteral getDialectNamespace() { return StringLiteral("tf"); }
};
class Conv2DOp {};
} }
#endif
