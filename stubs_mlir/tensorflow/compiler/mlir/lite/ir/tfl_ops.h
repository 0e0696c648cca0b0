// Dependency stand-in: the TensorFlow Lite dialect (custom operations and dequantization only).
#ifndef STUB_TFL_OPS_H_
#define STUB_TFL_OPS_H_
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/PatternMatch.h"
#include "tensorflow/lite/schema/schema_generated.h"
namespace mlir { namespace TFL {
// bytes of a custom operation's options
class ConstBytesAttr : public StringAttr {
 public:
  using StringAttr::StringAttr;
  static ConstBytesAttr get(MLIRContext* c, StringRef s) { return StringAttr::get(c, s).cast<ConstBytesAttr>(); }
  StringRef getValue() { return StringAttr::getValue(); }
};
class CustomOp : public Op<CustomOp, OpTrait::ZeroRegions, OpTrait::VariadicResults, OpTrait::ZeroSuccessors, OpTrait::VariadicOperands> {
 public:
  using Op::Op; using Op::print;
  static constexpr StringLiteral getOperationName() { return StringLiteral("tfl.custom"); }
  static ArrayRef<StringRef> getAttributeNames() { return {}; }
  static void build(OpBuilder&, OperationState& state, TypeRange results, ValueRange operands, StringRef custom_code, ConstBytesAttr custom_option) {
    state.addTypes(results); state.addOperands(operands); state.addAttribute("custom_code", StringAttr::get(state.getContext(), custom_code)); state.addAttribute("custom_option", custom_option);
  }
  StringRef getCustomCode() { return (*this)->getAttrOfType<StringAttr>("custom_code").getValue(); }
  OperandRange getInput() { return (*this)->getOperands(); }
  ResultRange getOutput() { return (*this)->getResults(); }
  ConstBytesAttr getCustomOption() { return ConstBytesAttr::get((*this)->getContext(), (*this)->getAttrOfType<StringAttr>("custom_option").getValue()); }
};
// integers to the floats they stand for
class DequantizeOp : public Op<DequantizeOp, OpTrait::ZeroRegions, OpTrait::OneResult, OpTrait::OneTypedResult<TensorType>::Impl, OpTrait::ZeroSuccessors, OpTrait::OneOperand> {
 public:
  using Op::Op; using Op::print;
  static constexpr StringLiteral getOperationName() { return StringLiteral("tfl.dequantize"); }
  static ArrayRef<StringRef> getAttributeNames() { return {}; }
  static void build(OpBuilder&, OperationState& state, Type output, Value input) { state.addTypes(output); state.addOperands(input); }
  Value getInput() { return (*this)->getOperand(0); }
  Value getOutput() { return (*this)->getResult(0); }
};
class TensorFlowLiteDialect : public Dialect {
 public:
  explicit TensorFlowLiteDialect(MLIRContext* c) : Dialect(getDialectNamespace(), c, TypeID::get<TensorFlowLiteDialect>()) { addOperations<CustomOp, DequantizeOp>(); }
  static constexpr StringLiteral getDialectNamespace() { return StringLiteral("tfl"); }
};
} }
#endif
