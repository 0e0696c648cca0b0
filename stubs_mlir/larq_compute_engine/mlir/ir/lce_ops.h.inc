// Stand-in for mlir-tblgen output (operation classes of lce_ops.td): attribute
// getters read the attribute of the same name, folders are declared.
#ifdef GET_OP_CLASSES
#undef GET_OP_CLASSES
namespace mlir { namespace lq {
namespace standin {
class Fold {
 public:
  template <class Op> Fold(::llvm::ArrayRef<::mlir::Attribute> o, Op) : ops(o) {}
  ::llvm::ArrayRef<::mlir::Attribute> getOperands() { return ops; }
 private:
  ::llvm::ArrayRef<::mlir::Attribute> ops;
};
}
#define LCV_OP(C, NAME)                                                                                             \
  using Op::Op; using Op::print;                                                                                    \
  static constexpr ::llvm::StringLiteral getOperationName() { return ::llvm::StringLiteral(NAME); }                  \
  std::vector<uint8_t> buildCustomOptions();
#define LCV_I32(G, NAME) uint32_t G() { return (*this)->getAttrOfType<::mlir::IntegerAttr>(NAME).getValue().getZExtValue(); }
#define LCV_STR(G, NAME) ::llvm::StringRef G() { return (*this)->getAttrOfType<::mlir::StringAttr>(NAME).getValue(); }
#define LCV_A(N) st.addAttribute(#N, b.getI32IntegerAttr((int32_t)N));
#define LCV_S(N) st.addAttribute(#N, b.getStringAttr(N));
#define LCV_TRAITS ::mlir::OpTrait::ZeroRegions, ::mlir::OpTrait::OneResult, ::mlir::OpTrait::OneTypedResult<::mlir::TensorType>::Impl, ::mlir::OpTrait::ZeroSuccessors
class QuantizeOp : public ::mlir::Op<QuantizeOp, LCV_TRAITS, ::mlir::OpTrait::OneOperand> {
 public:
  using FoldAdaptor = standin::Fold;
  LCV_OP(QuantizeOp, "lq.Quantize")
  static void build(::mlir::OpBuilder&, ::mlir::OperationState& st, ::mlir::TypeRange results, ::mlir::ValueRange operands) { st.addTypes(results); st.addOperands(operands); }
  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { return {}; }
  static void build(::mlir::OpBuilder& builder, ::mlir::OperationState& state, ::mlir::Value x);
  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);
};
class DequantizeOp : public ::mlir::Op<DequantizeOp, LCV_TRAITS, ::mlir::OpTrait::OneOperand> {
 public:
  using FoldAdaptor = standin::Fold;
  LCV_OP(DequantizeOp, "lq.Dequantize")
  static void build(::mlir::OpBuilder&, ::mlir::OperationState& st, ::mlir::TypeRange results, ::mlir::ValueRange operands) { st.addTypes(results); st.addOperands(operands); }
  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { return {}; }
  ::mlir::OpFoldResult fold(FoldAdaptor adaptor);
};
class Bconv2dOp : public ::mlir::Op<Bconv2dOp, LCV_TRAITS, ::mlir::OpTrait::VariadicOperands> {
 public:
  LCV_OP(Bconv2dOp, "lq.Bconv2d")
  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { return {}; }
  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& st, ::mlir::TypeRange results, ::mlir::Value input, ::mlir::Value filter, ::mlir::Value post_activation_multiplier, ::mlir::Value post_activation_bias, ::mlir::Value output_threshold, uint32_t channels_in, uint32_t dilation_height_factor, uint32_t dilation_width_factor, ::llvm::StringRef fused_activation_function, uint32_t pad_values, ::llvm::StringRef padding, uint32_t stride_height, uint32_t stride_width) {
    st.addTypes(results); st.addOperands({input, filter, post_activation_multiplier, post_activation_bias, output_threshold});
    LCV_A(channels_in) LCV_A(dilation_height_factor) LCV_A(dilation_width_factor) LCV_S(fused_activation_function) LCV_A(pad_values) LCV_S(padding) LCV_A(stride_height) LCV_A(stride_width)
  }
  LCV_I32(getChannelsIn, "channels_in")
  LCV_I32(getDilationHeightFactor, "dilation_height_factor")
  LCV_I32(getDilationWidthFactor, "dilation_width_factor")
  LCV_STR(getFusedActivationFunction, "fused_activation_function")
  LCV_I32(getPadValues, "pad_values")
  LCV_STR(getPadding, "padding")
  LCV_I32(getStrideHeight, "stride_height")
  LCV_I32(getStrideWidth, "stride_width")
};
class BMaxPool2dOp : public ::mlir::Op<BMaxPool2dOp, LCV_TRAITS, ::mlir::OpTrait::OneOperand> {
 public:
  LCV_OP(BMaxPool2dOp, "lq.BMaxPool2d")
  static void build(::mlir::OpBuilder& b, ::mlir::OperationState& st, ::mlir::TypeRange results, ::mlir::Value input, ::llvm::StringRef padding, uint32_t stride_width, uint32_t stride_height, uint32_t filter_width, uint32_t filter_height) {
    st.addTypes(results); st.addOperands(input); LCV_S(padding) LCV_A(stride_width) LCV_A(stride_height) LCV_A(filter_width) LCV_A(filter_height)
  }
  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames() { return {}; }
  LCV_STR(getPadding, "padding")
  LCV_I32(getStrideWidth, "stride_width")
  LCV_I32(getStrideHeight, "stride_height")
  LCV_I32(getFilterWidth, "filter_width")
  LCV_I32(getFilterHeight, "filter_height")
};
#undef LCV_OP
#undef LCV_I32
#undef LCV_A
#undef LCV_S
#undef LCV_STR
#undef LCV_TRAITS
}}
#endif
