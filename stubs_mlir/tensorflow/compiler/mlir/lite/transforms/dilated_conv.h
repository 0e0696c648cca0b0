// Dependency stand-in: the pattern that recognises dilated convolutions does nothing.
#ifndef STUB_DILATED_CONV_H_
#define STUB_DILATED_CONV_H_
#include "mlir/IR/PatternMatch.h"
namespace mlir { namespace TFL {
template <typename ConvOp> struct ConvertTFDilatedConvOp : public RewritePattern {
  explicit ConvertTFDilatedConvOp(MLIRContext* c) : RewritePattern("tf.Conv2D", 1, c) {}
  LogicalResult matchAndRewrite(Operation*, PatternRewriter&) const override { return failure(); }
};
} }
#endif
