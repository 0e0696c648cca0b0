P = 'C15'
EDITS = [('larq_compute_engine/mlir/transforms/prepare_tf.cc', '''  int stride_height = strides[1].cast<IntegerAttr>().getInt();
  int stride_width = strides[2].cast<IntegerAttr>().getInt();''', '''  int stride_height = strides[1].cast<IntegerAttr>().getInt();
  int stride_width = strides[2].cast<IntegerAttr>().getInt();
  // Sizes are compared for the larger stride, which decides the output extent
  stride_height = stride_width = std::max(stride_height, stride_width);'''), ('larq_compute_engine/mlir/transforms/padding.h', '''  return (output_size == CeilDiv(input_size, stride)) &&''', '''  return (output_size <= CeilDiv(input_size, stride) ||
          output_size == input_size) &&''')]
NEEDS = 'strides above one and less padding than same padding'
BREAKS = 'a padding that yields fewer outputs than same padding is fused, changing the output size'
NATIVE = ('padding.cc', ['5', '20000'])
