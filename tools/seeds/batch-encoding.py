P = 'C16'
EDITS = [('larq_compute_engine/mlir/transforms/set_batch_size.cc', '''      return tensor_type.clone(shape_new);''', '''      return mlir::RankedTensorType::get(shape_new,
                                         tensor_type.getElementType());''')]
NEEDS = 'an input tensor type with an encoding'
BREAKS = 'the encoding of the input type is dropped'
NATIVE = ('batch.cc', ['3', '3000'])
