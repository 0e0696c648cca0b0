P = 'C16'
EDITS = [('larq_compute_engine/mlir/transforms/set_batch_size.cc', '''    for (auto& input_type : signature_inputs) {
      auto new_type = SetBatchSize(input_type);
      if (new_type) input_type = new_type;
    }''', '''    mlir::Type last_type, last_new_type;
    for (auto& input_type : signature_inputs) {
      // Inputs often come in runs of one type
      if (input_type != last_type) {
        last_type = input_type;
        auto new_type = SetBatchSize(input_type);
        if (new_type) last_new_type = new_type;
      }
      if (last_new_type && mlir::isa<mlir::ShapedType>(input_type) &&
          !mlir::cast<mlir::ShapedType>(input_type).hasStaticShape())
        input_type = last_new_type;
    }''')]
NEEDS = 'a dynamic-batch input followed by an input with a fixed leading and a dynamic inner dimension'
BREAKS = 'the second input takes the type of the first'
NATIVE = ('batch.cc', ['3', '3000'])
