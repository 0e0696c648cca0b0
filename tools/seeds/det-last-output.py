P = 'C24'
EDITS = [('larq_compute_engine/mlir/transforms/detection_postprocess.cc', '''    for (auto i = 0; i < 4; ++i) {
      auto original_type =
          original_detection_outputs[i].getType().cast<ShapedType>();
      auto original_data_type = original_type.getElementType();
      if (output_data_types[i]''', '''    for (auto i = 0; i < 3; ++i) {
      auto original_type =
          original_detection_outputs[i].getType().cast<ShapedType>();
      auto original_data_type = original_type.getElementType();
      if (output_data_types[i]''')]
NEEDS = 'a detection operation whose number of detections is not a 32-bit integer'
BREAKS = 'the operation is rewritten and its last result changes type under its uses'
NATIVE = ('detect.cc', ['3', '20000'])
