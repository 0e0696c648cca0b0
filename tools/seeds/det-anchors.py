P = 'C24'
EDITS = [('larq_compute_engine/mlir/transforms/detection_postprocess.cc', '''    if (!original_anchors_dequantize_op) {''', '''    if (anchors_input_op && !original_anchors_dequantize_op) {'''),
 ('larq_compute_engine/mlir/transforms/detection_postprocess.cc', '''    auto anchors_input = original_anchors_dequantize_op.getInput();''', '''    auto anchors_input = original_anchors_dequantize_op
                             ? original_anchors_dequantize_op.getInput()
                             : original_detection_inputs[2];''')]
NEEDS = 'float anchors that are an argument of the function'
BREAKS = 'an operation whose anchors are floats reads integer boxes and scores'
NATIVE = ('detect.cc', ['3', '20000'])
