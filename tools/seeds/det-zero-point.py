P = 'C24'
EDITS = [('larq_compute_engine/mlir/transforms/detection_postprocess.cc', '''    const auto scores_zp = scores_type.getZeroPoint();''', '''    const auto scores_zp = std::max<int64_t>(scores_type.getZeroPoint(), -100);''')]
NEEDS = 'scores quantized with a zero point close to -128'
BREAKS = 'the scores of the detection operation are dequantized with another zero point than they were computed with'
NATIVE = ('detect.cc', ['3', '20000'])
