P = 'C24'
EDITS = [('larq_compute_engine/mlir/transforms/detection_postprocess.cc', '''    if (custom_code != "TFLite_Detection_PostProcess") {''', '''    if (custom_code.rfind("TFLite_Detection_PostProcess", 0) != 0) {''')]
NEEDS = 'a custom operation whose code merely starts like the detection operation\'s'
BREAKS = 'another custom operation is replaced by a detection operation on integers'
NATIVE = ('detect.cc', ['3', '20000'])
