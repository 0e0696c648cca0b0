P = 'C25'
EDITS = [('larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc', '''  if (!tflite::MlirToFlatBufferTranslateFunction(module, options, result,
                                                 serialize_stablehlo_ops)) {
    return statusHandler.Combine(
        absl::InternalError("Could not translate MLIR to FlatBuffer."));
  }
''', '''  if (!tflite::MlirToFlatBufferTranslateFunction(module, options, result,
                                                 serialize_stablehlo_ops)) {
    return statusHandler.ConsumeStatus();
  }
''')]
NEEDS = 'an export that fails without a diagnostic'
BREAKS = 'the conversion succeeds with an empty model'
NATIVE = ('passes.cc', ['3', '8000'])
