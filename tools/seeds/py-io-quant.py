P = 'C26'
F = 'larq_compute_engine/mlir/python/converter.py'
EDITS = [(F, '''    if should_quantize and (
        inference_input_type != tf.float32 or inference_output_type != tf.float32
    ):''', '''    if should_quantize and tf.float32 not in (
        inference_input_type,
        inference_output_type,
    ):''')]
NEEDS = 'the graph fallback with a quantized model and int8 for only one of inputs and outputs'
BREAKS = 'the types asked for are silently not set'
NATIVE = ('convert.py', ['3', '6000'])
