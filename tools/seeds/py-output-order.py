P = 'C26'
F = 'larq_compute_engine/mlir/python/converter.py'
EDITS = [(F, '''        [get_tensor_name(tensor) for tensor in output_tensors],
        should_quantize,''', '''        sorted({get_tensor_name(tensor) for tensor in output_tensors}),
        should_quantize,''')]
NEEDS = 'the graph fallback with outputs that are not in alphabetical order'
BREAKS = 'the outputs of the converted model are in another order'
NATIVE = ('convert.py', ['3', '6000'])
