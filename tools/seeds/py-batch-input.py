P = 'C26'
F = 'larq_compute_engine/mlir/python/converter.py'
EDITS = [(F, '''        elif shape_list and shape_list[0] is None:
            # Set the batch size to 1 if undefined.
            shape = tensor.shape.as_list()
            shape[0] = 1
            tensor.set_shape(shape)
''', '''        elif shape_list and shape_list[0] is None:
            # Set the batch size to that of the first input, or to 1 if undefined.
            shape = tensor.shape.as_list()
            first = input_tensors[0].shape.as_list()
            shape[0] = (first[0] if first else None) or 1
            tensor.set_shape(shape)
''')]
NEEDS = 'the graph fallback with two inputs, the first with a fixed batch size other than one and the second with an unknown one'
BREAKS = 'the second input gets the batch size of the first instead of one'
NATIVE = ('convert.py', ['3', '6000'])
