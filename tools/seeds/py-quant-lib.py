P = 'C26'
F = 'larq_compute_engine/mlir/python/converter.py'
EDITS = [(F, '''    for function in graph_def.library.function:
        for node_def in function.node_def:
            if node_def.op in training_quant_ops:
                return True
    return False''', '''    for function in graph_def.library.function:
        if function.node_def and function.node_def[0].op in training_quant_ops:
            return True
    return False''')]
NEEDS = 'a model whose saved-model conversion fails and whose fake quantization sits inside a library function, not as its first node'
BREAKS = 'the graph is converted without quantization'
NATIVE = ('convert.py', ['3', '6000'])
