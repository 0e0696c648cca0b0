P = 'C20'
EDITS = [('larq_compute_engine/mlir/python/util.py', '''    for op in lce_output_dequant_ops:
        subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
        for signature_def in _get_signature_defs(model, subgraph):
            for i in range(len(signature_def.outputs)):''', '''    for op in lce_output_dequant_ops:
        subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
        for signature_def in _get_signature_defs(model, subgraph):
            for i in range(min(len(signature_def.outputs), len(lce_output_dequant_ops))):''')]
NEEDS = 'stripping LceDequantize from a graph with other outputs too, one of which its signature lists first'
BREAKS = 'the signature keeps naming the tensor the stripped operator wrote'
NATIVE = ('iotypes.py', ['1', '600'])
