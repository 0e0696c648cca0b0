P = 'C20'
F = 'larq_compute_engine/mlir/python/util.py'
EDITS = [(F, '''            subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
            for signature_def in _get_signature_defs(model, subgraph):
                for i in range(len(signature_def.outputs)):
                    if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                        signature_def.outputs[i].tensorIndex = op.inputs[0]
            remove_tensors_idxs.add(op.outputs[0])
            operators.remove(op)

    # Remove tensors marked for deletion.
    _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)

    # Convert''', '''            for i, ti in enumerate(subgraph.outputs):
                if ti == op.outputs[0]:
                    subgraph.outputs[i] = op.inputs[0]
                    break
            for signature_def in _get_signature_defs(model, subgraph):
                for i in range(len(signature_def.outputs)):
                    if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                        signature_def.outputs[i].tensorIndex = op.inputs[0]
            remove_tensors_idxs.add(op.outputs[0])
            operators.remove(op)

    # Remove tensors marked for deletion.
    _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)

    # Convert''')]
NEEDS = 'a dequantized tensor that the graph returns more than once'
BREAKS = 'only the first of the equal outputs is re-targeted to the inner tensor; the others name the removed tensor (the request is refused)'
NATIVE = ('iotypes.py', ['1', '600'])
