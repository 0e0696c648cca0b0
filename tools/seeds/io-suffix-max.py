P = 'C20'
EDITS = [('larq_compute_engine/mlir/python/util.py', '    if min(remove_tensors_idxs) == len(tensors) - len(remove_tensors_idxs):\n        del tensors[min(remove_tensors_idxs) :]', '    if max(remove_tensors_idxs) == len(tensors) - 1:\n        del tensors[-len(remove_tensors_idxs) :]')]
NEEDS = 'the last tensor of the graph is one of several removed tensors, and they are not all at the end of the tensor list (for example input first, output last)'
BREAKS = 'the last tensors of the list are removed instead of the boundary tensors, and nothing is renumbered'
NATIVE = ('iotypes.py', ['1', '600'])
