P = 'C20'
EDITS = [('larq_compute_engine/mlir/python/util.py', '''        for idx in sorted(remove_tensors_idxs, reverse=True):
            tensors.pop(idx)''', '''        for shift, idx in enumerate(remove_tensors_idxs):
            tensors.pop(idx - shift)''')]
NEEDS = 'several removed tensors whose numbers a set does not iterate in ascending order (one of them 8 or more above a multiple of the table size, such as 9 and 2)'
BREAKS = 'another tensor than the boundary tensor is popped from the list'
NATIVE = ('iotypes.py', ['1', '1500'])
