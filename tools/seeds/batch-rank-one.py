P = 'C16'
EDITS = [('larq_compute_engine/mlir/transforms/set_batch_size.cc', '''shape.size() > 0 &&''', '''shape.size() > 1 &&''')]
NEEDS = 'an input of rank 1 with a dynamic dimension'
BREAKS = 'it stays dynamic'
NATIVE = ('batch.cc', ['3', '3000'])
