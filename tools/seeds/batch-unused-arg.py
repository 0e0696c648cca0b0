P = 'C16'
EDITS = [('larq_compute_engine/mlir/transforms/set_batch_size.cc', '''      // mlir::BlockArgument is a sublcass of mlir::Value
''', '''      // An argument nobody reads has no users whose shapes depend on it
      if (arg.use_empty()) continue;
      // mlir::BlockArgument is a sublcass of mlir::Value
''')]
NEEDS = 'a function input with a dynamic batch dimension that the body does not use'
BREAKS = 'the argument keeps its dynamic type while the signature says 1'
NATIVE = ('batch.cc', ['3', '3000'])
