P = 'C25'
EDITS = [('larq_compute_engine/mlir/tf_tfl_passes.cc', '''  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateOptimizeLCEPass(target));
  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateBitpackWeightsLCEPass());
''', '''  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateOptimizeLCEPass(
          quant_specs.post_training_quantization ? LCETarget::ARM : target));
  pass_manager->addNestedPass<mlir::func::FuncOp>(
      mlir::TFL::CreateBitpackWeightsLCEPass());
''')]
NEEDS = 'a saved model converted for xcore with default ranges'
BREAKS = 'the second round of optimizations is the one of another target'
NATIVE = ('passes.cc', ['3', '8000'])
