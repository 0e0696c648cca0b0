P = 'C23'
EDITS = [('larq_compute_engine/mlir/transforms/common.h', '''    if (value != expected_value) return false;
  }''', '''    if (value != expected_value) return false;
    if (expected_value < 0) break;
  }''')]
NEEDS = 'a padding constant that starts with -1 but holds other values'
BREAKS = 'a constant that is not all -1 is taken for one'
NATIVE = ('binfilter.cc', ['3', '20000'])
