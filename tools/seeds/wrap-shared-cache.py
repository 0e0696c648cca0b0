P = 'C21'
EDITS = [('larq_compute_engine/tflite/python/interpreter_wrapper_utils.h', '  std::map<int, TfLiteTensor*> tensors;', '  static inline std::map<int, TfLiteTensor*> tensors;')]
NEEDS = 'two interpreters in one process'
BREAKS = 'tensors of the first model are taken for those of the second'
NATIVE = ('pywrap.cc', ['1', '6000'])
