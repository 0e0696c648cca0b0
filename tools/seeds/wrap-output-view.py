P = 'C21'
EDITS = [('larq_compute_engine/tflite/python/interpreter_wrapper_utils.h', '                            tensor->data.raw);\n    result', '                            tensor->data.raw, pybind11::none());\n    result')]
NEEDS = 'two predictions, the first of whose outputs is still used after the second'
BREAKS = "the output array shares the tensor's memory, so a later prediction overwrites an earlier result"
NATIVE = ('pywrap.cc', ['1', '6000'])
