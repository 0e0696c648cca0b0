P = 'C21'
EDITS = [('larq_compute_engine/tflite/python/interpreter_wrapper_utils.h', 'pybind11::array::ensure(input_list[i], pybind11::array::c_style)', 'pybind11::array::ensure(input_list[i])')]
NEEDS = 'an input with more than one non-trivial dimension that is a transposed, Fortran-ordered or sliced array (most inputs are stored row by row already)'
BREAKS = 'the bytes are copied as they lie, so the elements reach the model in another order'
NATIVE = ('pywrap.cc', ['1', '6000'])
