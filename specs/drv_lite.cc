// the constructor of the interpreter wrapper; TFLite is a stand-in, pybind11 the real one
#include "larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc"
