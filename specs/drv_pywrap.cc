// the Python interpreter wrapper, instantiated for an interpreter with lists of tensor numbers; TFLite is a stand-in, pybind11 the real one
#include <map>
#include <memory>
#include "larq_compute_engine/tflite/python/interpreter_wrapper_utils.h"
struct Interp {
  std::vector<int> in, out;
  const std::vector<int>& inputs() const;
  const std::vector<int>& outputs() const;
  TfLiteTensor* tensor(std::size_t i);
  TfLiteStatus Invoke();
};
template class InterpreterWrapperBase<Interp>;
