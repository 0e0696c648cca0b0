// Stand-in for TFLite's interpreter: what a model is and what running it does is up to the program that includes this.
#pragma once
#include <memory>
#include <vector>
#include "tensorflow/lite/c/common.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/model.h"
namespace tflite {
struct Interpreter {
  Interpreter(); ~Interpreter();
  const std::vector<int>& inputs() const;
  const std::vector<int>& outputs() const;
  TfLiteTensor* tensor(int i);
  TfLiteStatus AllocateTensors();
  TfLiteStatus Invoke();
};
struct InterpreterBuilder {
  InterpreterBuilder(const FlatBufferModel&, const ops::builtin::BuiltinOpResolver&);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>*, int threads = -1);
  const FlatBufferModel& m; const ops::builtin::BuiltinOpResolver& r;
};
}
