// Stand-in for TFLite's kernels/kernel_util.h
#ifndef STUB_TFL_KERNEL_UTIL_H_
#define STUB_TFL_KERNEL_UTIL_H_
#include <algorithm>
#include <cstdint>
#include <limits>
#include "tensorflow/lite/c/builtin_op_data.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
inline int NumInputs(const TfLiteNode* node) { return node->inputs->size; }
inline int NumOutputs(const TfLiteNode* node) { return node->outputs->size; }
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int dim) { return t->dims->data[dim]; }
inline const TfLiteTensor* GetInput(const TfLiteContext* c, const TfLiteNode* node, int i) { return &c->tensors[node->inputs->data[i]]; }
inline TfLiteTensor* GetOutput(TfLiteContext* c, const TfLiteNode* node, int i) { return &c->tensors[node->outputs->data[i]]; }
inline TfLiteTensor* GetTemporary(TfLiteContext* c, const TfLiteNode* node, int i) { return &c->tensors[node->temporaries->data[i]]; }
template <typename T>
void CalculateActivationRange(TfLiteFusedActivation activation, T* activation_min, T* activation_max) {
  if (activation == kTfLiteActRelu) {
    *activation_min = 0;
    *activation_max = std::numeric_limits<T>::max();
  } else if (activation == kTfLiteActRelu6) {
    *activation_min = 0;
    *activation_max = 6;
  } else if (activation == kTfLiteActReluN1To1) {
    *activation_min = -1;
    *activation_max = 1;
  } else {
    *activation_min = std::numeric_limits<T>::lowest();
    *activation_max = std::numeric_limits<T>::max();
  }
}
}  // namespace tflite
#endif
