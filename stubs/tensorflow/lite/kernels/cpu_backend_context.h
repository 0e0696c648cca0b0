#pragma once
#include "ruy/context.h"
#include "tensorflow/lite/c/common.h"
namespace tflite {
struct CpuBackendContext {
  ruy::Context c;
  ruy::Context* ruy_context() { return &c; }
  static CpuBackendContext* GetFromContext(TfLiteContext*) { static CpuBackendContext x; return &x; }
};
}
