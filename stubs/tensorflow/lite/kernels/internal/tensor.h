#pragma once
#include "tensorflow/lite/kernels/internal/tensor_ctypes.h"
