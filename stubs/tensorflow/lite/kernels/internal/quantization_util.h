#pragma once
#include "tensorflow/lite/kernels/internal/types.h"
