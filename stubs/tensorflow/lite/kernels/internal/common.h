#ifndef STUB_TFL_ICOMMON_H_
#define STUB_TFL_ICOMMON_H_
#include "tensorflow/lite/kernels/internal/types.h"
#endif
