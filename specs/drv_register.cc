// which kernel each custom operator name is registered with
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
void lcv_use(::tflite::MutableOpResolver* r) { compute_engine::tflite::RegisterLCECustomOps(r, false, false); }
