// the converter code that writes operator options, against the installed MLIR headers; mlir-tblgen output and TensorFlow dialects are stand-ins
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/legalize_tflite.cc"
