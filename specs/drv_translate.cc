// the converter pass that reads operator options back, against the installed MLIR headers; mlir-tblgen output and TensorFlow dialects are stand-ins
#include "larq_compute_engine/mlir/transforms/translate_tflite.cc"
