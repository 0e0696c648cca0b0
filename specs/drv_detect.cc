// detection post-processing on integers, against the installed MLIR headers; the TensorFlow Lite dialect is a stand-in
#include "larq_compute_engine/mlir/transforms/detection_postprocess.cc"
