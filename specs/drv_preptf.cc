#include "larq_compute_engine/mlir/transforms/prepare_tf.cc"
