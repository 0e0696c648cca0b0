// the pass, against the installed MLIR headers
#include "larq_compute_engine/mlir/transforms/set_batch_size.cc"
