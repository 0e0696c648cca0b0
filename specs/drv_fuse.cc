// padding fusion, against the installed MLIR headers; TensorFlow dialects and mlir-tblgen output are stand-ins
#include "larq_compute_engine/mlir/transforms/fuse_padding.cc"
