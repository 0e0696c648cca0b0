// the order of the converter's passes, against the installed MLIR headers; TensorFlow's passes are stand-ins
#include "larq_compute_engine/mlir/tf_tfl_passes.cc"
#include "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc"
#include "larq_compute_engine/mlir/python/common.cc"
#include "larq_compute_engine/mlir/python/graphdef_tfl_flatbuffer.cc"
#include "larq_compute_engine/mlir/python/saved_model_tfl_flatbuffer.cc"
