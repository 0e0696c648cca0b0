#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
