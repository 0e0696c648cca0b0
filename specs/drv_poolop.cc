#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
