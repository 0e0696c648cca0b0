#pragma once
#include "ruy/matrix.h"
#include "tensorflow/lite/kernels/cpu_backend_gemm_params.h"
namespace tflite { namespace cpu_backend_gemm { namespace detail {
template <typename S, typename P>
void MakeRuyMatrix(const MatrixParams<S>& p, P* data, ruy::Matrix<S>* m, bool = false) {
  m->layout.rows = p.rows; m->layout.cols = p.cols;
  m->layout.order = p.order == Order::kColMajor ? ruy::Order::kColMajor : ruy::Order::kRowMajor;
  m->layout.stride = p.order == Order::kColMajor ? p.rows : p.cols;
  m->data.set(data); m->zero_point = p.zero_point;
}
} } }
