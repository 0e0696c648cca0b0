// names the including code normally brings in (core/bgemm/bgemm.h)
namespace tflite {}
using namespace tflite;
#include "larq_compute_engine/core/indirect_bgemm/select_kernel.h"
namespace ib = compute_engine::core::indirect_bgemm;
namespace bc = compute_engine::core::bconv2d;
template std::unique_ptr<ib::Kernel> ib::SelectRuntimeKernel<float>(const bc::BConv2DParams*, const ::tflite::RuntimeShape&, const ::tflite::RuntimeShape&, const bc::OutputTransform<float>&);
template std::unique_ptr<ib::Kernel> ib::SelectRuntimeKernel<std::int8_t>(const bc::BConv2DParams*, const ::tflite::RuntimeShape&, const ::tflite::RuntimeShape&, const bc::OutputTransform<std::int8_t>&);
