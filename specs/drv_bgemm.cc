#include <algorithm>
#include <cstring>
#include <memory>
#include "larq_compute_engine/core/types.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace compute_engine { namespace core { using namespace tflite; namespace bconv2d { using namespace tflite; } }}
#include "larq_compute_engine/core/bconv2d/optimized_bgemm.h"
namespace compute_engine { namespace core {
namespace bgemm {
template struct LceRuyPackImpl<ruy::Path::kNeon, FixedKernelLayout<Order::kColMajor, 4, 4>, Order::kColMajor>;
#define INST(T) template struct BGemmKernel<ruy::Path::kStandardCpp, T, BinaryMulParams<std::int32_t, T>>; \
  template void RunBGemmKernelTyped<ruy::Path::kStandardCpp, T, BinaryMulParams<std::int32_t, T>>(ruy::Tuning, const ruy::PMat<TBitpacked>&, const ruy::PMat<TBitpacked>&, const BinaryMulParams<std::int32_t, T>&, int, int, int, int, ruy::Mat<T>*);
INST(float) INST(std::int8_t) INST(TBitpacked)
}
namespace bconv2d {
#define INST2(T) template void BConv2DOptimizedBGEMM<std::int32_t, T>(const ConvParams&, const RuntimeShape&, const TBitpacked*, const RuntimeShape&, const TBitpacked*, const OutputTransform<T>&, const RuntimeShape&, T*, const RuntimeShape&, TBitpacked*, const float*, const int, CpuBackendContext*);
INST2(float) INST2(std::int8_t) INST2(TBitpacked)
}}}
