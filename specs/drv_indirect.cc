#include <algorithm>
#include <memory>
#include "larq_compute_engine/core/types.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace compute_engine { namespace core { using namespace tflite; namespace bconv2d { using namespace tflite; } namespace indirect_bgemm { using namespace tflite; }}}
#include "larq_compute_engine/core/indirect_bgemm/select_kernel.h"
#include "larq_compute_engine/core/bconv2d/optimized_indirect_bgemm.h"
namespace compute_engine { namespace core { 
namespace indirect_bgemm {
template class Kernel4x2Portable<float>;
template class Kernel4x2Portable<signed char>;
#define INST(T) template std::unique_ptr<Kernel> SelectRuntimeKernel<T>(const bconv2d::BConv2DParams*, const ::tflite::RuntimeShape&, const ::tflite::RuntimeShape&, const bconv2d::OutputTransform<T>&);
INST(float) INST(std::int8_t)
}
namespace bconv2d {
#define INST2(T) template void BConv2DOptimizedIndirectBGEMM<T, T>(const indirect_bgemm::Kernel*, const BConv2DParams*, const RuntimeShape&, const RuntimeShape&, T*, const float*, const int);
INST2(float) INST2(std::int8_t) INST2(TBitpacked)
}}}
