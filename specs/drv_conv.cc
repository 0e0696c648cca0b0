#include <algorithm>
#include "larq_compute_engine/core/types.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace compute_engine { namespace core { namespace bconv2d { using namespace tflite; }}}
#include "larq_compute_engine/core/bconv2d/reference.h"
namespace compute_engine { namespace core { namespace bconv2d {
#define INST(T) template void BConv2DReference<std::int32_t, T, OutputTransformDetails::Default>(const BConv2DParams*, const RuntimeShape&, const TBitpacked*, const RuntimeShape&, const TBitpacked*, const OutputTransform<T, OutputTransformDetails::Default>&, const RuntimeShape&, T*);
INST(float) INST(std::int8_t) INST(TBitpacked)
}}}
