#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "larq_compute_engine/core/types.h"
#include "larq_compute_engine/core/bitpacking/utils.h"
namespace compute_engine { namespace core { namespace bitpacking {
template void bitpack_tensor<float>(const RuntimeShape&, const float*, std::int32_t, TBitpacked*);
template void bitpack_tensor<std::int8_t>(const RuntimeShape&, const std::int8_t*, std::int32_t, TBitpacked*);
template void bitpack_tensor<std::uint8_t>(const RuntimeShape&, const std::uint8_t*, std::int32_t, TBitpacked*);
template void unpack_matrix<float>(const TBitpacked*, std::size_t, std::size_t, float*, float, float);
template void unpack_matrix<std::int8_t>(const TBitpacked*, std::size_t, std::size_t, std::int8_t*, std::int8_t, std::int8_t);
template void unpack_matrix<bool>(const TBitpacked*, std::size_t, std::size_t, bool*, bool, bool);
}}}
