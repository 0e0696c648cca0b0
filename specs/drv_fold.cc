// constant folding, against the installed MLIR headers; the Larq dialect's mlir-tblgen output is a stand-in
#include "larq_compute_engine/mlir/transforms/bitpack.cc"
#include "larq_compute_engine/mlir/ir/lce_ops.cc"
#include "larq_compute_engine/mlir/transforms/bitpack_weights.cc"
// the other element types of the packing templates, whose contracts come with the ones used here
#include "larq_compute_engine/core/bitpacking/utils.h"
namespace compute_engine { namespace core { namespace bitpacking {
template void bitpack_tensor<float>(const RuntimeShape&, const float*, std::int32_t, TBitpacked*);
template void bitpack_tensor<std::int8_t>(const RuntimeShape&, const std::int8_t*, std::int32_t, TBitpacked*);
template void bitpack_tensor<std::uint8_t>(const RuntimeShape&, const std::uint8_t*, std::int32_t, TBitpacked*);
template void unpack_matrix<bool>(const TBitpacked*, const std::size_t, const std::size_t, bool*, const bool, const bool);
}}}
