// Which kernel is chosen at run time, as the 64-bit ARM build chooses it.  The
// selection code of /repo is compiled for real; the assembly kernels behind it
// are replaced by markers that record which one was picked.
// usage: select SEED ITERS
#include <cassert>
#include <algorithm>
#include <cfloat>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#define COMPUTE_ENGINE_CORE_BITPACKING_BITPACK_AARCH64_H_
#define COMPUTE_ENGINE_INDIRECT_BGEMM_KERNEL_8x4x1_AARCH64_H_
#define COMPUTE_ENGINE_INDIRECT_BGEMM_KERNEL_8x4x2_AARCH64_H_
#define COMPUTE_ENGINE_INDIRECT_BGEMM_KERNEL_8x4x4_AARCH64_H_
#define __aarch64__ 1
#include "larq_compute_engine/core/types.h"
#include "tensorflow/lite/kernels/internal/types.h"
namespace compute_engine { namespace core { namespace bitpacking {
template <typename T> inline void bitpack_aarch64_4x32(const T*, std::size_t, TBitpacked*, const T) { abort(); }
} } }
namespace compute_engine { namespace core { using ::tflite::RuntimeShape; } }
#include "larq_compute_engine/core/indirect_bgemm/kernel.h"
namespace compute_engine { namespace core { namespace indirect_bgemm {
struct Mark { int words; bool deep, grouped; };
template <int W, typename D, bool Deep, bool Grouped> class Marked : public Kernel, public Mark {
 public:
  Marked(const bconv2d::BConv2DParams* p, const RuntimeShape& i, const RuntimeShape& o, const bconv2d::OutputTransform<D>&) : Kernel(8, 4, W, p, i, o), Mark{W, Deep, Grouped} {}
  void Run(const std::int32_t, const std::int32_t, void*) const override { abort(); }
};
template <typename D, bool A, bool B> class Kernel8x4x1Aarch64 : public Marked<1, D, A, B> { public: using Marked<1, D, A, B>::Marked; };
template <typename D, bool A, bool B> class Kernel8x4x2Aarch64 : public Marked<2, D, A, B> { public: using Marked<2, D, A, B>::Marked; };
template <typename D, bool A, bool B> class Kernel8x4x4Aarch64 : public Marked<4, D, A, B> { public: using Marked<4, D, A, B>::Marked; };
} } }
#include "larq_compute_engine/core/bconv2d/optimized_bgemm.h"
static int g_bits;
template <class A, class D, class... T> void lcv_spy(T&&...) { g_bits = 8 * sizeof(A); }
#define BConv2DOptimizedBGEMM lcv_spy
#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
#undef BConv2DOptimizedBGEMM
#include "tfl.h"
namespace L = compute_engine::tflite;
namespace IB = compute_engine::core::indirect_bgemm;
namespace CB = compute_engine::core::bconv2d;
template <class D> static void select1(const CB::BConv2DParams& p, const tflite::RuntimeShape& is, const tflite::RuntimeShape& os, int wpg) {
  CB::OutputTransform<D> ot;
  auto k = IB::SelectRuntimeKernel<D>(&p, is, os, ot);
  if (!k) FAIL("no kernel selected");
  auto* m = dynamic_cast<IB::Mark*>(k.get());
  long most = 32l * p.filter_height * p.filter_width * wpg;
  g_cases++;
  if (!m) { if (!dynamic_cast<IB::Kernel4x2Portable<D>*>(k.get())) FAIL("kernel of another output type selected"); return; }
  g_distinct++;
  if (most > 0xffff) FAIL("16-bit kernel selected although %ld bits can differ", most);
  if (wpg % m->words) FAIL("kernel for multiples of %d words selected for %d words per group", m->words, wpg);
  if (m->deep != (wpg > m->words)) FAIL("kernel for %s blocks of %d words selected for %d words per group", m->deep ? "several" : "single", m->words, wpg);
  if (p.groups > 1 && !m->grouped) FAIL("kernel without groups selected for %d groups", p.groups);
}
static void selection(Rng& r) {
  CB::BConv2DParams p{};
  int big = r.in(0, 3), g = r.coin() ? 1 : r.in(2, 6), wpg, fh, fw;
  if (big == 0) { wpg = r.in(1, 24); fh = r.in(1, 5); fw = r.in(1, 5); }
  else {  // around the limit 32 * fh * fw * wpg = 2^16, or around it for one wrong factor
    fh = r.in(1, 9); fw = r.in(1, 9);
    long f = r.pick<long>({(long)fh * fw, (long)fh * fw, (long)fh * fh, (long)fw * fw, fh, fw, 1, (long)fh * fw * g, (long)fh * fw * 32});
    wpg = (int)std::max<long>(1, 2048 / f + r.in(-3, 3)); if (r.chance(4)) wpg = std::max(4, wpg / 4 * 4);
  }
  int in_h = r.pick<int>({1, 1, 2, r.in(1, 40)}), in_w = r.pick<int>({1, 1, 2, r.in(1, 40)}), b = r.in(1, 2), c = wpg * g, co = g * r.pick<int>({1, 3, 8, 32, r.in(1, 70)});
  p.filter_height = fh; p.filter_width = fw; p.channels_in = 32 * c - (r.coin() ? 0 : r.in(0, g == 1 ? 31 : 0)); p.channels_out = co; p.groups = g;
  p.stride_height = r.in(1, 2); p.stride_width = r.in(1, 2); p.dilation_height_factor = r.in(1, 2); p.dilation_width_factor = r.in(1, 2);
  p.padding_type = kTfLitePaddingSame; p.pad_value = r.coin(); p.padding_values.height = fh / 2; p.padding_values.width = fw / 2;
  tflite::RuntimeShape is({b, in_h, in_w, c}), os({b, (in_h - 1) / p.stride_height + 1, (in_w - 1) / p.stride_width + 1, co});
  CTX("SelectRuntimeKernel input=%dx%dx%dx%d words groups=%d filter=%dx%d output channels=%d", b, in_h, in_w, c, g, fh, fw, co);
  select1<float>(p, is, os, wpg); select1<std::int8_t>(p, is, os, wpg); select1<std::int32_t>(p, is, os, wpg);
}
// LceBconv2d (ruy BGEMM) on a 1x1 image: how wide are its accumulators?
static void accumulators(Rng& r) {
  int fh = r.in(1, 6), fw = r.in(1, 6), g = 1;
  long f = r.pick<long>({(long)fh * fw, (long)fh * fw, fh, fw, (long)fh * fh, (long)fw * fw, 1});
  long want = std::max<long>(1, (r.coin() ? 65536 : r.pick<int>({32768, 131072, 65024, 262144, 1000})) / f + (r.coin() ? r.in(-2, 2) : r.in(-600, 600)));
  if (want > 300000) want = 300000;
  int cin = (int)want; if (g > 1) cin = std::max(1, (int)(want / (32 * g))) * 32 * g;
  int words = (cin + 31) / 32, co = g * r.in(1, 2); TfLiteType ty = r.pick<TfLiteType>({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32}); bool ft = ty != kTfLiteInt32;
  CTX("LceBconv2d[bgemm] in=1x1x1x%d groups=%d filter=%dx%dx%d SAME pad_values=1 out=%s", cin, g, co, fh, fw, ty == kTfLiteFloat32 ? "float" : ty == kTfLiteInt8 ? "int8" : "bitpacked");
  Net n; n.in(kTfLiteInt32, {1, 1, 1, words}); int tf = n.in(kTfLiteInt32, {co, fh, fw, words / g});
  int tm = n.in(ft ? kTfLiteFloat32 : kTfLiteNoType, {ft ? co : 0}), tb = n.in(ft ? kTfLiteFloat32 : kTfLiteNoType, {ft ? co : 0}), tt = n.in(ft ? kTfLiteNoType : kTfLiteInt32, {ft ? 0 : co});
  int to = n.out(ty, {1, 1, 1, 1}); n.t[to].quantization.type = ty == kTfLiteInt8 ? kTfLiteAffineQuantization : kTfLiteNoQuantization;
  for (int i : {tf, tm, tb, tt}) n.t[i].allocation_type = kTfLiteMmapRo;
  for (int i = 0; i < co; i++) if (ft) n.data<float>(tm)[i] = n.data<float>(tb)[i] = 0; else n.data<std::int32_t>(tt)[i] = 0;
  n.init(L::Register_BCONV_2D_OPT_BGEMM(), {{"stride_height", 1}, {"stride_width", 1}, {"dilation_height_factor", 1}, {"dilation_width_factor", 1}, {"padding", tflite::Padding_SAME}, {"pad_values", 1}, {"channels_in", cin}, {"fused_activation_function", tflite::ActivationFunctionType_NONE}});
  if (n.prepare() != kTfLiteOk) FAIL("Prepare failed: %s", n.err.c_str());
  g_bits = 0;
  if (n.eval() != kTfLiteOk) FAIL("Eval failed: %s", n.err.c_str());
  long most = (long)fh * fw * (g == 1 ? cin : words / g * 32);
  if (!g_bits) FAIL("the BGEMM kernel did not run");
  if (g_bits < 32 && most > 0xffff) FAIL("%d-bit accumulators although %ld bits can differ", g_bits, most);
  g_cases++; g_distinct += g_bits < 32;
}
int main(int argc, char** argv) {
  Rng r(atoll(argv[1])); long it = atol(argv[2]);
  for (long i = 0; i < it; i++) { selection(r); if (i % 4 == 0) accumulators(r); }
  return finish();
}
