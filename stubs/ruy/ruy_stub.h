// Dependency stand-in for ruy: matrices, packed layouts, packing and a blocked
// single-threaded TrMul that hands the kernel arbitrary aligned sub-blocks.
#ifndef STUB_RUY_H_
#define STUB_RUY_H_
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <memory>
#include <type_traits>
#include <vector>
#include "ruy/profiler/instrumentation.h"
#include "tensorflow/lite/kernels/internal/compatibility.h"
#define RUY_DCHECK(c) TFLITE_DCHECK(c)
#define RUY_DCHECK_EQ(a, b) TFLITE_DCHECK_EQ(a, b)
#define RUY_DCHECK_NE(a, b) TFLITE_DCHECK_NE(a, b)
#define RUY_DCHECK_LE(a, b) TFLITE_DCHECK_LE(a, b)
#define RUY_DCHECK_LT(a, b) TFLITE_DCHECK_LT(a, b)
#define RUY_DCHECK_GE(a, b) TFLITE_DCHECK_GE(a, b)
#define RUY_DCHECK_GT(a, b) TFLITE_DCHECK_GT(a, b)
#define RUY_PLATFORM_NEON 0
#ifdef __aarch64__
#define RUY_PLATFORM_ARM_64 1
#else
#define RUY_PLATFORM_ARM_64 0
#endif
#define RUY_OPT(x) LCV_RUY_OPT_##x
#define LCV_RUY_OPT_ASM 0
#ifndef LCV_RUY_OPT_FAT_KERNEL
#define LCV_RUY_OPT_FAT_KERNEL 1
#endif
namespace ruy {
enum class Order : std::uint8_t { kColMajor, kRowMajor };
enum class Path : std::uint8_t { kNone = 0, kReference = 1, kStandardCpp = 2, kNeon = 4 };
enum class Tuning { kAuto };
enum class Side { kLhs = 0, kRhs = 1 };
struct MatLayout { std::int32_t rows = 0; std::int32_t cols = 0; std::int32_t stride = 0; Order order = Order::kColMajor; };
struct KernelLayout { Order order = Order::kColMajor; std::uint8_t rows = 1; std::uint8_t cols = 1; };
struct PMatLayout { std::int32_t rows = 0; std::int32_t cols = 0; std::int32_t stride = 0; Order order = Order::kColMajor; KernelLayout kernel; };
template <Order tOrder, int tRows, int tCols> struct FixedKernelLayout { static constexpr Order kOrder = tOrder; static constexpr int kRows = tRows; static constexpr int kCols = tCols; };
template <typename F> KernelLayout ToKernelLayout() { KernelLayout k; k.order = F::kOrder; k.rows = F::kRows; k.cols = F::kCols; return k; }
template <typename T> struct ConstCheckingPtr { T* p = nullptr; T* get() const { return p; } void set(const T* q) { p = const_cast<T*>(q); } };
template <typename T> struct Mat { ConstCheckingPtr<T> data; MatLayout layout; T zero_point = 0; };
template <typename T> using Matrix = Mat<T>;
template <typename T> struct PMat { T* data = nullptr; PMatLayout layout; std::int32_t zero_point = 0; };
template <typename T> Mat<T> ToInternal(const Mat<T>& m) { return m; }
template <typename T> Mat<T> Transpose(const Mat<T>& m) { Mat<T> r = m; std::swap(r.layout.rows, r.layout.cols); r.layout.order = m.layout.order == Order::kColMajor ? Order::kRowMajor : Order::kColMajor; return r; }
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline int Offset(const MatLayout& l, int row, int col) {
  RUY_DCHECK(row >= 0 && row < l.rows); RUY_DCHECK(col >= 0 && col < l.cols);
  return l.order == Order::kColMajor ? row + col * l.stride : row * l.stride + col;
}
inline int Offset(const PMatLayout& l, int row, int col) {
  RUY_DCHECK(row >= 0 && row < l.rows); RUY_DCHECK(col >= 0 && col < l.cols);
  int ro = row & ~(l.kernel.rows - 1), co = col & ~(l.kernel.cols - 1);
  int rso = l.order == Order::kColMajor ? l.kernel.cols : l.stride, cso = l.order == Order::kRowMajor ? l.kernel.rows : l.stride;
  int ri = row - ro, ci = col - co;
  int rsi = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols, csi = l.kernel.order == Order::kRowMajor ? 1 : l.kernel.rows;
  return ro * rso + co * cso + ri * rsi + ci * csi;
}
template <typename T> T Element(const Mat<T>& m, int row, int col) { return *(m.data.get() + Offset(m.layout, row, col)); }
template <typename T> T Element(const PMat<T>& m, int row, int col) { return *(m.data + Offset(m.layout, row, col)); }
template <typename T> const T* ElementPtr(const Mat<T>& m, int row, int col) { return m.data.get() + Offset(m.layout, row, col); }
template <typename T> T* ElementPtr(Mat<T>* m, int row, int col) { return m->data.get() + Offset(m->layout, row, col); }
template <typename T> T* ElementPtr(PMat<T>* m, int row, int col) { return m->data + Offset(m->layout, row, col); }
struct EMat { void* data = nullptr; MatLayout layout; };
struct PEMat { void* data = nullptr; PMatLayout layout; };
template <typename T> EMat EraseType(const Mat<T>& m) { EMat e; e.data = (void*)m.data.get(); e.layout = m.layout; return e; }
template <typename T> Mat<T> UneraseType(const EMat& e) { Mat<T> m; m.data.set((T*)e.data); m.layout = e.layout; return m; }
template <typename T> PMat<T> UneraseType(const PEMat& e) { PMat<T> m; m.data = (T*)e.data; m.layout = e.layout; return m; }
template <typename T> struct SidePair { T v[2]; T& operator[](Side s) { return v[(int)s]; } const T& operator[](Side s) const { return v[(int)s]; } };
using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*, const SidePair<int>&, const SidePair<int>&, EMat*);
constexpr int kMaxMulParamsAlignment = 16, kMaxMulParamsSize = 64;
struct TrMulParams {
  SidePair<EMat> src; EMat dst; SidePair<PEMat> packed; SidePair<RunPackFn*> run_pack{{nullptr, nullptr}}; RunKernelFn* run_kernel = nullptr; Path path = Path::kNone;
  alignas(16) char mul_params_bytes[kMaxMulParamsSize];
};
namespace detail {
inline int RoundUp(int v, int m) { return (v + m - 1) / m * m; }
template <typename S, typename P>
void CreatePackedMatrix(Side s, const KernelLayout& k, TrMulParams* p) {
  PMatLayout& l = p->packed[s].layout; const MatLayout& m = p->src[s].layout;
  l.order = Order::kColMajor; l.rows = RoundUp(m.rows, k.rows); l.cols = RoundUp(m.cols, k.cols); l.stride = l.rows; l.kernel = k;
}
}
template <Path P, typename F, typename S, typename PS, typename SS, Order O> struct PackImpl {
  static void Run(Tuning, const Mat<S>& src, PMat<PS>* packed, int start_col, int end_col) {
    for (int col = start_col; col < end_col; col++) for (int row = 0; row < packed->layout.rows; row++)
      *ElementPtr(packed, row, col) = (col < src.layout.cols && row < src.layout.rows) ? (PS)Element(src, row, col) : (PS)0;
  }
};
// packed matrices live in the context's allocator from their preparation until everything is freed
struct StubAllocator { std::vector<std::unique_ptr<std::int32_t[]>> bufs; void FreeAll() { bufs.clear(); } ~StubAllocator() { RUY_DCHECK(bufs.empty()); } };
struct Ctx { StubAllocator a; StubAllocator* GetMainAllocator() { return &a; } };
struct Context { Ctx c; };
inline Ctx* get_ctx(Context* c) { return &c->c; }
inline void PreparePackedMatrices(Ctx* ctx, TrMulParams* p) {
  RUY_DCHECK(ctx->a.bufs.empty());
  for (Side s : {Side::kLhs, Side::kRhs}) {
    auto& pk = p->packed[s];
    size_t n = (size_t)pk.layout.cols * pk.layout.stride;
    ctx->a.bufs.emplace_back(new std::int32_t[n ? n : 1]);
    for (size_t i = 0; i < n; i++) ctx->a.bufs.back()[i] = 0x5a5a5a5a;
    pk.data = ctx->a.bufs.back().get();
  }
}
inline std::uint64_t g_trmul_seed = 1;
inline int trmul_rnd(int n) { g_trmul_seed = g_trmul_seed * 6364136223846793005ull + 1442695040888963407ull; return (int)((g_trmul_seed >> 33) % (unsigned)n); }
inline void TrMul(Ctx* ctx, TrMulParams* p) {
  RUY_DCHECK(p->path != Path::kNone);
  for (Side s : {Side::kLhs, Side::kRhs}) {
    auto& pk = p->packed[s];
    RUY_DCHECK(pk.data != nullptr);
    for (int c = 0; c < pk.layout.cols;) { int e = std::min(pk.layout.cols, c + pk.layout.kernel.cols * (1 + trmul_rnd(3))); p->run_pack[s](Tuning::kAuto, p->src[s], &pk, c, e); c = e; }
  }
  const int R = p->packed[Side::kLhs].layout.cols, C = p->packed[Side::kRhs].layout.cols, kr = p->packed[Side::kLhs].layout.kernel.cols, kc = p->packed[Side::kRhs].layout.kernel.cols;
  int br = kr * (1 + trmul_rnd(4)), bc = kc * (1 + trmul_rnd(4));
  for (int r = 0; r < R; r += br) for (int c = 0; c < C; c += bc) {
    SidePair<int> st{{r, c}}, en{{std::min(R, r + br), std::min(C, c + bc)}};
    p->run_kernel(Tuning::kAuto, p->packed, p->mul_params_bytes, st, en, &p->dst);
  }
}
}  // namespace ruy
#endif
