#pragma once
namespace tflite { namespace cpu_backend_gemm {
enum class Order { kColMajor, kRowMajor };
enum class CachePolicy { kNeverCache, kCacheIfLargeSpeedup, kAlwaysCache };
template <typename Scalar> struct MatrixParams { Order order = Order::kColMajor; int rows = 0; int cols = 0; Scalar zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
} }
