#ifndef STUB_TFL_CPPMATH_H_
#define STUB_TFL_CPPMATH_H_
#include <algorithm>
#include <cmath>
namespace tflite {
template <class T>
inline T TfLiteRound(const T x) { return std::round(x); }
}  // namespace tflite
#endif
