// Stand-in for TFLite's c/common.h: the parts the Python interpreter wrapper touches.
#ifndef STUB_PY_TFL_COMMON_H_
#define STUB_PY_TFL_COMMON_H_
#include <cstddef>
#include <cstdint>
#include <cstdlib>
extern "C" {
typedef enum { kTfLiteOk = 0, kTfLiteError = 1 } TfLiteStatus;
typedef enum { kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3, kTfLiteInt64 = 4, kTfLiteString = 5,
  kTfLiteBool = 6, kTfLiteInt16 = 7, kTfLiteComplex64 = 8, kTfLiteInt8 = 9, kTfLiteFloat16 = 10 } TfLiteType;
typedef enum { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef struct TfLiteQuantization { TfLiteQuantizationType type; void* params; } TfLiteQuantization;
typedef struct TfLiteQuantizationParams { float scale; std::int32_t zero_point; } TfLiteQuantizationParams;
typedef struct TfLiteIntArray { int size; int data[8]; } TfLiteIntArray;
typedef struct TfLiteFloatArray { int size; float data[8]; } TfLiteFloatArray;
typedef struct TfLiteAffineQuantization { TfLiteFloatArray* scale; TfLiteIntArray* zero_point; std::int32_t quantized_dimension; } TfLiteAffineQuantization;
typedef union TfLitePtrUnion { char* raw; } TfLitePtrUnion;
typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  size_t bytes;
  const char* name;
  TfLiteQuantization quantization;
} TfLiteTensor;
typedef struct TfLiteRegistration { const char* what; } TfLiteRegistration;
inline const char* TfLiteTypeGetName(TfLiteType) { return "?"; }
}
#endif
