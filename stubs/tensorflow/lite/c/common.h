// Stand-in for TFLite's c/common.h: the parts the LCE operators touch.
#ifndef STUB_TFL_COMMON_H_
#define STUB_TFL_COMMON_H_
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "tensorflow/lite/c/builtin_op_data.h"
extern "C" {
typedef enum { kTfLiteOk = 0, kTfLiteError = 1 } TfLiteStatus;
typedef enum { kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3, kTfLiteInt64 = 4, kTfLiteString = 5,
  kTfLiteBool = 6, kTfLiteInt16 = 7, kTfLiteComplex64 = 8, kTfLiteInt8 = 9, kTfLiteFloat16 = 10 } TfLiteType;
typedef enum { kTfLiteMemNone = 0, kTfLiteMmapRo, kTfLiteArenaRw, kTfLiteArenaRwPersistent, kTfLiteDynamic } TfLiteAllocationType;
typedef enum { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef struct TfLiteQuantization { TfLiteQuantizationType type; void* params; } TfLiteQuantization;
typedef struct TfLiteQuantizationParams { float scale; std::int32_t zero_point; } TfLiteQuantizationParams;
typedef struct TfLiteIntArray { int size; int data[8]; } TfLiteIntArray;
inline TfLiteIntArray* TfLiteIntArrayCreate(int n) { if (n < 0 || n > 8) abort(); auto* a = (TfLiteIntArray*)malloc(sizeof(TfLiteIntArray)); memset(a, 0x5a, sizeof *a); a->size = n; return a; }
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* s) { auto* a = TfLiteIntArrayCreate(s->size); memcpy(a->data, s->data, sizeof a->data); return a; }
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
typedef struct TfLiteTensor {
  TfLiteType type;
  void* data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type;
  TfLiteQuantization quantization;
} TfLiteTensor;
typedef struct TfLiteNode { TfLiteIntArray* inputs; TfLiteIntArray* outputs; TfLiteIntArray* temporaries; void* user_data; } TfLiteNode;
struct TfLiteContext;
typedef struct TfLiteContext {
  TfLiteTensor* tensors;
#ifdef LCV_AST
  TfLiteStatus ResizeTensor(struct TfLiteContext*, TfLiteTensor*, TfLiteIntArray*);
  TfLiteStatus AddTensors(struct TfLiteContext*, int, int*);
#else
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor*, TfLiteIntArray*);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int, int*);
  void (*ReportError)(struct TfLiteContext*, const char*, ...);
#endif
} TfLiteContext;
typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext*, const char*, size_t);
  void (*free)(TfLiteContext*, void*);
  TfLiteStatus (*prepare)(TfLiteContext*, TfLiteNode*);
  TfLiteStatus (*invoke)(TfLiteContext*, TfLiteNode*);
} TfLiteRegistration;
}
#ifdef LCV_AST
#define TF_LITE_KERNEL_LOG(context, ...) ((void)0)
#define TF_LITE_ENSURE(context, a) if (!(a)) return kTfLiteError
#define TF_LITE_ENSURE_MSG(context, a, ...) if (!(a)) return kTfLiteError
#define TF_LITE_ENSURE_EQ(context, a, b) if ((a) != (b)) return kTfLiteError
#define TF_LITE_ENSURE_STATUS(a) if ((a) != kTfLiteOk) return kTfLiteError
#else
#define TF_LITE_KERNEL_LOG(context, ...) (context)->ReportError((context), __VA_ARGS__)
#define TF_LITE_ENSURE(context, a) do { if (!(a)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s was not true.", __FILE__, __LINE__, #a); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_MSG(context, a, ...) do { if (!(a)) { TF_LITE_KERNEL_LOG((context), __VA_ARGS__); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_EQ(context, a, b) do { if ((a) != (b)) { TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s", __FILE__, __LINE__, #a, #b); return kTfLiteError; } } while (0)
#define TF_LITE_ENSURE_STATUS(a) do { const TfLiteStatus s_ = (a); if (s_ != kTfLiteOk) return s_; } while (0)
#endif
#endif
