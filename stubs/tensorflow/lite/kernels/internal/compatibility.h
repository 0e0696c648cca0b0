#ifndef STUB_TFL_COMPAT_H_
#define STUB_TFL_COMPAT_H_
#include "tensorflow/lite/kernels/op_macros.h"
#include <cassert>
#ifdef LCV_AST
// For the extraction, debug checks are turned into calls the extractor sees.
inline void lcv_dcheck(bool) {}
#define TFLITE_DCHECK(c) lcv_dcheck(c)
#define TFLITE_DCHECK_EQ(x, y) lcv_dcheck((x) == (y))
#define TFLITE_DCHECK_NE(x, y) lcv_dcheck((x) != (y))
#define TFLITE_DCHECK_GE(x, y) lcv_dcheck((x) >= (y))
#define TFLITE_DCHECK_GT(x, y) lcv_dcheck((x) > (y))
#define TFLITE_DCHECK_LE(x, y) lcv_dcheck((x) <= (y))
#define TFLITE_DCHECK_LT(x, y) lcv_dcheck((x) < (y))
#else
#define TFLITE_DCHECK(c) ((c) ? (void)0 : (void)TFLITE_ABORT)
#define TFLITE_DCHECK_EQ(x, y) ((x) == (y) ? (void)0 : (void)TFLITE_ABORT)
#define TFLITE_DCHECK_NE(x, y) ((x) != (y) ? (void)0 : (void)TFLITE_ABORT)
#define TFLITE_DCHECK_GE(x, y) ((x) >= (y) ? (void)0 : (void)TFLITE_ABORT)
#define TFLITE_DCHECK_GT(x, y) ((x) > (y) ? (void)0 : (void)TFLITE_ABORT)
#define TFLITE_DCHECK_LE(x, y) ((x) <= (y) ? (void)0 : (void)TFLITE_ABORT)
#define TFLITE_DCHECK_LT(x, y) ((x) < (y) ? (void)0 : (void)TFLITE_ABORT)
#endif
#define TFLITE_CHECK_EQ(x, y) ((x) == (y) ? (void)0 : (void)TFLITE_ABORT)
#endif
