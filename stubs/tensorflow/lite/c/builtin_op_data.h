#ifndef STUB_TFL_BUILTIN_OP_DATA_H_
#define STUB_TFL_BUILTIN_OP_DATA_H_
#include <cstdint>
extern "C" {
typedef enum { kTfLitePaddingUnknown = 0, kTfLitePaddingSame, kTfLitePaddingValid } TfLitePadding;
typedef struct { int width; int height; int width_offset; int height_offset; } TfLitePaddingValues;
typedef enum { kTfLiteActNone = 0, kTfLiteActRelu, kTfLiteActReluN1To1, kTfLiteActRelu6,
  kTfLiteActTanh, kTfLiteActSignBit, kTfLiteActSigmoid } TfLiteFusedActivation;
}
#endif
