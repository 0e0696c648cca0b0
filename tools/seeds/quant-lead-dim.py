P = 'C03'
EDITS = [('larq_compute_engine/tflite/kernels/quantization.cc', 'for (int i = 0; i < num_dims - 1; ++i) {\n    TF_LITE_ENSURE_EQ(context, SizeOfDimension(output, i),\n                      SizeOfDimension(input, i));\n  }', 'int leading = 1, expected = 1;\n  for (int i = 0; i < num_dims - 1; ++i) {\n    leading *= SizeOfDimension(output, i);\n    expected *= SizeOfDimension(input, i);\n  }\n  TF_LITE_ENSURE_EQ(context, leading, expected);')]
NEEDS = 'an input and a declared output whose leading dimensions differ but have the same product (2x3 against 3x2)'
BREAKS = 'dequantization accepts a declared output shape that is not the unpacked input shape'
DEMO = r'''
#include <cstdio>
#include "larq_compute_engine/tflite/kernels/quantization.cc"
static TfLiteStatus rs(TfLiteContext*, TfLiteTensor*, TfLiteIntArray*) { return kTfLiteOk; }
static void er(TfLiteContext*, const char*, ...) {}
static TfLiteIntArray* A(std::initializer_list<int> v) { auto* a = TfLiteIntArrayCreate((int)v.size()); int i = 0; for (int x : v) a->data[i++] = x; return a; }
int main() {
  int w[64]; float o[4096]; TfLiteTensor t[2] = {}; TfLiteContext c{}; c.tensors = t; c.ResizeTensor = rs; c.ReportError = er; TfLiteNode n{}; n.inputs = A({0}); n.outputs = A({1});
  auto* r = compute_engine::tflite::Register_DEQUANTIZE();
  t[0].type = kTfLiteInt32; t[0].data = w; t[1].type = kTfLiteFloat32; t[1].data = o;
  t[0].dims = A({2, 3, 1}); t[1].dims = A({2, 3, 20}); if (r->prepare(&c, &n) != kTfLiteOk) { puts("rejected a matching shape"); return 1; }
  t[1].dims = A({3, 2, 20}); if (r->prepare(&c, &n) == kTfLiteOk) { puts("accepted 2x3x1 -> 3x2x20"); return 1; }
  return 0;
}
'''
