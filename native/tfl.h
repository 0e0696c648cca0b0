// A miniature interpreter around the TFLite stand-ins: every tensor is its own
// malloc block of exactly its size, so that any access outside it is caught.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "common.h"
#include "tensorflow/lite/c/common.h"
struct Net {
  std::vector<TfLiteTensor> t;
  TfLiteContext c{};
  TfLiteNode node{};
  std::string err;
  TfLiteRegistration* reg = nullptr;
  bool prepared = false;
  static Net*& cur() { static Net* n; return n; }
  static size_t esz(TfLiteType ty) { return ty == kTfLiteInt8 || ty == kTfLiteBool || ty == kTfLiteUInt8 ? 1 : ty == kTfLiteInt64 ? 8 : 4; }
  static long count(const TfLiteTensor& x) { long n = 1; for (int i = 0; i < x.dims->size; i++) n *= x.dims->data[i]; return n; }
  static void realloc_(TfLiteTensor& x) {
    free(x.data); long n = count(x); if (n < 0 || n > (1l << 26)) { n = 0; }
    x.data = malloc(n * esz(x.type)); memset(x.data, 0xA5, n * esz(x.type));
  }
  static TfLiteStatus resize_cb(TfLiteContext*, TfLiteTensor* x, TfLiteIntArray* d) {
    for (int i = 0; i < d->size; i++) if (d->data[i] < 0) { TfLiteIntArrayFree(d); return kTfLiteError; }
    TfLiteIntArrayFree(x->dims); x->dims = d; if (x->type != kTfLiteNoType) realloc_(*x); return kTfLiteOk;
  }
  static TfLiteStatus add_cb(TfLiteContext*, int n, int* first) { Net* s = cur(); *first = (int)s->t.size(); for (int i = 0; i < n; i++) s->add(kTfLiteNoType, {}); return kTfLiteOk; }
  static void err_cb(TfLiteContext*, const char* f, ...) { va_list a; va_start(a, f); char b[512]; vsnprintf(b, sizeof b, f, a); va_end(a); cur()->err = b; }
  Net() { t.reserve(64); c.ResizeTensor = resize_cb; c.AddTensors = add_cb; c.ReportError = err_cb; node.inputs = TfLiteIntArrayCreate(0); node.outputs = TfLiteIntArrayCreate(0); node.temporaries = TfLiteIntArrayCreate(0); }
  Net(const Net&) = delete;
  ~Net() {
    if (reg && reg->free && node.user_data) reg->free(&c, node.user_data);
    for (auto& x : t) { free(x.data); TfLiteIntArrayFree(x.dims); }
    TfLiteIntArrayFree(node.inputs); TfLiteIntArrayFree(node.outputs); TfLiteIntArrayFree(node.temporaries);
  }
  int add(TfLiteType ty, const std::vector<int>& d) {
    TfLiteTensor x{}; x.type = ty; x.dims = TfLiteIntArrayCreate((int)d.size()); for (size_t i = 0; i < d.size(); i++) x.dims->data[i] = d[i];
    x.allocation_type = kTfLiteArenaRw; x.params.scale = 1; if (t.size() >= 64) abort(); if (ty != kTfLiteNoType) realloc_(x); t.push_back(x); c.tensors = t.data(); return (int)t.size() - 1;
  }
  int in(TfLiteType ty, const std::vector<int>& d) { int i = add(ty, d); node.inputs->data[node.inputs->size++] = i; return i; }
  int out(TfLiteType ty, const std::vector<int>& d) { int i = add(ty, d); node.outputs->data[node.outputs->size++] = i; return i; }
  void init(TfLiteRegistration* r, const std::map<std::string, std::int32_t>& opts) { cur() = this; reg = r; if (r->init) node.user_data = r->init(&c, (const char*)&opts, 0); }
  TfLiteStatus prepare() { cur() = this; auto s = reg->prepare(&c, &node); prepared = s == kTfLiteOk; return s; }
  TfLiteStatus eval() { cur() = this; return reg->invoke(&c, &node); }
  // TFLite re-plans memory after every resize: buffers may move
  void resize_input(int idx, const std::vector<int>& d) { auto* a = TfLiteIntArrayCreate((int)d.size()); for (size_t i = 0; i < d.size(); i++) a->data[i] = d[i]; resize_cb(&c, &t[idx], a); }
  template <class T> T* data(int i) { return (T*)t[i].data; }
  std::vector<int> dims(int i) { return std::vector<int>(t[i].dims->data, t[i].dims->data + t[i].dims->size); }
};
inline std::string str(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
