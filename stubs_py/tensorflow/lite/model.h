// Stand-in for TFLite's model.h: a model is any buffer that does not start with "bad".
#pragma once
#include <cstring>
#include <memory>
#include <string>
namespace tflite {
struct FlatBufferModel {
  const char* data; std::size_t size;
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* d, std::size_t n) { if (n >= 3 && !std::memcmp(d, "bad", 3)) return nullptr; auto m = std::make_unique<FlatBufferModel>(); m->data = d; m->size = n; return m; }
};
}
