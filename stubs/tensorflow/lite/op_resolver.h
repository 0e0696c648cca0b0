// Dependency stand-in: the resolver that maps custom operator names to implementations.
#pragma once
#include <map>
#include <string>
#include "tensorflow/lite/c/common.h"
namespace tflite {
class MutableOpResolver {
 public:
  virtual ~MutableOpResolver() {}
  void AddCustom(const char* name, const TfLiteRegistration* r, int version = 1) { custom[name] = r; }
  std::map<std::string, const TfLiteRegistration*> custom;
};
}  // namespace tflite
