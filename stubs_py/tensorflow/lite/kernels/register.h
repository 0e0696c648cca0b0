// Stand-in for TFLite's operator resolvers.
#pragma once
#include "tensorflow/lite/op_resolver.h"
namespace tflite { namespace ops { namespace builtin {
struct BuiltinOpResolver : MutableOpResolver { bool delegates = true; };
struct BuiltinOpResolverWithoutDefaultDelegates : BuiltinOpResolver { BuiltinOpResolverWithoutDefaultDelegates() { delegates = false; } };
} } }
