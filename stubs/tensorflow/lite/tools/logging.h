// Dependency stand-in: logging that drops the message.
#pragma once
#ifdef LCV_AST
namespace tflite { namespace logging { struct Drop { Drop& operator<<(const char*); }; } }
#else
namespace tflite { namespace logging { struct Drop { template <class T> Drop& operator<<(const T&) { return *this; } }; } }
#endif
#define TFLITE_LOG(severity) ::tflite::logging::Drop()
