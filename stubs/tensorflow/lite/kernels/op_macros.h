#ifndef STUB_TFL_OP_MACROS_H_
#define STUB_TFL_OP_MACROS_H_
#include <cstdio>
#include <cstdlib>
#define TFLITE_ABORT abort()
#define TF_LITE_FATAL(msg) do { fprintf(stderr, "%s\n", (msg)); TFLITE_ABORT; } while (0)
#define TFLITE_ASSERT_FALSE (static_cast<void>(0))
#ifdef LCV_AST
#define TF_LITE_ASSERT(x) ((void)0)   // null checks of scratch buffers are not part of the contracts
#else
#define TF_LITE_ASSERT(x) do { if (!(x)) TF_LITE_FATAL(#x); } while (0)
#endif
#ifdef LCV_AST
inline void lcv_abort() { abort(); }
#define TF_LITE_ASSERT_EQ(x, y) do { if ((x) != (y)) lcv_abort(); } while (0)
#else
#define TF_LITE_ASSERT_EQ(x, y) do { if ((x) != (y)) TF_LITE_FATAL(#x " didn't equal " #y); } while (0)
#endif
#endif
