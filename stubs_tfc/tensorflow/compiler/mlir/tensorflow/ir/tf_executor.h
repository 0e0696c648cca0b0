// Dependency stand-in: the control flow operations of version 1, by name.
#ifndef STUB_TF_EXECUTOR_H_
#define STUB_TF_EXECUTOR_H_
#include "mlir/IR/Operation.h"
namespace mlir { namespace tf_executor {
#define OP(C, N) struct C { static bool classof(const Operation* op) { return const_cast<Operation*>(op)->getName().getStringRef() == "tf_executor." N; } }
OP(SwitchOp, "Switch"); OP(MergeOp, "Merge"); OP(EnterOp, "Enter"); OP(ExitOp, "Exit"); OP(NextIterationSinkOp, "NextIteration.Sink"); OP(NextIterationSourceOp, "NextIteration.Source");
#undef OP
} }
#endif
