// Stand-in for mlir-tblgen output (operation list; classes are defined in lce_ops.h.inc).
#ifdef GET_OP_LIST
#undef GET_OP_LIST
QuantizeOp, DequantizeOp, Bconv2dOp, BMaxPool2dOp
#endif
#ifdef GET_OP_CLASSES
#undef GET_OP_CLASSES
#endif
