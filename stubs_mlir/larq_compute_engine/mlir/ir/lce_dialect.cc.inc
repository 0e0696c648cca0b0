// Stand-in for mlir-tblgen output: the dialect is defined in lce_dialect.h.inc.
