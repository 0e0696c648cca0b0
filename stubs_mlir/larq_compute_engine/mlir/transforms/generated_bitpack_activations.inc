// Stand-in for the output of mlir-tblgen: no patterns.
inline void populateWithGenerated(::mlir::RewritePatternSet&) {}
