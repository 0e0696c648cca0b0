"""Which units (driver + contracts) and native programs decide which property."""
COMMON = [
    'clang 18 AST of the portable (x86-64, non-ARM) build of the sources is what gets verified; inline-assembly variants are not covered',
    'the mechanical translation C++ AST -> Verus (lcvx + translate.py) preserves meaning: it is syntax directed and rejects constructs it does not know',
    'each C++ memory object is a finite sequence of elements of one type; pointers are (object, offset) and offset arithmetic is mathematical',
    'memory reached through a pointer-to-const parameter does not overlap memory written by the same function',
    'Verus 0.2026.09.13, its bundled Z3, and vstd are sound',
]
U = lambda spec, driver='drivers.cc', prefixes=('compute_engine::', 'tflite::'), extra=(): dict(spec=spec, driver=driver, prefixes=list(prefixes), extra=list(extra))
MLIRI = ('-I/usr/lib/llvm-18/include',)
MLIRF = ('-fno-sanitize=all', '-I/usr/lib/llvm-18/include', '-L/usr/lib/llvm-18/lib', '-lMLIR', '-lLLVM-18', '-Wl,-rpath,/usr/lib/llvm-18/lib')
_D = __import__('os').path.dirname(__import__('os').path.abspath(__file__))
MLIRX = ('-DNDEBUG', '-I' + _D + '/stubs_mlir') + MLIRI
MLIRXF = ('-I' + _D + '/stubs_mlir',) + MLIRF
TFC = ('-DNDEBUG', '-I' + _D + '/stubs_tfc') + MLIRI
PYX = ('-iquote', _D + '/stubs_py', '-isystem', '/opt/lce/venv/lib/python3.12/site-packages/pybind11/include', '-isystem', '/usr/include/python3.12')
TFCF = ('-I' + _D + '/stubs_tfc',) + PYX + MLIRF + ('-lpython3.12',)
PYXF = ('-fno-sanitize=vptr',) + PYX + ('-lpython3.12',)
ARM64 = ('--target=aarch64-linux-gnu', '-isystem', _D + '/stubs_arm64', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include/c++/13')
N = lambda src, quick=(), thorough=(), flags=(): dict(src=src, quick=[str(x) for x in quick], thorough=[str(x) for x in thorough], flags=list(flags))

# drivers that need the MLIR headers: name prefixes of the functions they bring in
MLIRD = {'drv_batch.cc': (('mlir::SetBatchSize',), MLIRI), 'drv_fuse.cc': (('mlir::TFL::', 'compute_engine::'), MLIRX), 'drv_preptf.cc': (('mlir::TFL::', 'compute_engine::'), MLIRX),
         'drv_fold.cc': (('mlir::TFL::', 'mlir::lq::', 'compute_engine::'), MLIRX), 'drv_thresh.cc': (('mlir::TFL::', 'compute_engine::'), MLIRX), 'drv_options.cc': (('mlir::lq::', 'mlir::TFL::', 'ConvertPadding', 'ConvertActivation', 'compute_engine::'), MLIRX),
         'drv_pywrap.cc': (('InterpreterWrapperBase', 'TfLiteTypeFromPyType', 'PyTypeFromTfLiteType', 'SetTensorFromNumpy'), PYX),
         'drv_lite.cc': (('LiteInterpreterWrapper', 'compute_engine::'), PYX),
         'drv_detect.cc': (('mlir::TFL::',), MLIRX), 'drv_passes.cc': (('tensorflow::',), TFC + PYX),
         'drv_translate.cc': (('mlir::TFL::', 'ConvertPadding', 'ConvertActivation'), MLIRX)}
TD = lambda spec, f: U(spec, 'larq_compute_engine/mlir/transforms/%s.td' % f, ())
NP = lambda *fs: N('patterns.py', (150,) + fs, (6000,) + fs)
M = lambda spec, driver: U(spec, driver, *MLIRD[driver])
PROPS = {
 'C01': dict(units=[U('bitpack.vs')], native=[N('bitpack.cc', [3000], [150000])],
   assume=['IEEE-754: 0 < 0 is false, 0 == 0 is true, lowest < 0 < max (four facts about the float zero); float comparison is otherwise uninterpreted',
           'the compiler lays out 1-bit unsigned bit-fields from the least significant bit of a 32-bit word (GCC/Clang little-endian ABI)',
           'std::fill and memcpy do what the standard says']),
 'C02': dict(units=[U('unpack.vs')], native=[N('unpack.cc', [3000], [150000])], assume=[]),
 'C03': dict(units=[U('quant.vs', 'drv_quant.cc'), U('bitpack.vs'), U('unpack.vs')], native=[N('quant.cc', [4000], [200000])], assume=[]),
 'C04': dict(units=[U('bmaxpool.vs', 'drv_pool.cc'), U('poolop.vs', 'drv_poolop.cc')], native=[N('bmaxpool.cc', [3000], [100000])], assume=[]),
 'C05': dict(units=[U('refconv.vs', 'drv_conv.cc')], native=[N('bconv.cc', [1500, 'ref'], [60000, 'ref'])], assume=[]),
 'C06': dict(units=[U('transform.vs', 'drv_conv.cc')], native=[N('transform.cc', [], [])], assume=[]),
 'C07': dict(units=[U('refconv.vs', 'drv_conv.cc'), U('indirect.vs', 'drv_indirect.cc'), U('bgemm.vs', 'drv_bgemm.cc')], native=[N('bconv.cc', [2000, 'bits'], [60000, 'bits'])], assume=[]),
 'C08': dict(units=[U('indirect.vs', 'drv_indirect.cc')], native=[N('bconv.cc', [1500, 'indirect'], [60000, 'indirect'])], assume=[]),
 'C09': dict(units=[U('bgemm.vs', 'drv_bgemm.cc')], native=[N('bgemm.cc', [20000], [2000000]), N('bgemm.cc', [5000], [200000], ['-DLCV_RUY_OPT_FAT_KERNEL=0']), N('bconv.cc', [1500, 'bgemm'], [60000, 'bgemm'])],
   assume=['BGemm hands ruy the two operands (left transposed) with the pack and kernel functions; this wiring is exercised only by the bounded native runs']),
 'C10': dict(units=[U('zpad.vs', 'drv_zpad.cc'), U('indirect.vs', 'drv_indirect.cc'), U('bgemm.vs', 'drv_bgemm.cc'), U('refconv.vs', 'drv_conv.cc')], native=[N('bconv.cc', [3000, 'zeropad'], [120000, 'zeropad'])],
   assume=['the corrected value is stated as old + (-multiplier * n) (or the sum and difference of eight such products when the filter sticks out on opposite sides) in uninterpreted float arithmetic; n itself is proved over the integers']),
 'C11': dict(units=[U('convop.vs', 'drv_op.cc')], native=[N('bconv.cc', [3000, 'prepare'], [100000, 'prepare'])],
   assume=['ComputePaddingHeightWidth (TensorFlow Lite) computes output extents and paddings by the formulas in specs/tfpad.vs',
           'FlexBuffers option maps are modelled as maps from key hash (CRC-32) to int32 value',
           'an optional input tensor that is absent is present to the checks as an empty tensor, as in converted models; sizes, strides and dilations of the model are below 2^20 so that no product overflows']),
 'C12': dict(units=[U('convsetup.vs', 'drv_op.cc'), U('transform.vs', 'drv_conv.cc')], native=[N('bconv.cc', [1500, 'fold'], [40000, 'fold']), N('bconv.cc', [1000, 'int8'], [40000, 'int8']), N('bconv.cc', [1000, 'float'], [40000, 'float'])],
   assume=['double arithmetic of the int8 fold is treated as exact real arithmetic; conversion to float is uninterpreted',
           'activation range bounds are those TensorFlow Lite defines (numeric limits, 0, 6, -1..1)',
           'GetInput, GetOutput, GetTensorData of TensorFlow Lite return the tensor and contents the node refers to; sizes are below 2^20 so that no product overflows']),
 'C13': dict(units=[U('conveval_ind.vs', 'drv_op.cc'), U('conveval_bg.vs', 'drv_op.cc'), U('conveval_ref.vs', 'drv_op.cc'), U('convop.vs', 'drv_op.cc'), U('convsetup.vs', 'drv_op.cc')],
   native=[N('bconv.cc', [3000, 'history'], [100000, 'history'])],
   assume=['between a preparation and the evaluations that follow it TensorFlow Lite changes only the contents of the first input tensor and of outputs and scratch tensors; shapes, constants and parameters change only with another preparation',
           'tensors of a node are distinct; filters, multipliers, biases and thresholds are constants of the model',
           'image-to-column and im2col scratch parameters (stride, dilation, padding) fit the 16 bits TensorFlow Lite stores them in; a filter row fits ruy (24 bits)',
           'an operator is prepared at least once before it is evaluated (TensorFlow Lite protocol)']),
 'C14': dict(units=[U('select.vs', 'drv_select.cc', extra=ARM64), U('evalsel_arm.vs', 'drv_op.cc', extra=ARM64), U('evalsel.vs', 'drv_op.cc')], native=[N('select.cc', [20000], [1000000])],
   assume=['the assembly kernels of 64-bit ARM count in uint16 lanes and run exactly the channel widths their class names and template arguments say (read from their code, assembly is outside the verifier)',
           'filter height x width x words is below 2^56 and below 2^31 per the preparation checks (C11)']),
 'C15': dict(units=[M('fuse.vs', 'drv_fuse.cc'), M('preptf.vs', 'drv_preptf.cc'), TD('tdfuse.vs', 'fuse_padding'), TD('tdprepad.vs', 'prepare_patterns_target_arm')], native=[N('padding.cc', [60000], [3000000], MLIRXF), NP('fuse_padding:tdfuse', 'prepare_patterns_target_arm:tdprepad')],
   assume=['the matched convolution has the output extent its VALID padding gives it (shape inference of TensorFlow); strides and dilations are positive; sizes and padding amounts are below 2^30',
           'what the padding and convolution operations of TensorFlow compute is stated in tdfuse.vs and tdprepad.vs (axioms)',
           'known finding aside: strided padding beyond the convolution\'s own, in prepare_tf.cc']),
 'C16': dict(units=[M('batch.vs', 'drv_batch.cc')], native=[N('batch.cc', [20000], [400000], MLIRF)],
   assume=['the pass manager runs the pass on every function of the module (mlir::OperationPass<func::FuncOp>)']),
 'C17': dict(units=[M('fold.vs', 'drv_fold.cc'), M('qbuild.vs', 'drv_fold.cc'), U('bitpack.vs'), U('unpack.vs'), U('quant.vs', 'drv_quant.cc'), TD('tdweights.vs', 'bitpack_weights_patterns')], native=[N('fold.cc', [60000], [2000000], MLIRXF), NP('bitpack_weights_patterns:tdweights')],
   assume=['MLIR calls a folder with the constant attributes of its operands in order, and hands the attribute to LarqDialect::materializeConstant',
           'a packing operation is created for ranked tensors of rank one or more (shape inference of TensorFlow)',
           'MLIR keeps the storage bytes of a dense constant of quantized type (known finding: it does not define such constants)']),
 'C18': dict(units=[M('thresh.vs', 'drv_thresh.cc'), U('transform.vs', 'drv_conv.cc'), TD('tdthresh.vs', 'bitpack_activations_patterns')], native=[N('thresh.cc', [60000], [3000000], MLIRXF), NP('bitpack_activations_patterns:tdthresh')],
   assume=['std::abs, std::floor, llvm::zip and llvm::StringSwitch do what their documentation says']),
 'C19': dict(units=[M('options.vs', 'drv_options.cc'), M('legalize.vs', 'drv_options.cc'), M('translate.vs', 'drv_translate.cc'), U('convop.vs', 'drv_op.cc'), U('poolop.vs', 'drv_poolop.cc'), U('register.vs', 'drv_register.cc'), U('regfn_conv.vs', 'drv_op.cc'), U('regfn_pool.vs', 'drv_poolop.cc'), U('regfn_quant.vs', 'drv_quant.cc')], native=[N('options.cc', [20000], [1000000], MLIRXF)],
   assume=['the operator classes mlir-tblgen generates from lce_ops.td (getters by name, builders in declaration order) are stand-ins written after it; mlir-tblgen is not installed',
           'the custom options travel through the model file unchanged (FlatBuffers)',
           'a registration table is made once, when first asked for, and nobody writes to it afterwards']),
 'C20': dict(units=[U('iotypes.vs', 'larq_compute_engine/mlir/python/util.py', ())], native=[N('iotypes.py', [600], [15000])],
   assume=['a model file deserialises to a tree of fresh objects with the attributes and numpy index arrays the FlatBuffers schema gives them, every index of an operator, an input or output or a signature is in range (or -1 in an operator), every signature names inputs and outputs of its graph, and an operator that (de)quantizes has an input and an output; serialising such a tree is faithful (_convert_model_from_bytearray_to_object and back)',
           'Python lists, sets, dictionaries, enumerate, range, sorted, min, del and numpy masked assignment do what lcv/pyprelude.rs says of them; exception messages are dropped',
           'that the conversion calls use it when they should is property C26']),
 'C21': dict(units=[M('pywrap.vs', 'drv_pywrap.cc'), M('lite.vs', 'drv_lite.cc'), U('register.vs', 'drv_register.cc'), U('pypredict.vs', 'larq_compute_engine/tflite/python/interpreter_base.py', ()), U('pyinterp.vs', 'larq_compute_engine/tflite/python/interpreter.py', ())], native=[N('pywrap.cc', [6000], [120000], PYXF)],
   assume=['the wrapper is proved for an interpreter whose lists of inputs and outputs are vectors of tensor numbers (as tflite::Interpreter); the template is the same text for every interpreter',
           'samples are NumPy arrays with at least one axis, lists of such arrays, or iterators over arrays or lists of arrays; with a single output there is at least one sample; what an iterator gives does not depend on the predictions made meanwhile (a generator is extracted as the list of what it gives); numpy.expand_dims and numpy.concatenate are taken by name; tqdm gives what it is given',
           'bounded, not proved: the pybind11 bindings of interpreter_wrapper_lite.cc and the lifetime of the model\'s buffer, which the native program runs in an embedded Python over a stand-in interpreter']),
 'C23': dict(units=[M('binfilter.vs', 'drv_preptf.cc'), TD('tdbinary.vs', 'prepare_patterns_target_arm')], native=[N('binfilter.cc', [60000], [3000000], MLIRXF), NP('prepare_patterns_target_arm:tdbinary')],
   assume=['division, absolute value and comparison of single-precision numbers are IEEE; the tolerance test itself is left uninterpreted (the native harness samples it)']),
 'C24': dict(units=[M('detect.vs', 'drv_detect.cc')], native=[N('detect.cc', [60000], [3000000], MLIRXF)],
   assume=['the TensorFlow Lite dialect is a stand-in (custom operations and dequantization); the results of tfl.custom and the operand and result of tfl.dequantize are tensors, a dequantization has one of each',
           'the pattern driver applies the pattern to every custom operation of every function (native harness)']),
 'C25': dict(units=[M('passes.vs', 'drv_passes.cc'), M('importing.vs', 'drv_passes.cc')], native=[N('passes.cc', [20000], [800000], TFCF)],
   assume=['TensorFlow, its importers, its passes and its exporter are stand-ins taken by name and arguments: what each of them does, and that a failure of theirs is told to the caller, is assumed',
           'the walk that looks for unsupported control flow is taken as some answer; that an answer of yes is reported as an error is proved (native harness for the walk itself)',
           'text (names, directories, targets) is compared by value; the number of inputs fits in an int',
           'the pybind11 bindings, OpOrArgLocNameMapper and the text form of a module (export_to_mlir) are left open']),
 'C26': dict(units=[U('converter.vs', 'larq_compute_engine/mlir/python/converter.py', ())], native=[N('convert.py', [20000], [600000])],
   assume=['TensorFlow and Keras are taken by name: saving, tracing, freezing, graph definitions, names of tensors and types, shapes of tensors (set_shape gives a tensor a shape that agrees with the one it has), the version of a saved model; the frozen graph of a model is the same however often it is asked for',
           'an attempt (try) either runs to its end or is abandoned; then all that existed before is as it was, and nothing is known of what was made during it (the translator refuses an attempt that writes to objects itself)',
           'a conversion that returns has done what property C25 says, changing input and output types what C20 says; both are taken by name here',
           'lists, tuples, sets, slices and the with statement do what lcv/pyprelude.rs and lcv/pyvx.py say; messages are dropped; warnings are not turned into errors']),
 'C27': dict(units=[TD('tdprepare.vs', 'prepare_patterns_target_arm'), TD('tdoptimize.vs', 'optimize_patterns_target_arm'), TD('tdquant.vs', 'quantize_patterns'), TD('tdremoval.vs', 'op_removal_patterns'), M('binfilter.vs', 'drv_preptf.cc')],
   native=[NP('prepare_patterns_target_arm:tdprepare', 'optimize_patterns_target_arm:tdoptimize', 'quantize_patterns:tdquant', 'op_removal_patterns:tdremoval'), N('binfilter.cc', [20000], [1000000], MLIRXF)],
   assume=['what the operations compute is stated as axioms (specs/tdrewrite.inc and the td*.vs files); tensors hold numbers, taken exactly',
           'a constant added to or multiplied with a binary convolution is one number or one per channel (for others the converted model is refused when it is prepared, C11)',
           'the pattern driver of MLIR applies a pattern where it matches, and replaces what it matched']),
}

NOTE = 'every obligation generated from the current source is discharged by Verus; assumptions are listed in the evidence file'
NA = {
 'C22': 'hand-written AArch64/ARM32 inline assembly: no deductive verifier or formal instruction semantics for it is installed, and nothing here can execute it',
}
