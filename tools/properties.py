"""Writes properties.jsonl."""
import json, os
L = 'larq_compute_engine/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [L + f for f in files], 'state': [{'name': a, 'meaning': b} for a, b in state], 'mechanism': [{'name': a, 'where': L + b} for a, b in mech], 'observe_at': list(obs), 'hook_needed': hook}})

p('C01', 'Bit-packing encodes exactly the signs, with zeroed padding bits',
  'Packing a tensor along its last dimension writes, for every row, ceil(columns/32) 32-bit words in which bit k of word w is 1 exactly when element 32*w+k of the row is below the zero point. Bits beyond the row length are 0, for every element type, size and zero point (also zero points outside the element type\'s range). Nothing outside those words is written, nothing outside the input is read, and no undefined arithmetic occurs.',
  ['inputs', 'configurations'], 'all element values, all row counts and row lengths (multiples of 32 or not), all zero points, all ranks',
  'The repository tests sample a few sizes and zero points; the guarantee is for every row length, remainder and zero point, including the saturated ones, and they cannot see out-of-bounds accesses or signed overflow. The C++ tests are not even part of the reliable test set.',
  ['core/bitpacking/bitpack.h', 'core/bitpacking/utils.h', 'core/types.h'],
  [('row packing, remainder padding and saturated zero points', 'core/bitpacking/bitpack.h'), ('packing along the last dimension and packed sizes', 'core/bitpacking/utils.h')],
  [('packed word', 'bit set means the element is below the zero point')], ['packed output buffer'])
p('C02', 'Unpacking is exact and inverts packing',
  'Unpacking writes for every row and column the value chosen for a 0 bit or for a 1 bit according to that element\'s bit, and touches nothing else. Packing a tensor and unpacking it yields +1 for every element not below zero and -1 for every element below zero; unpacking words and packing the result gives back the same words with the padding bits cleared.',
  ['inputs', 'configurations'], 'all packed words (also with garbage in padding bits), all row counts and row lengths, all output types and chosen values',
  'Round trips are tested for a handful of sizes and types only; the guarantee ranges over every size, every word and every pair of output values.',
  ['core/bitpacking/bitpack.h', 'core/bitpacking/utils.h'], [('row unpacking with a partial last word', 'core/bitpacking/bitpack.h')], (), ['unpacked output buffer'])
p('C03', 'Quantize and dequantize operators: shapes, types and values',
  'The quantize operator accepts float, int8 and bool inputs, gives the output the input\'s shape with the last dimension packed, and writes the bits of the signs (float: below 0, int8: below its zero point, bool: false). The dequantize operator accepts a packed input whose shape matches the declared output, and writes +1/-1 (float), zero point plus/minus round(1/scale) clamped to int8, or true/false (bool). Any other type, rank or shape combination is rejected before evaluation.',
  ['inputs', 'configurations'], 'all shapes, element types, scales, zero points and contents',
  'Operator tests sample shapes and types; rejection of every inconsistent combination and exactness for every shape and zero point cannot be sampled.',
  ['tflite/kernels/quantization.cc', 'core/bitpacking/utils.h', 'core/bitpacking/bitpack.h'], [('operator preparation checks', 'tflite/kernels/quantization.cc'), ('type dispatch at evaluation', 'tflite/kernels/quantization.cc')], (), ['operator output tensor', 'operator status'])
p('C04', 'Binary max pooling equals the windowed maximum',
  'Every output bit of binary max pooling is 0 (meaning +1) exactly when some element of its pooling window that lies inside the image is +1, for every batch, position and channel; padded positions never contribute. Only elements inside the input are read and every output element is written exactly within the output.',
  ['inputs', 'configurations'], 'all input contents, image sizes, window sizes, strides, paddings and channel counts accepted by the operator',
  'Tests compare a sample of geometries against a reference; boundary windows, partially or fully padded windows and memory safety need all geometries.',
  ['core/bmaxpool.h', 'tflite/kernels/bmaxpool.cc'], [('window clamping and AND reduction', 'core/bmaxpool.h'), ('output size and padding computation', 'tflite/kernels/bmaxpool.cc')], (), ['operator output tensor'])
p('C05', 'Reference binary convolution matches its mathematical definition',
  'For every batch, output position and output channel, the reference binary convolution accumulates, over all filter taps and packed input channels of the channel\'s group, the number of differing bits, treating a tap outside the image as all +1 input (or, with same-zero padding, as half of the group\'s channels, the count that stands for the value 0), and hands that exact sum to the output stage for that position. This holds for all strides, dilations, paddings, groups and channel counts, reading only inside the input, filter and output.',
  ['inputs', 'configurations'], 'all image and filter contents, sizes, strides, dilations, padding amounts, group counts and channel counts',
  'The kernel tests compare implementations with one another on sampled configurations; if the reference is wrong everything agreeing with it is wrong too.',
  ['core/bconv2d/reference.h', 'core/types.h'], [('tap bounds check and bit counting', 'core/bconv2d/reference.h')], (), ['convolution output tensor'])
p('C06', 'The output stage computes back-transform, clamp, scale, bias and rounding',
  'For float and int8 outputs the output stage turns a count of differing bits into twice the count, clamped to the accumulator range, times the channel\'s multiplier plus the channel\'s bias; with the folded range, multiplier and bias that is (maximum minus twice the count) clamped to the activation range, scaled and shifted. For int8 the result is rounded to nearest and saturated to [-128, 127]. It uses exactly the multiplier and bias of the requested channel, for every accumulator value and channel.',
  ['inputs', 'configurations'], 'all accumulator values, channels, activation ranges, multipliers and biases',
  'Tests check end-to-end outputs at sampled values with tolerances; saturation limits, clamp order and per-channel indexing hold only if they hold for all values.',
  ['core/bconv2d/output_transform.h', 'core/types.h'], [('per-channel transform', 'core/bconv2d/output_transform.h'), ('rounding and saturation', 'core/types.h')], (), ['convolution output tensor'])
p('C07', 'Bit-packed convolution output: threshold bits and zero padding bits',
  'With bit-packed output, bit k of output word w at every output position is 1 exactly when the accumulated count of channel 32*w+k exceeds that channel\'s threshold, and bits beyond the last output channel are 0. Every output word is written, for every channel count including ones that are not a multiple of 32 and on every portable code path.',
  ['inputs', 'configurations'], 'all contents, channel counts, thresholds and geometries',
  'Bit-packed output is tested for a few channel counts; stale or garbage padding bits change results of later layers only for channel counts that are not a multiple of the word size.',
  ['core/bconv2d/reference.h', 'core/bconv2d/output_transform.h', 'core/bconv2d/optimized_bgemm.h', 'core/bconv2d/optimized_indirect_bgemm.h', 'core/indirect_bgemm/kernel_4x2_portable.h'],
  [('threshold comparison', 'core/bconv2d/output_transform.h'), ('word assembly in the reference loop', 'core/bconv2d/reference.h'), ('half-word stores of the portable indirect kernel', 'core/indirect_bgemm/kernel_4x2_portable.h')], (), ['bit-packed output tensor'])
p('C08', 'The indirect convolution path equals the convolution definition',
  'The portable indirect convolution (weight packing, indirection buffer and 4x2 kernel) produces, for every output position and channel, exactly the count of differing bits the convolution definition gives, transformed by the output stage. It does so for every geometry, group count, channel count and number of output pixels (multiples of the tile size or not), never reading or writing outside its buffers.',
  ['inputs', 'configurations'], 'all contents and geometries, all tile remainders of pixels and channels, all group counts',
  'Tests compare a sample of geometries with the reference; tile remainders, group offsets and buffer overreads need all of them.',
  ['core/indirect_bgemm/kernel.h', 'core/indirect_bgemm/kernel_4x2_portable.h', 'core/indirect_bgemm/select_kernel.h', 'core/bconv2d/optimized_indirect_bgemm.h'],
  [('packed weights layout', 'core/indirect_bgemm/kernel.h'), ('indirection buffer', 'core/indirect_bgemm/kernel.h'), ('4x2 accumulation and remainder stores', 'core/indirect_bgemm/kernel_4x2_portable.h')],
  [('packed weights', 'filter words regrouped per channel block'), ('indirection buffer', 'for each tile and tap, the four input pixels'), ('zero buffer', 'words a padded tap reads')], ['convolution output tensor'])
p('C09', 'The matrix-multiply convolution path accumulates exact bit differences',
  'The portable binary matrix multiplication computes, for every row and column of its destination, the exact sum over the depth of differing bits between the packed operands, and passes it with the right channel index to the output stage. Packing an operand into the kernel\'s block layout preserves every word and fills missing rows and columns with zero words.',
  ['inputs', 'configurations'], 'all operand contents, all numbers of rows, columns and depth, all block remainders',
  'Matrix tests cover sampled sizes; block remainders in every dimension are what breaks.',
  ['core/bgemm/kernels_common.h', 'core/bgemm/kernels.h', 'core/bgemm/ruy_pack.h', 'core/bgemm/bgemm.h', 'core/bconv2d/optimized_bgemm.h'],
  [('standard C++ kernel', 'core/bgemm/kernels.h'), ('block packing', 'core/bgemm/ruy_pack.h')], (), ['convolution output tensor'])
p('C10', 'Zero-padding correction makes same-zero padding exact',
  'When a float-output convolution zero-pads, after correction every output element equals the convolution in which taps outside the image contribute nothing; elements whose window lies fully inside the image are left unchanged. The correction reads and writes only inside its cache, its filter and the output, for every geometry it is enabled for.',
  ['inputs', 'configurations'], 'all filter contents, image and filter sizes, strides, dilations and channel counts',
  'Only sampled geometries are tested; edge and corner windows depend on stride, dilation and padding in combination.',
  ['core/bconv2d/zero_padding_correction.h', 'core/bconv2d/optimized_bgemm.h', 'core/bconv2d/reference.h', 'core/bconv2d/optimized_indirect_bgemm.h'],
  [('padding cache', 'core/bconv2d/zero_padding_correction.h'), ('border correction', 'core/bconv2d/zero_padding_correction.h')], [('padding cache', 'per border case and channel, the amount to subtract')], ['convolution output tensor'])
p('C11', 'Convolution preparation rejects every inconsistent configuration',
  'Preparing a binary convolution succeeds only if tensor ranks and types, channel counts, group divisibility, strides, dilations, padding mode and value, activation and the sizes of the per-channel tensors are mutually consistent with what evaluation will assume; otherwise it reports an error and evaluation never runs on it. On success the output tensor has exactly the shape given by batch, spatial output size and (packed) output channels.',
  ['configurations', 'inputs'], 'all option values, tensor types, ranks and shapes a model file can contain',
  'The tests exercise valid models and a few death tests; a model file can hold any combination.',
  ['tflite/kernels/bconv2d.cc', 'core/bconv2d/params.h'], [('option parsing', 'tflite/kernels/bconv2d.cc'), ('preparation checks', 'tflite/kernels/bconv2d.cc')], (), ['operator status', 'output tensor shape'])
p('C12', 'The folded per-channel multipliers, biases and clamps are right',
  'For int8 output the effective multiplier and bias of each channel equal (-2 or -1 convention folded) multiplier over the output scale and (bias plus folded offset) over the output scale plus the zero point, so that evaluating from the raw bit count gives the same result as evaluating from the true convolution sum. The accumulator clamp range is the activation range expressed in bit counts, for every activation and channel count.',
  ['inputs', 'configurations'], 'all channel counts, filter sizes, activations, multipliers, biases, scales and zero points',
  'End-to-end comparisons with tolerance at sampled values cannot separate a wrong fold from rounding.',
  ['tflite/kernels/bconv2d.cc', 'core/bconv2d/output_transform.h'], [('one-time setup', 'tflite/kernels/bconv2d.cc')], (), ['output-stage parameters'])
p('C13', 'Resizing and re-preparing never leaves stale state behind',
  'After any history of preparing, evaluating, resizing inputs and preparing again, a convolution computes the same result as a freshly created one with the current shapes: per-shape tables are rebuilt and per-model folds are not applied twice.',
  ['histories'], 'all sequences of prepare, evaluate and resize with any valid shapes',
  'The tests prepare each interpreter once; stale tables need a second preparation with another shape.',
  ['tflite/kernels/bconv2d.cc', 'core/indirect_bgemm/kernel.h'], [('lazy creation of the indirect kernel', 'tflite/kernels/bconv2d.cc'), ('one-time setup flags', 'tflite/kernels/bconv2d.cc')], [('operator data', 'caches built at first evaluation')], ['convolution output tensor'])
p('C14', 'Runtime kernel selection only picks a kernel that can run the case',
  'Whatever the shapes, channel counts and accumulator sizes, the kernel chosen at run time supports them: a 16-bit accumulator is only used when no count of differing bits can overflow it, and a channel-width specific kernel only for that width.',
  ['configurations'], 'all filter sizes, channel counts, group counts and output kinds',
  'Tests cover small filters where no overflow can happen.',
  ['core/indirect_bgemm/select_kernel.h', 'core/bgemm/bgemm.h', 'core/bconv2d/optimized_bgemm.h'], [('kernel selection', 'core/indirect_bgemm/select_kernel.h'), ('16-bit accumulator guard', 'core/bconv2d/optimized_bgemm.h')], (), ['convolution output tensor'])
p('C15', 'Explicit padding is fused into a convolution only when equivalent',
  'The converter replaces a padding operation followed by a convolution by a convolution with its own padding only if both compute the same values for every input: no padding of batch or channel dimensions, and spatial padding exactly what the convolution\'s own padding mode would apply.',
  ['programs', 'inputs'], 'all padding amounts, input and output sizes and strides, odd and even totals',
  'The conversion tests contain a few fixed patterns; soundness ranges over all shapes and strides.',
  ['mlir/transforms/padding.h', 'mlir/transforms/fuse_padding.cc', 'mlir/transforms/prepare_tf.cc', 'mlir/transforms/fuse_padding.td', 'mlir/transforms/prepare_patterns_common.td'], [('same-padding test', 'mlir/transforms/padding.h')], (), ['converted graph'])
p('C16', 'Batch-size fixing changes exactly the dynamic leading dimensions of inputs',
  'After the pass, every function input whose type is a ranked tensor with a dynamic first dimension has that dimension set to 1 with all other dimensions and the element type unchanged, both in the signature and in the argument itself. Every other input, and all results, keep their type.',
  ['programs'], 'all functions: any number and order of inputs, any ranks, dimensions, element types and non-tensor types',
  'The one file test has a few signatures; any number and mix of inputs can occur.',
  ['mlir/transforms/set_batch_size.cc'], [('type rewriting and signature update', 'mlir/transforms/set_batch_size.cc')], (), ['function signature and argument types'])
p('C17', 'Folding constants at conversion equals computing at run time',
  'Packing or unpacking a constant while converting yields exactly the constant the runtime operator would produce from it, for every shape and content; a packing operation created while converting declares the shape and type the runtime operator produces, leaving unknown what is unknown.',
  ['inputs', 'programs'], 'all constant shapes and contents, splats included',
  'Fixed small constants are tested.',
  ['mlir/transforms/bitpack.cc', 'mlir/ir/lce_ops.cc', 'mlir/transforms/bitpack_weights.cc', 'mlir/transforms/bitpack_weights_patterns.td'], [('constant packing', 'mlir/transforms/bitpack.cc')], (), ['folded constants'])
p('C18', 'Bit-packed thresholds agree with the sign of the full-precision output',
  'When the converter gives a binary convolution a bit-packed output, the output bit the runtime writes (accumulator above the channel\'s threshold) is set exactly when the full-precision output clamp(+-(a - 2x)) * multiplier + bias is negative, for every accumulator value x in [0, a], every fused activation, and all finite positive, negative or zero multipliers and biases (the output taken exactly, without rounding; a, the receptive field, below 2^26); the signs the filter is multiplied with are +1 for multipliers >= 0 and -1 otherwise.',
  ['inputs', 'programs'], 'all multipliers, biases, activations and accumulator values',
  'Conversion tests compare a few constants; rounding at threshold boundaries needs all values.',
  ['mlir/transforms/optimize.cc', 'core/bconv2d/output_transform.h', 'mlir/transforms/bitpack_activations_patterns.td'], [('threshold computation', 'mlir/transforms/optimize.cc')], (), ['converted graph', 'bit-packed output'])
p('C19', 'Operator options survive conversion to the model file and back',
  'Every attribute of a converted binary convolution (strides, dilations, padding, pad value, input channels, fused activation NONE/RELU/RELU_N1_TO_1/RELU6) or binary pooling (strides, filter size, padding) is read back by the runtime operator with exactly the value the converter put in, for all 32-bit values; legalization emits a custom operation named "Lce" plus the operator\'s mnemonic with the same operands, result types and exactly these option bytes (none for LceQuantize and LceDequantize), each name resolves to the runtime operator of that kind, and translating custom operations back gives the operation with the same attributes and operands.',
  ['configurations', 'programs'], 'all strides, dilations, paddings, pad values, activations, filter sizes and channel counts',
  'Tests use few option combinations; swapped or truncated options show only when the values differ or are large.',
  ['mlir/ir/lce_ops.cc', 'mlir/transforms/legalize_tflite.cc', 'mlir/transforms/translate_tflite.cc', 'tflite/kernels/bconv2d.cc', 'tflite/kernels/bmaxpool.cc', 'tflite/kernels/utils.h', 'tflite/kernels/lce_ops_register.h'], [('option serialisation', 'mlir/ir/lce_ops.cc'), ('option parsing', 'tflite/kernels/bconv2d.cc'), ('legalization', 'mlir/transforms/legalize_tflite.cc'), ('reading models', 'mlir/transforms/translate_tflite.cc')], (), ['model file options'])
p('C20', 'Rewriting quantized model inputs and outputs keeps the model consistent',
  'Changing the input or output types of a quantized model to int8 removes exactly the quantize and dequantize operators at its boundary and the tensors they alone connect, keeps every other operator, tensor and buffer, and re-targets the graph\'s inputs and outputs, its signatures and every remaining operator to the tensors they meant before; stripping the final (Lce)Dequantize operators does the same in every subgraph. Requests the model does not allow (no such operators, unexpected types, a removed tensor that is still used elsewhere) raise an error instead of writing an inconsistent model (convert_keras_model leaves a model without any quantization as it is).',
  ['programs', 'configurations'], 'all model files and requested type combinations',
  'Tests use two or three small models.',
  ['mlir/python/util.py', 'mlir/python/converter.py'], [('model rewriting', 'mlir/python/util.py')], (), ['converted model file'])
p('C21', 'The Python interpreter wrapper checks and copies tensors faithfully',
  'An input that is no array, or whose element type, rank or any dimension differs from the model\'s, is refused with an exception before the model runs; otherwise all its elements reach the model in order, whatever its memory layout. A prediction runs the model once per sample on exactly the samples given, in order (lists of inputs with differing numbers of samples are refused), and returns a copy of every output element in order, with the output\'s type and shape, for any number of inputs, outputs and samples (at least one sample); a failed run is reported. The types, shapes, zero points and scales reported are those of the model\'s tensors, in order.',
  ['inputs', 'histories'], 'all array shapes, types and batch sizes, all sequences of predictions',
  'Tests run a few models with fixed batches.',
  ['tflite/python/interpreter_base.py', 'tflite/python/interpreter.py', 'tflite/python/interpreter_wrapper_utils.h', 'tflite/python/interpreter_wrapper_lite.cc'], [('shape checks and copies', 'tflite/python/interpreter_wrapper_utils.h')], (), ['returned arrays'])
p('C22', 'ARM assembly kernels compute what the portable ones compute',
  'The hand-written ARM kernels (packing, matrix multiplication, indirect convolution) produce bit-for-bit the results of the portable implementation for every input.',
  ['inputs', 'configurations'], 'all contents and sizes on 32- and 64-bit ARM',
  'They run only on ARM hardware, on sampled sizes.',
  ['core/bitpacking/bitpack_aarch64.h', 'core/bgemm/kernels_aarch64.h', 'core/bgemm/kernels_arm32.h', 'core/indirect_bgemm/kernel_8x4x1_aarch64.h', 'core/indirect_bgemm/kernel_8x4x2_aarch64.h', 'core/indirect_bgemm/kernel_8x4x4_aarch64.h'], [('inline assembly', 'core/bgemm/kernels_aarch64.h')], (), ['kernel outputs'])
p('C23', 'Only binary filters are turned into binary convolutions',
  'The converter takes a convolution filter for binary exactly when it is a constant rank-4 single-precision tensor in which every weight w of every output channel satisfies ||w/s| - 1| <= 0.005, where s, the channel\'s first weight, is larger in magnitude than the machine epsilon (a weight that is not a number never passes); the scale factored out of each channel is that |s|, laid out one per output channel, and the constants it adds hold the requested value once per channel; a group of channels is accepted only when the filter\'s input channels divide the image\'s and, if they differ, are a multiple of 32; a padding constant is recognised as all +1 or all -1 only when it is single precision and every element equals that value.',
  ['inputs', 'programs'], 'all filter shapes, element types and weights including infinities, NaN and zeros; all padding constants',
  'Conversion tests use a handful of filters; a filter misjudged in one weight of one channel converts into a silently different model.',
  ['mlir/transforms/prepare_tf.cc', 'mlir/transforms/common.h', 'mlir/transforms/prepare_patterns_common.td'], [('filter predicates', 'mlir/transforms/prepare_tf.cc'), ('constant predicate', 'mlir/transforms/common.h')], (), ['converted graph'])
p('C24', 'Detection post-processing is moved to integers only where it fits',
  'The converter makes a detection post-processing operation (a tfl.custom operation with code TFLite_Detection_PostProcess, three inputs and four results) read integers exactly when each of its inputs is dequantized just before it, the scores come from signed 8-bit quantized numbers, and its results hold 32-bit integers except the scores (the third), which hold 32-bit floats. The operation that replaces it has the same code and options, reads exactly the tensors that were dequantized, in the same order, and its results have the types they had, except that the scores are int8 numbers with the scale and zero point of the scores input; they are dequantized right away, so that every use of every result sees the type and the meaning it had. Any other operation is left as it is, and the conversion does not fail because of it.',
  ['programs'], 'all graphs with detection operations, all element types and quantizations of their inputs and results, ranked or not',
  'There is no test of this pass with other element types, result shapes or graphs than the one it was written for.',
  ['mlir/transforms/detection_postprocess.cc'], [('rewrite pattern', 'mlir/transforms/detection_postprocess.cc')], (), ['converted graph'])
p('C25', 'A conversion runs what was asked for and reports every failure',
  'Converting a graph or a saved model either returns a model or raises an error; it raises one whenever loading, importing, any pass (whether or not it says why), freezing the variables, exporting or the final check fails, the target is neither arm nor xcore, no exported name is given, or the module does not have exactly one entry function that lists its inputs. A returned model is the export (custom operations allowed, no TensorFlow operations, the tags of the request) of the imported request - the graph with the named inputs, types and shapes (an empty shape is unknown) and outputs; the saved model of the directory, version, tags and names, with the custom operations registered - after exactly these steps in this order: fake quantizations protected, the standard TensorFlow pipeline, variables frozen if there is a session, batch size set and shapes inferred again, training-only operations removed, globals (and assets, if there is a directory) frozen, NHWC layout, Larq operations prepared for the requested target, legalized, optimized for that target before and after TensorFlow Lite\'s own optimizations, weights packed, padding fused, if quantization is wanted the quantization passes (with the requested default ranges, only if given) with Larq\'s after each of TensorFlow Lite\'s, and last of all the Larq operations turned into custom operations.',
  ['inputs', 'failures'], 'all requests (targets, ranges, inputs, shapes, tags, names), all points at which a step fails with or without a message, all modules for the entry function',
  'Conversion tests run good models only; a pass moved, given the wrong target or range, or a failure swallowed at one step shows in a silently different or empty model.',
  ['mlir/tf_tfl_passes.cc', 'mlir/tf_to_tfl_flatbuffer.cc', 'mlir/python/common.cc', 'mlir/python/graphdef_tfl_flatbuffer.cc', 'mlir/python/saved_model_tfl_flatbuffer.cc'], [('order of the passes', 'mlir/tf_tfl_passes.cc'), ('running them', 'mlir/tf_to_tfl_flatbuffer.cc'), ('request', 'mlir/python/common.cc')], (), ['converted graph', 'error'])
p('C26', 'The Python conversion calls convert exactly what was asked for',
  'convert_saved_model and convert_keras_model raise an error, before anything is saved or converted, when the input or output type is neither float32 nor int8, the target is neither arm nor xcore, or TensorFlow does not execute eagerly; so does convert_keras_model for anything that is not a Keras model or has another precision policy than float32, and convert_saved_model for a saved model of a version other than 1 and 2. Otherwise convert_saved_model converts that directory once, with its version, the serving tag, the default serving signature, the target and the default range asked for, and then changes the input and output types if and only if one of them is not float32. convert_keras_model saves the model in the TensorFlow format to a fresh directory, converts that directory in this way with the same request while it exists, removes it, and returns the result. Only if that fails does it convert the frozen graph of the model (traced with the batch size its inputs declare) instead: with the names, types and shapes of its inputs other than resources in their order, an unknown batch size as one and any other unknown dimension refused, the names of its outputs in their order, quantization exactly if a default range is given or one of the six training-time quantization operations occurs in the graph or in one of its library functions, and the target and range asked for; the input and output types are then changed if and only if it is quantized and one of them is not float32. A failure of that conversion is an error.',
  ['inputs', 'failures'], 'all requests, all graphs and library functions, all inputs and outputs with their types and shapes, all points at which the saved-model conversion fails',
  'Conversion tests convert a few models with default options through the saved-model path; the graph path and its arguments are hardly ever seen.',
  ['mlir/python/converter.py'], [('saved models', 'mlir/python/converter.py:convert_saved_model'), ('Keras models', 'mlir/python/converter.py:convert_keras_model')], (), ['arguments of the conversion', 'error'])
p('C27', 'Graph rewrites of the converter keep what the model computes',
  'Each declarative rewrite of the converter replaces operations only by operations that compute the same values for every input: pass-through operations (identity, check-numerics, snapshot, stop-gradient, placeholder-with-default) by their operand; a choice of 1 or -1 by a condition (or its negation) by unpacking the packed condition, broadcast as the choice broadcasts it; sign(sign(x) + c) by the binary sign only if 0 < c < 1; a packed comparison x >= t by packing x - t (x itself only if t is 0), x <= y as y >= x; a max pooling without activation before packing by a binary max pooling of the packed input with the same window, strides and padding; a constant added to, subtracted from, multiplied with or dividing a binary convolution by one in its biases (and multipliers); an activation after a binary convolution by its fused activation only if it has none yet, its multipliers are 1, its biases 0 and it does not pad with zeros; quantization of the output of a convolution or of unpacking, and dequantization before packing, by the operation on the quantized type. All other operands and options stay as they are. Numbers are taken exactly, quantization up to the step of its type; a constant folded into a convolution is one number or one per channel.',
  ['inputs'], 'all tensors, shapes, constants and options the patterns match',
  'The lit tests match one or two graphs per pattern and look at the text of the result, not at its values; most are not built here at all.',
  ['mlir/transforms/prepare_patterns_common.td', 'mlir/transforms/optimize_patterns_common.td', 'mlir/transforms/optimize_patterns_target_arm.td', 'mlir/transforms/quantize_patterns.td', 'mlir/transforms/op_removal_patterns.td', 'mlir/transforms/common.h'], [('patterns', 'mlir/transforms/prepare_patterns_common.td'), ('fusing', 'mlir/transforms/optimize_patterns_common.td'), ('quantization', 'mlir/transforms/quantize_patterns.td')], (), ['converted graph'])
if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            for fn in x['anchors']['files']: assert os.path.exists('/repo/' + fn), fn
            f.write(json.dumps(x) + '\n')
