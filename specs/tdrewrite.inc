@@assume meaning of the operations, numbers taken exactly and without NaN: packing a comparison x >= t packs the sign of x - t; adding a constant to (multiplying by a constant) a binary convolution adds it to its biases (multiplies its multipliers and biases), where the constant is one number or one per channel; an activation of a convolution with multipliers 1 and biases 0 is its fused activation unless it pads with zeros; packing and max pooling commute; choosing 1 or -1 by a condition unpacks the packed condition, broadcast to the result; sign(sign(x) + c) is the binary sign if 0 < c < 1; pass-through operations give their operand; a constant 0 compared with has no larger shape than what it is compared with
@@assume quantization up to the step of the quantized type: a convolution writes the quantized type itself, multipliers and biases need no quantization, packing reads a quantized number's sign, unpacking can write a quantized type
@@assume llvm-tblgen 18 elaborates the patterns as mlir-tblgen does; argument lists of the TensorFlow operations are stand-ins (stubs_td)
