P = 'C12'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''    nominal_clamp_min = std::max(nominal_clamp_min, -1 * backtransform_add);
    nominal_clamp_max = std::min(nominal_clamp_max, backtransform_add);
''', '''    // A dot product of signs cannot exceed the number of products.
    const std::int32_t max_dot =
        std::max<std::int32_t>(backtransform_add - 1, 1);
    nominal_clamp_min = std::max(nominal_clamp_min, -1 * max_dot);
    nominal_clamp_max = std::min(nominal_clamp_max, max_dot);
''')]
NEEDS = 'an output position where the input equals the filter (or its negation) in every bit, with an activation that does not clamp there'
BREAKS = 'the accumulator clamp cuts off the two extreme convolution values'
NATIVE = ('bconv.cc', ['5', '3000', 'fold'])
