P = 'C12'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''          (post_bias + static_cast<double>(backtransform_add) * post_mul) /
              output_scale +
          output_zero_point;
''', '''          (post_bias + static_cast<double>(backtransform_add) * post_mul +
           output_zero_point) /
          output_scale;
''')]
NEEDS = 'int8 output with a non-zero zero point and a scale other than one'
BREAKS = 'the zero point is divided by the scale'
NATIVE = ('bconv.cc', ['5', '3000', 'fold'])
