P = 'C11'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''             output->type == kTfLiteFloat32 &&
             op_data->fused_activation_function == kTfLiteActNone),
''', '''             output->type != kTfLiteInt32 &&
             op_data->fused_activation_function == kTfLiteActNone),
''')]
NEEDS = 'an int8 convolution with SAME zero padding on an optimized kernel'
BREAKS = 'zero padding is accepted for int8 output where no correction is applied'
NATIVE = ('bconv.cc', ['5', '6000', 'prepare'])
