P = 'C11'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''    TF_LITE_ENSURE_EQ(context, SizeOfDimension(post_activation_bias, 0),
                      bconv2d_params->channels_out);
''', '''    if (SizeOfDimension(post_activation_bias, 0) >
        bconv2d_params->channels_out) {
      TF_LITE_ENSURE_EQ(context, SizeOfDimension(post_activation_bias, 0),
                        bconv2d_params->channels_out);
    }
''')]
NEEDS = 'a model whose bias tensor has fewer entries than the convolution has output channels'
BREAKS = 'evaluation reads biases past the end of the tensor'
NATIVE = ('bconv.cc', ['5', '6000', 'prepare'])
