P = 'C13'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''      op_data->output_transform_bias.at(i) =
          (post_bias''', '''      op_data->output_transform_bias.at(i) +=
          (post_bias''')]
NEEDS = 'a second preparation followed by an evaluation'
BREAKS = 'the bias is folded in once per preparation'
NATIVE = ('bconv.cc', ['5', '6000', 'history'])
