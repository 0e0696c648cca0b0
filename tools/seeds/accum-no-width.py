P = 'C14'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''                      op_data->params.filter_width *
                      op_data->params.channels_in;
    if (depth + 512 < 1 << 16) {''', '''                      op_data->params.filter_height *
                      op_data->params.channels_in;
    if (depth + 512 < 1 << 16) {''')]
NEEDS = 'a filter wider than it is high with many input channels, on 64-bit ARM'
BREAKS = '16-bit accumulators overflow'
NATIVE = ('select.cc', ['7', '4000'])
