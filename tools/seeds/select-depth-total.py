P = 'C14'
EDITS = [('larq_compute_engine/core/indirect_bgemm/select_kernel.h', """        bitpacked_input_shape.Dims(3) / bconv2d_params->groups;

    if (input_depth_per_group % 4 == 0) {""", """        bitpacked_input_shape.Dims(3) / bconv2d_params->groups;

    if (bitpacked_input_shape.Dims(3) % 4 == 0) {""")]
NEEDS = 'a grouped convolution whose total input words are a multiple of four but whose words per group are not, selected for 64-bit ARM'
BREAKS = 'the kernel for multiples of four words runs on groups of one or two words'
NATIVE = ('select.cc', ['7', '4000'])
