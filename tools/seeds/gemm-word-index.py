P = 'C09'
EDITS = [('larq_compute_engine/core/bgemm/kernels.h', '          *(dst->data.get() + i / bitpacking_bitwidth +', '          *(dst->data.get() + (i - start_row) / bitpacking_bitwidth +')]
NEEDS = 'bit-packed output with more than 32 channels computed in more than one block of rows'
BREAKS = 'later blocks overwrite the words of the first block'
NATIVE = ('bgemm.cc', ['7', '4000'])
