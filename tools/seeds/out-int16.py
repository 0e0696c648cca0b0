P = 'C06'
EDITS = [('larq_compute_engine/core/bconv2d/output_transform.h', '    return saturate(round(y));', '    return saturate(static_cast<std::int16_t>(round(y)));')]
NEEDS = 'a transformed value outside the 16-bit range'
BREAKS = 'the rounded value wraps around before it is saturated, so a large positive value becomes an arbitrary int8'
NATIVE = ('transform.cc', ['5'])
