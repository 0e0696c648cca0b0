@@prelude
pub open spec fn i8_of(x: i32) -> int { wraps(x as int, 256) }
// options that decode to a convolution
pub open spec fn opts_ok(m: Map<u64, i32>) -> bool {
    m.dom().contains(2888600398) && m.dom().contains(1581847379) && m.dom().contains(747320286) && m.dom().contains(1818037642) && m.dom().contains(99885070) && m.dom().contains(1417847379) && m.dom().contains(836103020) && m.dom().contains(3519453420)
    && (m[1417847379] == 0 || m[1417847379] == 1) && 0 <= i8_of(m[3519453420]) <= 3
}
// the parameters a convolution runs with, read from its options
pub open spec fn conv_reads(m: Map<u64, i32>, stride_h: i32, stride_w: i32, dil_h: i32, dil_w: i32, pad_value: i32, channels_in: i32, act: int, pad_type: u32) -> bool {
    stride_h == m[2888600398] && stride_w == m[1581847379] && dil_h == m[747320286] && dil_w == m[1818037642] && pad_value == m[1417847379] && channels_in == m[836103020] && act == i8_of(m[3519453420])
    && pad_type == (if i8_of(m[99885070]) == 0 { 1u32 } else if i8_of(m[99885070]) == 1 { 2u32 } else { 0u32 })
}
