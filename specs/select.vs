@@include common.vs
@@include shape.vs
@@include otrans.vs contracts of transform.vs
@@name compute_engine::core::indirect_bgemm::Kernel => Kernel
@@name compute_engine::core::indirect_bgemm::Kernel4x2Portable<float> => K4f
@@name compute_engine::core::indirect_bgemm::Kernel4x2Portable<signed char> => K4i
@@field compute_engine::core::indirect_bgemm::Kernel + dy: Ghost<Kd>
@@foreach W S C D E G H in 1:f:float:t:true:t:true 1:f:float:t:true:f:false 1:f:float:f:false:t:true 1:f:float:f:false:f:false 1:i:signed_char:t:true:t:true 1:i:signed_char:t:true:f:false 1:i:signed_char:f:false:t:true 1:i:signed_char:f:false:f:false 2:f:float:t:true:t:true 2:f:float:t:true:f:false 2:f:float:f:false:t:true 2:f:float:f:false:f:false 2:i:signed_char:t:true:t:true 2:i:signed_char:t:true:f:false 2:i:signed_char:f:false:t:true 2:i:signed_char:f:false:f:false 4:f:float:t:true:t:true 4:f:float:t:true:f:false 4:f:float:f:false:t:true 4:f:float:f:false:f:false 4:i:signed_char:t:true:t:true 4:i:signed_char:t:true:f:false 4:i:signed_char:f:false:t:true 4:i:signed_char:f:false:f:false
@@name compute_engine::core::indirect_bgemm::Kernel8x4x$WAarch64<$C, $E, $H> => KN$W$S$D$G
@@end
@@prelude
pub struct PtrVal { pub obj: Ghost<int>, pub off: Ghost<int> }
// the class of a kernel object
pub enum Kd { Portable, Neon { words: int, deep: bool, grouped: bool }, Nothing }
pub open spec fn kdims_ok(p: &BConv2DParams, i: Shape, o: Shape) -> bool {
    i@.len() == 4 && o@.len() == 4 && 0 < p.filter_height && 0 < p.filter_width && p.filter_height * p.filter_width <= 0x7fff_ffff
    && i@[0] >= 0 && o@[1] >= 0 && o@[2] >= 0 && i@[0] * o@[1] <= 0x7fff_ffff && i@[0] * o@[1] * o@[2] <= 0x7fff_ffff
}
pub open spec fn k_new(k: Kernel, bo: int, bp: int, bd: int, p: &BConv2DParams, i: Shape, o: Shape) -> bool {
    k.block_size_output_channels == bo && k.block_size_pixels == bp && k.block_size_depth == bd && k.input_depth == i@[3] && k.output_channels == p.channels_out
    && k.filter_size == p.filter_height * p.filter_width && k.groups == p.groups && k.num_output_pixels == i@[0] * o@[1] * o@[2]
}
// words of one group, and the largest number of differing bits one output can count
pub open spec fn words_pg(p: &BConv2DParams, i: Shape) -> int { i@[3] as int / p.groups as int }
pub open spec fn most_bits(p: &BConv2DParams, i: Shape) -> int { 32 * (p.filter_height * p.filter_width * words_pg(p, i)) }
// what a 16-bit kernel for a given channel width can run
pub open spec fn neon_can(w: int, deep: bool, grouped: bool, p: &BConv2DParams, i: Shape) -> bool {
    p.groups > 0 && words_pg(p, i) * p.groups == i@[3] && words_pg(p, i) > 0 && words_pg(p, i) % w == 0 && deep == (words_pg(p, i) > w) && (p.groups > 1 ==> grouped) && most_bits(p, i) <= 0xffff
}
pub open spec fn can_run(k: Kernel, p: &BConv2DParams, i: Shape) -> bool {
    match k.dy@ { Kd::Portable => true, Kd::Neon { words, deep, grouped } => neon_can(words, deep, grouped, p, i), Kd::Nothing => false }
}
pub proof fn lemma_mul_div(x: int, g: int) requires g > 0 ensures (x * g) / g == x { assert((x * g) / g == x) by (nonlinear_arith) requires g > 0; }
@@fn compute_engine::core::indirect_bgemm::Kernel::Kernel/6 as kernel_ctor
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
@ensures
    k_new(r, block_size_output_channels as int, block_size_pixels as int, block_size_depth as int, bconv2d_params, *bitpacked_input_shape, *output_shape)
@start
    proof { assert(0 <= bitpacked_input_shape@[0] * output_shape@[1] && 0 <= bitpacked_input_shape@[0] * output_shape@[1] * output_shape@[2] && 0 <= bconv2d_params.filter_height * bconv2d_params.filter_width) by (nonlinear_arith) requires bitpacked_input_shape@[0] >= 0, output_shape@[1] >= 0, output_shape@[2] >= 0, 0 <= bconv2d_params.filter_height, 0 <= bconv2d_params.filter_width; }
@@prelude
@@foreach S V in f:F i:I
pub open spec fn kb_4$S(k: &K4$S) -> Kernel {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(Kd::Portable) }
}
pub fn up_K4$S_Kernel(k: K4$S) -> (r: Kernel) ensures r == kb_4$S(&k) {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(Kd::Portable) }
}
@@end
@@foreach W S C D E G H in 1:f:float:t:true:t:true 1:f:float:t:true:f:false 1:f:float:f:false:t:true 1:f:float:f:false:f:false 1:i:signed_char:t:true:t:true 1:i:signed_char:t:true:f:false 1:i:signed_char:f:false:t:true 1:i:signed_char:f:false:f:false 2:f:float:t:true:t:true 2:f:float:t:true:f:false 2:f:float:f:false:t:true 2:f:float:f:false:f:false 2:i:signed_char:t:true:t:true 2:i:signed_char:t:true:f:false 2:i:signed_char:f:false:t:true 2:i:signed_char:f:false:f:false 4:f:float:t:true:t:true 4:f:float:t:true:f:false 4:f:float:f:false:t:true 4:f:float:f:false:f:false 4:i:signed_char:t:true:t:true 4:i:signed_char:t:true:f:false 4:i:signed_char:f:false:t:true 4:i:signed_char:f:false:f:false
pub open spec fn kb_$W$S$D$G(k: &KN$W$S$D$G) -> Kernel {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(Kd::Neon { words: $Wint, deep: $E, grouped: $H }) }
}
pub fn up_KN$W$S$D$G_Kernel(k: KN$W$S$D$G) -> (r: Kernel) ensures r == kb_$W$S$D$G(&k) {
    Kernel { block_size_output_channels: k.block_size_output_channels, block_size_pixels: k.block_size_pixels, block_size_depth: k.block_size_depth, input_depth: k.input_depth, output_channels: k.output_channels, filter_size: k.filter_size,
        groups: k.groups, num_output_pixels: k.num_output_pixels, packed_weights: k.packed_weights, indirection_buffer: k.indirection_buffer, zero_buffer: k.zero_buffer, dy: Ghost(Kd::Neon { words: $Wint, deep: $E, grouped: $H }) }
}
@@end
@@foreach S C in f:float i:signed_char
@@fn compute_engine::core::indirect_bgemm::Kernel4x2Portable<$C>::Kernel4x2Portable/4 as k4_ctor_$S
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
@ensures
    k_new(kb_4$S(&r), 4, 2, 1, bconv2d_params, *bitpacked_input_shape, *output_shape), r.output_transform == *output_transform
@@end
@@foreach W S C D E G H in 1:f:float:t:true:t:true 1:f:float:t:true:f:false 1:f:float:f:false:t:true 1:f:float:f:false:f:false 1:i:signed_char:t:true:t:true 1:i:signed_char:t:true:f:false 1:i:signed_char:f:false:t:true 1:i:signed_char:f:false:f:false 2:f:float:t:true:t:true 2:f:float:t:true:f:false 2:f:float:f:false:t:true 2:f:float:f:false:f:false 2:i:signed_char:t:true:t:true 2:i:signed_char:t:true:f:false 2:i:signed_char:f:false:t:true 2:i:signed_char:f:false:f:false 4:f:float:t:true:t:true 4:f:float:t:true:f:false 4:f:float:f:false:t:true 4:f:float:f:false:f:false 4:i:signed_char:t:true:t:true 4:i:signed_char:t:true:f:false 4:i:signed_char:f:false:t:true 4:i:signed_char:f:false:f:false
@@fn compute_engine::core::indirect_bgemm::Kernel8x4x$WAarch64<$C, $E, $H>::Kernel8x4x$WAarch64/4 as kn_ctor_$W$S$D$G
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
    // the kernel counts in 16 bits and handles one channel width
    neon_can($W, $E, $H, bconv2d_params, *bitpacked_input_shape),
@ensures
    k_new(kb_$W$S$D$G(&r), 8, 4, $W, bconv2d_params, *bitpacked_input_shape, *output_shape), r.output_transform == *output_transform
@@end
@@foreach S C in f:float i:signed_char
@@fn compute_engine::core::indirect_bgemm::SelectRuntimeKernel<$C>/4 as select_kernel_$S
@requires
    kdims_ok(bconv2d_params, *bitpacked_input_shape, *output_shape),
    bconv2d_params.groups > 0, bitpacked_input_shape@[3] > 0, bitpacked_input_shape@[3] as int % bconv2d_params.groups as int == 0,
    bconv2d_params.filter_height * bconv2d_params.filter_width * bitpacked_input_shape@[3] <= 0xff_ffff_ffff_ffff,
@ensures
    can_run(r, bconv2d_params, *bitpacked_input_shape)
@start
    proof {
        let h = bconv2d_params.filter_height as int; let w = bconv2d_params.filter_width as int; let c = bitpacked_input_shape@[3] as int; let g = bconv2d_params.groups as int; let q = c / g;
        assert(c == q * g && q > 0) by (nonlinear_arith) requires c % g == 0, q == c / g, g > 0, c > 0;
        let a = 32 * h * w * c;
        assert(0 <= h * w && h * w <= h * w * c && 0 <= 32 * h * w && a == 32 * (h * w * c) && 32 * h * w == 32 * (h * w)) by (nonlinear_arith) requires h > 0, w > 0, c > 0, a == 32 * h * w * c;
        assert(a == (32 * (h * w * q)) * g) by (nonlinear_arith) requires a == 32 * h * w * c, c == q * g;
        lemma_mul_div(32 * (h * w * q), g);
        assert(a / g == most_bits(bconv2d_params, *bitpacked_input_shape));
        // the same amount, however it is associated
        assert(32 * h * w * q == 32 * (h * w * q) && 32 * (h * w) * c == a && 32 * (h * w * c) == a && 32 * (h * w) * q == 32 * (h * w * q)) by (nonlinear_arith) requires a == 32 * h * w * c;
        assert(q <= c && q * g == c) by (nonlinear_arith) requires c == q * g, g > 0, q > 0;
        assert(h * w * q <= h * w * c) by (nonlinear_arith) requires q <= c, h * w >= 0;
    }
@@end
