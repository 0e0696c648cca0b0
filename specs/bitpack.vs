@@include common.vs
@@include shape.vs
@@need lt F32 bool
@@need le F32 bool
@@need eq F32 bool
@@need cv i32 F32
@@need int << u32
@@foreach T C in F32:float i8:signed_char u8:unsigned_char
@@prelude
pub open spec fn word_ok_$T(w: i32, s: Seq<$T>, i: int, n: int, z: int) -> bool {
    forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w, k) == (k < n && neg_$T(s[i + k], z))
}
// out[o .. o+ceil(n/32)) are the packed signs of s[i .. i+n)
pub open spec fn packed_$T(out: Seq<i32>, o: int, s: Seq<$T>, i: int, n: int, z: int) -> bool {
    forall|p: int| o <= p < o + cdiv32(n) ==> word_ok_$T(#[trigger] out[p], s, i + 32 * (p - o), n - 32 * (p - o), z)
}
// row r of a packed matrix
pub open spec fn row_$T(out: Seq<i32>, o: int, s: Seq<$T>, i: int, cols: int, z: int, r: int) -> bool {
    packed_$T(out, o + r * cdiv32(cols), s, i + r * cols, cols, z)
}
@@end
@@prelude
// "represents a value below zero": the value is less than the zero point
pub open spec fn neg_F32(x: F32, z: int) -> bool { slt_F32(x, scv_i32_F32(z as i32)) }
pub open spec fn neg_i8(x: i8, z: int) -> bool { x < z }
pub open spec fn neg_u8(x: u8, z: int) -> bool { x < z }
// the zero point handed down to the packing kernels, as an integer
pub open spec fn zp_F32(z: F32) -> int { 0 }
pub open spec fn zp_i8(z: i8) -> int { z as int }
pub open spec fn zp_u8(z: u8) -> int { z as int }
pub open spec fn zok_F32(z: F32) -> bool { z == scv_i32_F32(0) }
pub open spec fn zok_i8(z: i8) -> bool { true }
pub open spec fn zok_u8(z: u8) -> bool { true }
pub open spec fn mzok_F32(z: int) -> bool { z == 0 }
pub open spec fn mzok_i8(z: int) -> bool { true }
pub open spec fn mzok_u8(z: int) -> bool { true }
// IEEE-754 facts about the integer zero converted to float
pub axiom fn ax_f32_zero()
    ensures seq_F32(scv_i32_F32(0), scv_i32_F32(0)), !slt_F32(scv_i32_F32(0), scv_i32_F32(0)),
        !sle_F32(scv_i32_F32(0), F32 { bits: 0xFF7FFFFFu32 }), !slt_F32(F32 { bits: 0x7F7FFFFFu32 }, scv_i32_F32(0));
pub proof fn lemma_ones(w: i32, k: int)
    requires w == -1, 0 <= k < 32
    ensures bit(w, k)
{ let k2 = k as u32; assert((((-1i32) as u32) >> k2) & 1u32 == 1u32) by (bit_vector) requires k2 < 32; }
pub proof fn lemma_zero(w: i32, k: int)
    requires w == 0, 0 <= k < 32
    ensures !bit(w, k)
{ let k2 = k as u32; assert(((0i32 as u32) >> k2) & 1u32 == 0u32) by (bit_vector); }
@@fn compute_engine::core::bitpacking::bitpack_bitfield<float>/2 as bitpack_bitfield_plain_F32
@requires
    fptr.ok(32), 0 <= buf_o@ < old(buf)@.len(),
@ensures
    final(buf)@.len() == old(buf)@.len(),
    word_ok_F32(final(buf)@[buf_o@], fptr.s@, fptr.o@, 32, 0),
    forall|k: int| 0 <= k < final(buf)@.len() && k != buf_o@ ==> final(buf)@[k] == old(buf)@[k],
@end
    proof {
        assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(buf@[buf_o@], k) == neg_F32(fptr.s@[fptr.o@ + k], 0) by {
            if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else if k == 15 { } else if k == 16 { } else if k == 17 { } else if k == 18 { } else if k == 19 { } else if k == 20 { } else if k == 21 { } else if k == 22 { } else if k == 23 { } else if k == 24 { } else if k == 25 { } else if k == 26 { } else if k == 27 { } else if k == 28 { } else if k == 29 { } else if k == 30 { } else { }
        }
    }
@@foreach T C in i8:signed_char u8:unsigned_char
@@fn compute_engine::core::bitpacking::bitpack_bitfield_quantized<$C>/3 as bitpack_bitfield_quantized_$T
@requires
    in_v.ok(32), 0 <= out_o@ < old(out)@.len(),
@ensures
    final(out)@.len() == old(out)@.len(),
    word_ok_$T(final(out)@[out_o@], in_v.s@, in_v.o@, 32, zero_point as int),
    forall|k: int| 0 <= k < final(out)@.len() && k != out_o@ ==> final(out)@[k] == old(out)@[k],
@end
    proof {
        assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(out@[out_o@], k) == neg_$T(in_v.s@[in_v.o@ + k], zero_point as int) by {
            if k == 0 { } else if k == 1 { } else if k == 2 { } else if k == 3 { } else if k == 4 { } else if k == 5 { } else if k == 6 { } else if k == 7 { } else if k == 8 { } else if k == 9 { } else if k == 10 { } else if k == 11 { } else if k == 12 { } else if k == 13 { } else if k == 14 { } else if k == 15 { } else if k == 16 { } else if k == 17 { } else if k == 18 { } else if k == 19 { } else if k == 20 { } else if k == 21 { } else if k == 22 { } else if k == 23 { } else if k == 24 { } else if k == 25 { } else if k == 26 { } else if k == 27 { } else if k == 28 { } else if k == 29 { } else if k == 30 { } else { }
        }
    }
@@end
@@foreach T C in F32:float i8:signed_char u8:unsigned_char
@@fn compute_engine::core::bitpacking::bitpack_bitfield<$C>/3 as bitpack_bitfield_$T
@requires
    in_v.ok(32), 0 <= out_o@ < old(out)@.len(), zok_$T(zero_point),
@ensures
    final(out)@.len() == old(out)@.len(),
    word_ok_$T(final(out)@[out_o@], in_v.s@, in_v.o@, 32, zp_$T(zero_point)),
    forall|k: int| 0 <= k < final(out)@.len() && k != out_o@ ==> final(out)@[k] == old(out)@[k],
@start
    proof { ax_f32_zero(); }
@@fn compute_engine::core::bitpacking::bitpack_array<$C>/4 as bitpack_array_$T
@requires
    input_array.ok(n as int), n < 0x40000000,
    0 <= bitpacked_array_o@, bitpacked_array_o@ + cdiv32(n as int) <= old(bitpacked_array)@.len(), zok_$T(zero_point),
@ensures
    final(bitpacked_array)@.len() == old(bitpacked_array)@.len(),
    packed_$T(final(bitpacked_array)@, bitpacked_array_o@, input_array.s@, input_array.o@, n as int, zp_$T(zero_point)),
    forall|k: int| 0 <= k < final(bitpacked_array)@.len() && !(bitpacked_array_o@ <= k < bitpacked_array_o@ + cdiv32(n as int)) ==> final(bitpacked_array)@[k] == old(bitpacked_array)@[k],
@start
    let ghost full = n as int / 32;
    proof { ax_f32_zero(); }
@loop 0 inv
    0 <= num_packed_elems <= full, in_v.s == input_array.s,
    in_v.o@ == input_array.o@ + 32 * (full - num_packed_elems),
    out_o@ == bitpacked_array_o@ + (full - num_packed_elems),
    bitpacked_array@.len() == old(bitpacked_array)@.len(),
    forall|p: int| bitpacked_array_o@ <= p < out_o@ ==> word_ok_$T(#[trigger] bitpacked_array@[p], input_array.s@, input_array.o@ + 32 * (p - bitpacked_array_o@), n - 32 * (p - bitpacked_array_o@), zp_$T(zero_point)),
    forall|k: int| 0 <= k < bitpacked_array@.len() && !(bitpacked_array_o@ <= k < out_o@) ==> bitpacked_array@[k] == old(bitpacked_array)@[k],
@loop 0 dec
    num_packed_elems
@loop 1 inv
    padding_buffer@.len() == 32, elements_left <= i <= 32,
    forall|k: int| 0 <= k < elements_left ==> #[trigger] padding_buffer@[k] == in_v.s@[in_v.o@ + k],
    forall|k: int| elements_left <= k < i ==> #[trigger] padding_buffer@[k] == zero_point,
@loop 1 dec
    32 - i
@@fn compute_engine::core::bitpacking::bitpack_matrix<$C>/5 as bitpack_matrix_$T
@dead 0 $T F32
@requires
    input_num_rows * input_num_cols < 0x40000000, input_num_cols < 0x40000000, input_num_rows < 0x40000000,
    input.ok(input_num_rows * input_num_cols), 0 <= output_o@, output_o@ + input_num_rows * cdiv32(input_num_cols as int) <= old(output)@.len(),
    mzok_$T(zero_point as int), output_o@ + input_num_rows * cdiv32(input_num_cols as int) < 0x100000000,
@ensures
    final(output)@.len() == old(output)@.len(),
    forall|r: int| 0 <= r < input_num_rows ==> #[trigger] row_$T(final(output)@, output_o@, input.s@, input.o@, input_num_cols as int, zero_point as int, r),
    forall|k: int| 0 <= k < final(output)@.len() && !(output_o@ <= k < output_o@ + input_num_rows * cdiv32(input_num_cols as int)) ==> final(output)@[k] == old(output)@[k],
@start
    let ghost wc = cdiv32(input_num_cols as int);
    let ghost nr = input_num_rows as int;
    let ghost nc = input_num_cols as int;
    proof {
        ax_f32_zero(); lemma_shl1();
        lemma_mat(nr, nc, wc);
        // what a constant fill means
        assert forall|r: int| 0 <= r < nr implies output_o@ <= #[trigger] (output_o@ + r * wc) && output_o@ + r * wc + wc <= output_o@ + nr * wc && r * nc + nc <= nr * nc && 0 <= r * nc by { lemma_row(r, nr, wc); lemma_row(r, nr, nc); }
        assert forall|w: i32, i: int, n: int| w == 0 && (forall|x: $T| !neg_$T(x, zero_point as int)) implies #[trigger] word_ok_$T(w, input.s@, i, n, zero_point as int) by {
            assert forall|k: int| 0 <= k < 32 implies !bit(w, k) by { lemma_zero(w, k); }
        }
        assert forall|w: i32, i: int, n: int| w == -1 && n >= 32 && (forall|x: $T| neg_$T(x, zero_point as int)) implies #[trigger] word_ok_$T(w, input.s@, i, n, zero_point as int) by {
            assert forall|k: int| 0 <= k < 32 implies bit(w, k) by { lemma_ones(w, k); }
        }
    }
@loop 0 before
    proof {
        lemma_wraps_u32((sshl_u32(1u32, nc % 32) - 1) as u32, value_with_padding);
        lemma_prefix(value_with_padding, nc % 32);
    }
@loop 0 inv
    0 <= rows <= nr,
    output@.len() == old(output)@.len(),
    output_o@ == output_o__0@ + (nr - rows) * wc,
    forall|r: int| 0 <= r < nr - rows ==> #[trigger] row_$T(output@, output_o__0@, input.s@, input.o@, nc, zero_point as int, r),
    forall|k: int| 0 <= k < output@.len() && !(output_o__0@ <= k < output_o@) ==> output@[k] == old(output)@[k],
@loop 0 begin
    let ghost prev = output@;
    let ghost ro = output_o@;
    let ghost cr = nr - rows - 1;
    proof { lemma_row(cr, nr, wc); assert(cr * wc + wc == (cr + 1) * wc) by (nonlinear_arith); }
@loop 0 end
    proof {
        assert(packed_$T(output@, ro, input.s@, input.o@ + cr * nc, nc, zero_point as int)) by {
            assert forall|p: int| ro <= p < ro + wc implies word_ok_$T(#[trigger] output@[p], input.s@, input.o@ + cr * nc + 32 * (p - ro), nc - 32 * (p - ro), zero_point as int) by {
                if p == ro + wc - 1 { assert(output@[p] == value_with_padding); } else { assert(output@[p] == -1); }
            }
        }
        assert(row_$T(output@, output_o__0@, input.s@, input.o@, nc, zero_point as int, cr));
        assert forall|r: int| 0 <= r < cr implies #[trigger] row_$T(output@, output_o__0@, input.s@, input.o@, nc, zero_point as int, r) by {
            assert(row_$T(prev, output_o__0@, input.s@, input.o@, nc, zero_point as int, r));
            lemma_row(r, cr, wc);
            assert forall|p: int| output_o__0@ + r * wc <= p < output_o__0@ + r * wc + wc implies prev[p] == #[trigger] output@[p] by { }
        }
    }
@loop 0 dec
    rows
@loop 1 inv
    0 <= row_index <= input_num_rows,
    output@.len() == old(output)@.len(), input.s == input__0.s, input.o@ == input__0.o@ + row_index * nc,
    output_o@ == output_o__0@ + row_index * wc,
    forall|r: int| 0 <= r < row_index ==> #[trigger] row_$T(output@, output_o__0@, input.s@, input__0.o@, nc, zero_point as int, r),
    forall|k: int| 0 <= k < output@.len() && !(output_o__0@ <= k < output_o@) ==> output@[k] == old(output)@[k],
@loop 1 begin
    let ghost prev = output@;
    let ghost ro = output_o@;
    let ghost cr = row_index as int;
    proof { lemma_row(cr, nr, wc); lemma_row(cr, nr, nc); assert(cr * wc + wc == (cr + 1) * wc) by (nonlinear_arith); assert(cr * nc + nc == (cr + 1) * nc) by (nonlinear_arith); }
@loop 1 end
    proof {
        assert(row_$T(output@, output_o__0@, input.s@, input__0.o@, nc, zero_point as int, cr));
        assert forall|r: int| 0 <= r < cr implies #[trigger] row_$T(output@, output_o__0@, input.s@, input__0.o@, nc, zero_point as int, r) by {
            assert(row_$T(prev, output_o__0@, input.s@, input__0.o@, nc, zero_point as int, r));
            lemma_row(r, cr, wc);
            assert forall|p: int| output_o__0@ + r * wc <= p < output_o__0@ + r * wc + wc implies prev[p] == #[trigger] output@[p] by { }
        }
    }
@loop 1 dec
    input_num_rows - row_index
@end
    proof {
        if nc % 32 == 0 {
            assert forall|r: int| 0 <= r < nr implies #[trigger] row_$T(output@, output_o__0@, input__0.s@, input__0.o@, nc, zero_point as int, r) by {
                lemma_row(r, nr, wc);
                assert(r * wc * 32 == r * nc) by (nonlinear_arith) requires wc * 32 == nc;
                assert forall|p: int| output_o__0@ + r * wc <= p < output_o__0@ + r * wc + wc implies word_ok_$T(#[trigger] output@[p], input__0.s@, input__0.o@ + r * nc + 32 * (p - output_o__0@ - r * wc), nc - 32 * (p - output_o__0@ - r * wc), zero_point as int) by {
                    assert(word_ok_$T(output@[p], input__0.s@, input__0.o@ + 32 * (p - output_o__0@), nc * nr - 32 * (p - output_o__0@), zero_point as int));
                }
            }
        }
    }
@@end
@@prelude
pub proof fn lemma_shl1()
    ensures forall|b: int| 0 <= b < 32 ==> #[trigger] sshl_u32(1u32, b) >= 1
{
    assert forall|b: int| 0 <= b < 32 implies #[trigger] sshl_u32(1u32, b) >= 1 by { let b2 = b as u32; assert((1u32 << b2) >= 1u32) by (bit_vector) requires b2 < 32; }
}
pub proof fn lemma_row(r: int, n: int, c: int)
    requires 0 <= r < n, 0 <= c
    ensures 0 <= r * c, r * c + c <= n * c
{ assert(r * c + c <= n * c) by (nonlinear_arith) requires r < n, 0 <= c; assert(0 <= r * c) by (nonlinear_arith) requires 0 <= r, 0 <= c; }
pub proof fn lemma_mat(r: int, n: int, wc: int)
    requires 0 <= r, 0 <= n, wc == cdiv32(n)
    ensures 0 <= r * wc <= r * n, 0 <= wc, wc * 32 >= n, n % 32 == 0 ==> wc * 32 == n && r * wc * 32 == r * n && (n * r) == r * n && n * r == r * wc * 32, n > 0 ==> wc > 0
{
    assert(0 <= wc <= n);
    assert(0 <= r * wc <= r * n) by (nonlinear_arith) requires 0 <= wc <= n, 0 <= r;
    if n % 32 == 0 { assert(wc * 32 == n); assert(r * wc * 32 == r * n) by (nonlinear_arith) requires wc * 32 == n; assert(n * r == r * n) by (nonlinear_arith); }
}
pub proof fn lemma_prefix(w: i32, m: int)
    requires 0 < m < 32, w as u32 == ((1u32 << (m as u32)) - 1) as u32
    ensures forall|k: int| 0 <= k < 32 ==> #[trigger] bit(w, k) == (k < m)
{
    let v = w as u32; let m2 = m as u32;
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit(w, k) == (k < m) by {
        let k2 = k as u32;
        assert((v >> k2) & 1u32 == (if k2 < m2 { 1u32 } else { 0u32 })) by (bit_vector) requires v == ((1u32 << m2) - 1) as u32, m2 < 32, m2 > 0, k2 < 32;
    }
}
@@foreach T C in F32:float i8:signed_char u8:unsigned_char
@@fn compute_engine::core::bitpacking::bitpack_tensor<$C>/4 as bitpack_tensor_$T
@requires
    in_shape@.len() >= 1, in_shape@.len() <= 8, forall|k: int| 0 <= k < in_shape@.len() ==> in_shape@[k] >= 0,
    0 <= rows_of(*in_shape) < 0x40000000, in_shape@[in_shape@.len() - 1] < 0x40000000,
    rows_of(*in_shape) * in_shape@[in_shape@.len() - 1] < 0x40000000,
    in_data.ok(rows_of(*in_shape) * in_shape@[in_shape@.len() - 1]), 0 <= out_data_o@,
    out_data_o@ + rows_of(*in_shape) * cdiv32(in_shape@[in_shape@.len() - 1] as int) <= old(out_data)@.len(),
    out_data_o@ + rows_of(*in_shape) * cdiv32(in_shape@[in_shape@.len() - 1] as int) < 0x100000000,
    mzok_$T(zero_point as int),
@ensures
    final(out_data)@.len() == old(out_data)@.len(),
    forall|r: int| 0 <= r < rows_of(*in_shape) ==> #[trigger] row_$T(final(out_data)@, out_data_o@, in_data.s@, in_data.o@, in_shape@[in_shape@.len() - 1] as int, zero_point as int, r),
    forall|k: int| 0 <= k < final(out_data)@.len() && !(out_data_o@ <= k < out_data_o@ + rows_of(*in_shape) * cdiv32(in_shape@[in_shape@.len() - 1] as int)) ==> final(out_data)@[k] == old(out_data)@[k],
@@end
