@@include common.vs
@@include shape.vs
@@prelude
pub open spec fn uw<T>(w: i32, k: int, zv: T, ov: T) -> T { if bit(w, k) { ov } else { zv } }
// row r of an unpacked matrix
pub open spec fn urow<T>(out: Seq<T>, o: int, s: Seq<i32>, i: int, cols: int, zv: T, ov: T, r: int) -> bool {
    forall|p: int| o + r * cols <= p < o + r * cols + cols ==> #[trigger] out[p] == uw(s[i + r * cdiv32(cols) + (p - o - r * cols) / 32], (p - o - r * cols) % 32, zv, ov)
}
pub proof fn lemma_test_bit(w: i32, k: int)
    requires 0 <= k < 32
    ensures (w & sshl_i32(1i32, k)) != 0 <==> bit(w, k)
{
    let k2 = k as u32;
    assert((w & (((1i32 as u32) << k2) as i32)) != 0i32 <==> ((w as u32) >> k2) & 1u32 == 1u32) by (bit_vector) requires k2 < 32;
}
pub proof fn lemma_urow(r: int, n: int, c: int)
    requires 0 <= r < n, 0 <= c
    ensures 0 <= r * c, r * c + c <= n * c
{ assert(r * c + c <= n * c) by (nonlinear_arith) requires r < n, 0 <= c; assert(0 <= r * c) by (nonlinear_arith) requires 0 <= r, 0 <= c; }
@@need int << i32
@@foreach T C in F32:float i8:signed_char bool:bool
@@fn compute_engine::core::bitpacking::unpack_bitfield<$C>/5 as unpack_bitfield_$T
@requires
    num_elements <= 32, 0 <= old(out_o)@, old(out_o)@ + num_elements <= old(out)@.len(),
@ensures
    final(out)@.len() == old(out)@.len(), final(out_o)@ == old(out_o)@ + num_elements,
    forall|p: int| old(out_o)@ <= p < old(out_o)@ + num_elements ==> #[trigger] final(out)@[p] == uw(in_v, p - old(out_o)@, zero_bit_result, one_bit_result),
    forall|p: int| 0 <= p < final(out)@.len() && !(old(out_o)@ <= p < old(out_o)@ + num_elements) ==> final(out)@[p] == old(out)@[p],
@start
    let ghost out_o__0 = *out_o;
@loop 0 inv
    0 <= i <= num_elements, out_o@ == out_o__0@ + i, out@.len() == old(out)@.len(),
    forall|p: int| out_o__0@ <= p < out_o__0@ + i ==> #[trigger] out@[p] == uw(in_v, p - out_o__0@, zero_bit_result, one_bit_result),
    forall|p: int| 0 <= p < out@.len() && !(out_o__0@ <= p < out_o__0@ + i) ==> out@[p] == old(out)@[p],
@loop 0 dec
    num_elements - i
@loop 0 begin
    proof { lemma_test_bit(in_v, i as int); }
@@fn compute_engine::core::bitpacking::unpack_matrix<$C>/6 as unpack_matrix_$T
@requires
    num_cols < 0x40000000, num_rows < 0x40000000,
    input_data.ok(num_rows * cdiv32(num_cols as int)), 0 <= output_data_o@, output_data_o@ + num_rows * num_cols <= old(output_data)@.len(),
@ensures
    final(output_data)@.len() == old(output_data)@.len(),
    forall|r: int| 0 <= r < num_rows ==> #[trigger] urow(final(output_data)@, output_data_o@, input_data.s@, input_data.o@, num_cols as int, zero_bit_result, one_bit_result, r),
    forall|p: int| 0 <= p < final(output_data)@.len() && !(output_data_o@ <= p < output_data_o@ + num_rows * num_cols) ==> final(output_data)@[p] == old(output_data)@[p],
@start
    let ghost nc = num_cols as int;
    let ghost nr = num_rows as int;
    let ghost wc = cdiv32(nc);
@loop 0 inv
    0 <= row_index <= nr, output_data@.len() == old(output_data)@.len(),
    in_ptr.s == input_data.s, in_ptr.o@ == input_data.o@ + row_index * wc, out_ptr_o@ == output_data_o@ + row_index * nc,
    forall|r: int| 0 <= r < row_index ==> #[trigger] urow(output_data@, output_data_o@, input_data.s@, input_data.o@, nc, zero_bit_result, one_bit_result, r),
    forall|p: int| 0 <= p < output_data@.len() && !(output_data_o@ <= p < output_data_o@ + row_index * nc) ==> output_data@[p] == old(output_data)@[p],
@loop 0 dec
    num_rows - row_index
@loop 0 begin
    let ghost prev = output_data@;
    let ghost cr = row_index as int;
    let ghost ob = output_data_o@ + cr * nc;
    let ghost ib = input_data.o@ + cr * wc;
    proof { lemma_urow(cr, nr, wc); lemma_urow(cr, nr, nc); assert(cr * wc + wc == (cr + 1) * wc) by (nonlinear_arith); assert(cr * nc + nc == (cr + 1) * nc) by (nonlinear_arith); }
@loop 0.0 inv
    0 <= num_full_blocks <= nc / 32, output_data@.len() == old(output_data)@.len(),
    in_ptr.s == input_data.s, in_ptr.o@ == ib + (nc / 32 - num_full_blocks), out_ptr_o@ == ob + 32 * (nc / 32 - num_full_blocks),
    forall|p: int| ob <= p < out_ptr_o@ ==> #[trigger] output_data@[p] == uw(input_data.s@[ib + (p - ob) / 32], (p - ob) % 32, zero_bit_result, one_bit_result),
    forall|p: int| 0 <= p < output_data@.len() && !(ob <= p < out_ptr_o@) ==> output_data@[p] == prev[p],
@loop 0.0 dec
    num_full_blocks
@loop 0 end
    proof {
        assert(urow(output_data@, output_data_o@, input_data.s@, input_data.o@, nc, zero_bit_result, one_bit_result, cr));
        assert forall|r: int| 0 <= r < cr implies #[trigger] urow(output_data@, output_data_o@, input_data.s@, input_data.o@, nc, zero_bit_result, one_bit_result, r) by {
            assert(urow(prev, output_data_o@, input_data.s@, input_data.o@, nc, zero_bit_result, one_bit_result, r));
            lemma_urow(r, cr, nc);
            assert forall|p: int| output_data_o@ + r * nc <= p < output_data_o@ + r * nc + nc implies prev[p] == #[trigger] output_data@[p] by { }
        }
    }
@@end
