@@extern tflite::ComputePaddingHeightWidth/11 => tf_compute_padding
@@assume TFLite's ComputePaddingHeightWidth follows the TensorFlow convention: SAME gives ceil(size/stride) outputs, VALID gives floor((size-effective filter)/stride)+1; the total padding max((outputs-1)*stride+effective filter-size, 0) is split with the smaller half before the image
@@assume window sizes, strides, dilations and image sizes are below 2^28 and not negative
@@prelude
pub open spec fn eff(f: int, d: int) -> int { (f - 1) * d + 1 }
// kind: 1 SAME, 2 VALID
pub open spec fn out_extent(kind: u32, n: int, f: int, s: int, d: int) -> int { if kind == 1 { (n + s - 1) / s } else if kind == 2 { tdiv(n + s - eff(f, d), s) } else { 0 } }
pub open spec fn pad_total(n: int, f: int, s: int, d: int, o: int) -> int { imax((o - 1) * s + eff(f, d) - n, 0) }
#[verifier::external_body] pub fn tf_compute_padding(sh: i32, sw: i32, dh: i32, dw: i32, ih: i32, iw: i32, fh: i32, fw: i32, kind: u32, oh: &mut i32, ow: &mut i32) -> (r: TfLitePaddingValues)
    requires 0 < sh < BIG, 0 < sw < BIG, 0 < dh < BIG, 0 < dw < BIG, 0 <= ih < BIG, 0 <= iw < BIG, 0 < fh < BIG, 0 < fw < BIG, eff(fh as int, dh as int) < BIG, eff(fw as int, dw as int) < BIG,
    ensures *final(oh) == out_extent(kind, ih as int, fh as int, sh as int, dh as int), *final(ow) == out_extent(kind, iw as int, fw as int, sw as int, dw as int),
        r == pad_values(sh as int, sw as int, dh as int, dw as int, ih as int, iw as int, fh as int, fw as int, kind) { unimplemented!() }
pub open spec fn pad_values(sh: int, sw: int, dh: int, dw: int, ih: int, iw: int, fh: int, fw: int, kind: u32) -> TfLitePaddingValues {
    let th = pad_total(ih, fh, sh, dh, out_extent(kind, ih, fh, sh, dh)); let tw = pad_total(iw, fw, sw, dw, out_extent(kind, iw, fw, sw, dw));
    TfLitePaddingValues { height: (th / 2) as i32, width: (tw / 2) as i32, height_offset: (th % 2) as i32, width_offset: (tw % 2) as i32 }
}
// padding and output size of one direction: no window lies outside the image, the padding before is less than a window
pub proof fn lemma_extent(kind: u32, n: int, f: int, s: int, d: int)
    requires 0 < n < BIG, 0 < f < BIG, 0 < s < BIG, 0 < d, eff(f, d) < BIG, kind <= 2
    ensures ({ let o = out_extent(kind, n, f, s, d); let t = pad_total(n, f, s, d, o);
        &&& o < BIG &&& 0 <= t < eff(f, d)
        &&& (kind == 1 ==> o >= 1) &&& (kind == 2 && o >= 1 ==> t == 0 && (o - 1) * s + eff(f, d) <= n)
        &&& (o >= 1 ==> (o - 1) * s < n && (o - 1) * s - t / 2 < n) &&& (o <= 0 ==> (o - 1) * s - t / 2 < n) })
{
    let e = eff(f, d); let o = out_extent(kind, n, f, s, d);
    assert(e >= 1) by (nonlinear_arith) requires e == (f - 1) * d + 1, f > 0, d > 0;
    if kind == 1 {
        let a = n + s - 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, s);
        assert(s * o == o * s) by (nonlinear_arith);
        assert((o - 1) * s == o * s - s) by (nonlinear_arith);
        assert(o >= 1) by (nonlinear_arith) requires o * s > a - s, a >= s, s > 0;
        assert(o < BIG) by (nonlinear_arith) requires o * s <= n + s - 1, n < BIG, s > 0, n > 0;
    } else if kind == 2 {
        let a = n + s - e;
        if a >= 0 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, s);
            assert(s * o == o * s) by (nonlinear_arith);
            assert((o - 1) * s == o * s - s) by (nonlinear_arith);
            assert(o < BIG) by (nonlinear_arith) requires o * s <= n + s - e, n < BIG, s > 0, n > 0, e >= 1;
            assert(o >= 0) by (nonlinear_arith) requires o * s > a - s, a >= 0, s > 0;
            if o == 0 { assert((0 - 1) * s == -s) by (nonlinear_arith); }
        } else {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-a, s);
            let q = (-a) / s;
            assert(s * q == q * s) by (nonlinear_arith);
            assert(o == -q);
            assert((o - 1) * s == -(q * s) - s) by (nonlinear_arith) requires o == -q;
            assert(q >= 0) by (nonlinear_arith) requires q * s > -a - s, -a > 0, s > 0;
        }
    } else {
        assert((0 - 1) * s == -s) by (nonlinear_arith);
    }
}
