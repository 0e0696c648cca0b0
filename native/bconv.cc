// The binary convolution operators (reference, ruy BGEMM, indirect BGEMM),
// through Init/Prepare/Eval, against the convolution definition.
// usage: bconv SEED ITERS MODE...
#include <algorithm>
#include <cmath>
#include "larq_compute_engine/tflite/kernels/bconv2d.cc"
#include "tfl.h"
namespace L = compute_engine::tflite;
typedef std::vector<std::int32_t> V;
enum { REF, BGEMM, INDIRECT };
static const char* kname[] = {"reference", "bgemm", "indirect"};
static const char* aname[] = {"none", "relu", "relu6", "relun1to1"};
struct Conf {
  int b, h, w, cin, groups, co, fh, fw, sh, sw, dh, dw; bool same; int pad; int act; TfLiteType ot; int kern; int sexp = 0, zp = 0;
  int cpg() const { return cin / groups; }                       // true channels per group
  int words() const { return (cin + 31) / 32; }
  int wpg() const { return words() / groups; }
  bool zero() const { return same && pad == 0; }
  void geom(int& oh, int& ow, int& ph, int& pw) const { g1(h, fh, sh, dh, oh, ph); g1(w, fw, sw, dw, ow, pw); }
  void g1(int in, int f, int s, int d, int& o, int& p) const { int e = (f - 1) * d + 1; if (same) { o = (in + s - 1) / s; int t = (o - 1) * s + e - in; p = t > 0 ? t / 2 : 0; } else { o = in < e ? 0 : (in - e) / s + 1; p = 0; } }
};
static void ctx(const Conf& c, const char* extra = "") {
  CTX("LceBconv2d[%s] in=%dx%dx%dx%d groups=%d filter=%dx%dx%d stride=%dx%d dilation=%dx%d %s pad_values=%d activation=%s out=%s scale=2^%d zp=%d%s", kname[c.kern], c.b, c.h, c.w, c.cin, c.groups, c.co, c.fh, c.fw, c.sh, c.sw, c.dh, c.dw,
      c.same ? "SAME" : "VALID", c.pad, aname[c.act], c.ot == kTfLiteFloat32 ? "float" : c.ot == kTfLiteInt8 ? "int8" : "bitpacked", c.sexp, c.zp, extra);
}
static int actcode(int a) { return a == 0 ? tflite::ActivationFunctionType_NONE : a == 1 ? tflite::ActivationFunctionType_RELU : a == 2 ? tflite::ActivationFunctionType_RELU6 : tflite::ActivationFunctionType_RELU_N1_TO_1; }
static TfLiteRegistration* reg(int k) { return k == REF ? L::Register_BCONV_2D_REF() : k == BGEMM ? L::Register_BCONV_2D_OPT_BGEMM() : L::Register_BCONV_2D_OPT_INDIRECT_BGEMM(); }
static std::map<std::string, std::int32_t> options(const Conf& c) {
  return {{"stride_height", c.sh}, {"stride_width", c.sw}, {"dilation_height_factor", c.dh}, {"dilation_width_factor", c.dw}, {"padding", c.same ? tflite::Padding_SAME : tflite::Padding_VALID}, {"pad_values", c.pad}, {"channels_in", c.cin}, {"fused_activation_function", actcode(c.act)}};
}
// words of `n` rows of `ch` channels, padding bits zero
static V bits(Rng& r, long rows, int ch) {
  int nw = (ch + 31) / 32; V v(rows * nw); int style = r.in(0, 5);
  for (long i = 0; i < rows; i++) for (int k = 0; k < nw; k++) {
    std::uint32_t m = ch - 32 * k >= 32 ? ~0u : (1u << (ch - 32 * k)) - 1;
    std::uint32_t x = style == 0 ? 0u : style == 1 ? ~0u : style == 2 ? (std::uint32_t)(r.u() & r.u()) : (std::uint32_t)r.u();
    v[i * nw + k] = (std::int32_t)(x & m);
  }
  return v;
}
struct Op {
  Conf c; Net n; int ti, tf, tm, tb, tt, to; V w; std::vector<float> mul, bias; V thr;
  Op(const Conf& c_, Rng& r) : c(c_) {
    ti = n.in(kTfLiteInt32, {c.b, c.h, c.w, c.words()}); tf = n.in(kTfLiteInt32, {c.co, c.fh, c.fw, c.wpg()});
    bool ft = c.ot != kTfLiteInt32;
    tm = n.in(ft ? kTfLiteFloat32 : kTfLiteNoType, {ft ? c.co : 0}); tb = n.in(ft ? kTfLiteFloat32 : kTfLiteNoType, {ft ? c.co : 0}); tt = n.in(ft ? kTfLiteNoType : kTfLiteInt32, {ft ? 0 : c.co});
    to = n.out(c.ot, {1, 1, 1, 1}); n.t[to].params.scale = std::ldexp(1.0f, c.sexp); n.t[to].params.zero_point = c.zp;
    n.t[to].quantization.type = c.ot == kTfLiteInt8 ? kTfLiteAffineQuantization : kTfLiteNoQuantization;
    for (int i : {tf, tm, tb, tt}) n.t[i].allocation_type = kTfLiteMmapRo;
    w = bits(r, (long)c.co * c.fh * c.fw, c.groups == 1 ? c.cin : c.cpg()); std::copy(w.begin(), w.end(), n.data<std::int32_t>(tf));
    int K = c.fh * c.fw * c.cpg();
    for (int i = 0; i < c.co; i++) {
      mul.push_back((float)(r.chance(8) ? 0 : r.in(-24, 24)) / 8); bias.push_back((float)r.in(-400, 400) / 8);
      thr.push_back(r.chance(9) ? (std::int32_t)r.pick<std::int64_t>({2147483647, -2147483648ll, -1, 0}) : r.coin() ? r.in(-1, K) : K / 2 + r.in(-3, 3));
      if (ft) { n.data<float>(tm)[i] = mul[i]; n.data<float>(tb)[i] = bias[i]; } else n.data<std::int32_t>(tt)[i] = thr[i];
    }
    n.init(reg(c.kern), options(c));
  }
};
static std::int64_t clampa(std::int64_t v, int act) { switch (act) { case 1: return std::max<std::int64_t>(v, 0); case 2: return std::min<std::int64_t>(6, std::max<std::int64_t>(v, 0)); case 3: return std::min<std::int64_t>(1, std::max<std::int64_t>(v, -1)); } return v; }
// one evaluation of the current shapes with fresh random input
static void evaluate(Op& o, Rng& r, const char* extra) {
  const Conf& c = o.c; ctx(c, extra);
  int oh, ow, ph, pw; c.geom(oh, ow, ph, pw);
  int nw = c.words(), wpg = c.wpg(), cpgout = c.co / c.groups;
  std::vector<int> od{c.b, oh, ow, c.ot == kTfLiteInt32 ? (c.co + 31) / 32 : c.co};
  if (o.n.dims(o.to) != od) FAIL("output shape %s, expected %s", str(o.n.dims(o.to)).c_str(), str(od).c_str());
  V x = bits(r, (long)c.b * c.h * c.w, c.cin); std::copy(x.begin(), x.end(), o.n.data<std::int32_t>(o.ti));
  ruy::g_trmul_seed = (unsigned)r.u();
  if (o.n.eval() != kTfLiteOk) FAIL("Eval failed: %s", o.n.err.c_str());
  if (memcmp(o.n.t[o.ti].data, x.data(), x.size() * 4) || memcmp(o.n.t[o.tf].data, o.w.data(), o.w.size() * 4)) FAIL("an input tensor was modified");
  g_cases++; if ((long)c.b * oh * ow) g_distinct++;
  for (int b = 0; b < c.b; b++) for (int y = 0; y < oh; y++) for (int xx = 0; xx < ow; xx++) {
    std::uint32_t word = 0;
    for (int k = 0; k < c.co; k++) {
      std::int64_t acc = 0, v = 0; int g = k / cpgout;
      for (int i = 0; i < c.fh; i++) for (int j = 0; j < c.fw; j++) {
        int iy = y * c.sh - ph + i * c.dh, ix = xx * c.sw - pw + j * c.dw; bool in = iy >= 0 && iy < c.h && ix >= 0 && ix < c.w;
        int pop = 0;
        for (int q = 0; q < wpg; q++) { std::uint32_t a = in ? (std::uint32_t)x[((long)(b * c.h + iy) * c.w + ix) * nw + g * wpg + q] : 0; pop += __builtin_popcount(a ^ (std::uint32_t)o.w[((long)(k * c.fh + i) * c.fw + j) * wpg + q]); }
        if (!in && c.zero()) { acc += c.cpg() / 2; continue; }
        acc += pop; v += c.cpg() - 2 * pop;
      }
      long at = ((long)(b * oh + y) * ow + xx);
      if (c.ot == kTfLiteInt32) {
        if (acc > o.thr[k]) word |= 1u << (k % 32);
        if (k % 32 == 31 || k + 1 == c.co) {
          std::uint32_t got = (std::uint32_t)o.n.data<std::int32_t>(o.to)[at * od[3] + k / 32];
          if (got != word) FAIL("output (%d,%d,%d) word %d is %08x, expected %08x", b, y, xx, k / 32, got, word);
          word = 0;
        }
        continue;
      }
      double e = (double)clampa(v, c.act) * o.mul[k] + o.bias[k];
      if (c.ot == kTfLiteFloat32) { float got = o.n.data<float>(o.to)[at * c.co + k]; if (!(got == (float)e)) FAIL("output (%d,%d,%d,%d) is %g, expected %g (sum %lld)", b, y, xx, k, got, e, (long long)v); }
      else {
        double s = e / std::ldexp(1.0, c.sexp) + c.zp; auto sat = [](double z) { return (int)std::min(127.0, std::max(-128.0, z)); };
        int got = o.n.data<std::int8_t>(o.to)[at * c.co + k], lo = sat(std::ceil(s - 0.5)), hi = sat(std::floor(s + 0.5));
        if (got != lo && got != hi) FAIL("output (%d,%d,%d,%d) is %d, expected %d (%g, sum %lld)", b, y, xx, k, got, hi, s, (long long)v);
      }
    }
  }
}
static Conf random(Rng& r, int kern, TfLiteType ot) {
  Conf c; c.kern = kern; c.ot = ot;
  c.groups = kern == BGEMM ? 1 : r.pick({1, 1, 1, 2, 3, 4}); int k = r.pick({1, 1, 2, 3});
  c.cin = c.groups == 1 ? r.pick({1, 2, 3, 31, 32, 33, 64, 65, 96, 130, r.in(1, 140)}) : 32 * k * c.groups;
  c.co = c.groups * r.pick({1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 32, 33, r.in(1, 70)}); if (c.co > 100) c.co = c.groups * r.in(1, 9);
  c.fh = r.pick({1, 2, 3, 3, 4, 5}); c.fw = r.pick({1, 2, 3, 3, 4, 5}); if (r.chance(4)) c.fh = c.fw = 1;
  c.sh = r.pick({1, 1, 2, 3}); c.sw = r.pick({1, 1, 2, 3}); c.dh = r.pick({1, 1, 1, 2, 3}); c.dw = r.pick({1, 1, 1, 2, 3});
  if (r.chance(3)) { c.sh = c.sw = c.dh = c.dw = 1; }
  c.same = r.coin(); c.pad = r.in(0, 1); c.act = r.in(0, 3);
  c.b = r.pick({1, 1, 2, 3}); int eh = (c.fh - 1) * c.dh + 1, ew = (c.fw - 1) * c.dw + 1;
  c.h = c.same ? r.in(1, 9) : r.in(eh, eh + 6); c.w = c.same ? r.in(1, 9) : r.in(ew, ew + 6);
  if (ot == kTfLiteInt8) { c.sexp = r.in(-4, 6); c.zp = r.in(-128, 127); }
  if (c.zero()) {          // what zero padding is supported for
    if (kern == REF) { c.cin += c.cin % 2; }
    else if (ot != kTfLiteFloat32) c.pad = 1;
    else c.act = 0;
  }
  return c;
}
static void reshape(Conf& c, Rng& r) {
  int eh = (c.fh - 1) * c.dh + 1, ew = (c.fw - 1) * c.dw + 1; bool big = !c.same;
  int what = r.in(0, 3);
  if (what != 1) c.b = r.in(1, 4); if (what != 0) { c.h = big ? r.in(eh, eh + 6) : r.in(1, 10); c.w = big ? r.in(ew, ew + 6) : r.in(1, 10); }
}
static void go(Rng& r, Conf c) {
  Op o(c, r); ctx(c); if (o.n.prepare() != kTfLiteOk) FAIL("Prepare rejected a consistent configuration: %s", o.n.err.c_str());
  evaluate(o, r, ""); if (r.chance(4)) evaluate(o, r, " (second evaluation)");
}
static void history(Rng& r, Conf c) {
  Op o(c, r); std::string h; int n = r.in(2, 4);
  for (int k = 0; k < n; k++) {
    ctx(o.c, (" history:" + h).c_str()); if (o.n.prepare() != kTfLiteOk) FAIL("Prepare rejected a consistent configuration: %s", o.n.err.c_str());
    h += " prepare"; if (r.chance(4)) { if (o.n.prepare() != kTfLiteOk) FAIL("second Prepare failed"); h += " prepare"; }
    int e = r.in(k + 1 == n ? 1 : 0, 2); for (int q = 0; q < e; q++) { h += " eval"; evaluate(o, r, (" history:" + h).c_str()); }
    if (k + 1 < n) { if (r.chance(5)) { h += " (same shape, buffers moved)"; } else reshape(o.c, r); o.n.resize_input(o.ti, {o.c.b, o.c.h, o.c.w, o.c.words()}); h += " resize(" + str({o.c.b, o.c.h, o.c.w, o.c.words()}) + ")"; }
  }
}
// one inconsistency introduced into an otherwise fine configuration
static void reject(Rng& r, Conf c) {
  Conf c0 = c; std::string why; bool initerr = false;
  auto opts = options(c); Op* o = nullptr; std::unique_ptr<Op> own;
  auto mk = [&](const Conf& cc) { own.reset(new Op(cc, r)); o = own.get(); };
  auto redim = [&](int t, std::vector<int> d) { auto* a = TfLiteIntArrayCreate((int)d.size()); for (size_t i = 0; i < d.size(); i++) a->data[i] = d[i]; Net::resize_cb(&o->n.c, &o->n.t[t], a); };
  auto retype = [&](int t, TfLiteType ty) { free(o->n.t[t].data); o->n.t[t].data = nullptr; o->n.t[t].type = ty; if (ty != kTfLiteNoType) Net::realloc_(o->n.t[t]); };
  auto reopt = [&](std::map<std::string, std::int32_t> op) { if (o->n.node.user_data) o->n.reg->free(&o->n.c, o->n.node.user_data); o->n.init(o->n.reg, op); };
  static const char* keys[] = {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor", "padding", "pad_values", "channels_in", "fused_activation_function"};
  mk(c); std::vector<int> id = o->n.dims(o->ti), fd = o->n.dims(o->tf);
  bool bitp = c.ot == kTfLiteInt32;
  switch (r.in(0, 25)) {
    case 0: why = "input of rank 3"; redim(o->ti, {id[0], id[1] * id[2], id[3]}); break;
    case 1: why = "filter of rank 3"; redim(o->tf, {fd[0], fd[1] * fd[2], fd[3]}); break;
    case 2: why = "input not int32"; retype(o->ti, r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool})); break;
    case 3: why = "filter not int32"; retype(o->tf, r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt64})); break;
    case 4: why = "unsupported output type"; retype(o->to, r.pick({kTfLiteBool, kTfLiteUInt8, kTfLiteInt64})); break;
    case 5: { int k = r.in(0, 7); why = std::string("missing option ") + keys[k]; opts.erase(keys[k]); reopt(opts); break; }
    case 6: why = "pad_values not 0 or 1"; opts["pad_values"] = r.pick({2, -1, 255}); reopt(opts); break;
    case 7: if (bitp) { why = "too few or too many thresholds"; redim(o->tt, {c.co + r.pick({-1, 1})}); } else { why = "multiplier size differs from the channel count"; redim(o->tm, {c.co + r.pick({-1, 1})}); } break;
    case 8: if (bitp) { why = "thresholds not int32"; retype(o->tt, r.pick({kTfLiteFloat32, kTfLiteInt64})); } else { why = "bias size differs from the channel count"; redim(o->tb, {c.co + r.pick({-1, 1})}); } break;
    case 9: if (bitp) { why = "thresholds of rank 2"; redim(o->tt, {1, c.co}); } else { why = "multiplier or bias of rank 2"; redim(r.coin() ? o->tm : o->tb, {c.co, 1}); } break;
    case 10: if (bitp) return; why = "multiplier or bias not float"; retype(r.coin() ? o->tm : o->tb, r.pick({kTfLiteInt32, kTfLiteInt8})); break;
    case 11: if (c.ot != kTfLiteInt8) return; why = "int8 output without affine quantization"; o->n.t[o->to].quantization.type = kTfLiteNoQuantization; break;
    case 12: if (c.kern != INDIRECT) return; why = "dynamically allocated input"; o->n.t[o->ti].allocation_type = kTfLiteDynamic; break;
    case 13: { // group count that does not divide
      int wd = c.words(); std::vector<int> bad; for (int k = 1; k < wd + 3; k++) if (wd % k) bad.push_back(k); if (bad.empty()) return; why = "filter depth does not divide the packed input channels"; redim(o->tf, {fd[0], fd[1], fd[2], bad[r.in(0, (int)bad.size() - 1)]}); break; }
    case 14: { if (c.kern == BGEMM) { c.groups = 2; c.cin = 64; c.co = 4; mk(c); why = "groups with the BGEMM kernel"; } else { c.groups = 2; c.cin = 128; c.co = 5; c.zero() ? c.pad = 1 : 0; mk(c); why = "output channels not divisible by the group count"; } break; }
    case 15: { if (c.kern == BGEMM) return; c.groups = 2; c.cin = 64; c.co = 4; if (c.zero()) c.pad = 1; mk(c); opts = options(c); opts["channels_in"] = r.in(33, 63); reopt(opts); why = "group size not a multiple of 32"; break; }
    case 16: { // unsupported zero padding
      c.same = true; c.pad = 0; if (c.kern == REF) { c.groups = 1; c.cin = 2 * r.in(0, 40) + 1; } else { if (c.ot == kTfLiteFloat32) c.act = r.in(1, 3); } mk(c); why = "unsupported zero padding"; break; }
    case 17: { why = "input depth differs from the packed channel count"; redim(o->ti, {id[0], id[1], id[2], id[3] + r.pick({1, 2, id[3] > 1 ? -1 : 3})}); break; }
    case 18: { why = "filter with no packed channels"; redim(o->tf, {fd[0], fd[1], fd[2], 0}); break; }
    case 19: { why = "four inputs"; o->n.node.inputs->size = 4; break; }
    case 21: { static const char* k[] = {"stride_height", "stride_width", "dilation_height_factor", "dilation_width_factor"}; int i = r.in(0, 3); why = std::string(k[i]) + " not positive"; opts[k[i]] = r.pick({0, 0, -1}); reopt(opts); break; }
    case 22: { why = "unknown padding"; opts["padding"] = r.pick({2, 3, -1}); reopt(opts); break; }
    case 23: { why = "no input channels"; redim(o->ti, {id[0], id[1], id[2], 0}); redim(o->tf, {fd[0], fd[1], fd[2], 0}); opts["channels_in"] = r.pick({0, 0, -7}); reopt(opts); break; }
    case 24: { bool v = r.coin(); why = v ? "filter height 0" : "filter width 0"; redim(o->tf, {fd[0], v ? 0 : fd[1], v ? fd[2] : 0, fd[3]}); break; }
    case 25: { why = "unsupported activation"; opts["fused_activation_function"] = r.pick({4, 5, 6, -1}); reopt(opts); break; }
    case 20: { why = "six inputs"; o->n.node.inputs->data[5] = o->tt; o->n.node.inputs->size = 6; break; }
  }
  ctx(c, ("; made inconsistent: " + why).c_str());
  // some inconsistencies only show in combination with another restriction; accepting any of them is an error
  if (o->n.prepare() == kTfLiteOk) FAIL("Prepare accepted it"); g_cases++; g_distinct++;
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 300;
  const TfLiteType ots[] = {kTfLiteFloat32, kTfLiteInt8, kTfLiteInt32};
  for (long i = 0; i < iters; i++) for (int a = 3; a < argc; a++) {
    std::string m = argv[a]; TfLiteType ot = ots[r.in(0, 2)]; int kern = r.in(0, 2);
    if (m == "ref") go(r, random(r, REF, ot));
    else if (m == "indirect") go(r, random(r, INDIRECT, ot));
    else if (m == "bgemm") go(r, random(r, BGEMM, ot));
    else if (m == "bits") go(r, random(r, kern, kTfLiteInt32));
    else if (m == "int8") go(r, random(r, kern, kTfLiteInt8));
    else if (m == "float") go(r, random(r, kern, kTfLiteFloat32));
    else if (m == "fold") { Conf c = random(r, kern, r.coin() ? kTfLiteInt8 : kTfLiteFloat32); if (r.coin()) { c.fh = r.in(1, 3); c.fw = r.in(1, 3); c.act = r.in(0, 3); if (c.zero() && c.kern != REF) c.pad = 1; if (!c.same) { c.h = (c.fh - 1) * c.dh + 1 + r.in(0, 2); c.w = (c.fw - 1) * c.dw + 1 + r.in(0, 2); } } go(r, c); }
    else if (m == "zeropad") { Conf c = random(r, r.pick({REF, BGEMM, INDIRECT, INDIRECT}), kTfLiteFloat32); c.same = true; c.pad = 0; if (c.kern == REF) c.cin += c.cin % 2; else c.act = 0;
      int eh = (c.fh - 1) * c.dh + 1, ew = (c.fw - 1) * c.dw + 1; if (c.kern != REF) { c.h = r.coin() ? r.in(1, 9) : eh + r.in(-1, 4); c.w = r.coin() ? r.in(1, 9) : ew + r.in(-1, 4); if (c.h < 1) c.h = 1; if (c.w < 1) c.w = 1; } go(r, c); }
    else if (m == "history") history(r, random(r, kern, ot));
    else if (m == "prepare") { if (r.chance(4)) go(r, random(r, kern, ot)); else reject(r, random(r, kern, ot)); }
    else { printf("unknown mode %s\n", m.c_str()); return 2; }
  }
  return finish();
}
