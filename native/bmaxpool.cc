// Binary max pooling, through the operator (Init/Prepare/Eval) and directly.
#include <algorithm>
#include "larq_compute_engine/tflite/kernels/bmaxpool.cc"
#include "tfl.h"
using compute_engine::core::BMaxPoolParams;
typedef std::vector<std::int32_t> V;
struct G { int b, h, w, c, fh, fw, sh, sw; bool same; };
static void geometry(int in, int f, int s, bool same, int& out, int& pad) {
  if (same) { out = (in + s - 1) / s; int tot = (out - 1) * s + f - in; pad = tot > 0 ? tot / 2 : 0; }
  else { out = (in - f) / s + 1; pad = 0; if (in < f) out = 0; }
}
static void check(const G& g, const std::int32_t* in, const std::int32_t* out, int oh, int ow, int ph, int pw) {
  for (int b = 0; b < g.b; b++) for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int c = 0; c < g.c; c++) {
    std::uint32_t anyplus = 0;    // bit k set when some in-image tap has bit k == 0
    for (int i = 0; i < g.fh; i++) for (int j = 0; j < g.fw; j++) {
      int yy = y * g.sh - ph + i, xx = x * g.sw - pw + j;
      if (yy < 0 || yy >= g.h || xx < 0 || xx >= g.w) continue;
      anyplus |= ~(std::uint32_t)in[((b * g.h + yy) * g.w + xx) * g.c + c];
    }
    std::uint32_t got = (std::uint32_t)out[((b * oh + y) * ow + x) * g.c + c];
    if (got != ~anyplus) FAIL("output (%d,%d,%d,%d) is %08x, windowed maximum is %08x", b, y, x, c, got, ~anyplus);
  }
}
static std::int32_t word(Rng& r) { return r.coin() ? (std::int32_t)r.u() : (std::int32_t)(r.u() | r.u() | r.u()); }
static void op(Rng& r, const G& g0, bool again) {
  G g = g0;
  std::map<std::string, std::int32_t> o{{"filter_height", g.fh}, {"filter_width", g.fw}, {"stride_height", g.sh}, {"stride_width", g.sw}, {"padding", g.same ? tflite::Padding_SAME : tflite::Padding_VALID}};
  Net n; int in = n.in(kTfLiteInt32, {g.b, g.h, g.w, g.c}), out = n.out(kTfLiteInt32, {1, 1, 1, 1});
  n.init(compute_engine::tflite::Register_BMAXPOOL_2D(), o);
  for (int k = 0; k < (again ? 2 : 1); k++) {
    CTX("LceBMaxPool2d in=%dx%dx%dx%d filter=%dx%d stride=%dx%d %s%s", g.b, g.h, g.w, g.c, g.fh, g.fw, g.sh, g.sw, g.same ? "SAME" : "VALID", k ? " (after resize)" : "");
    int oh, ow, ph, pw; geometry(g.h, g.fh, g.sh, g.same, oh, ph); geometry(g.w, g.fw, g.sw, g.same, ow, pw);
    if (n.prepare() != kTfLiteOk) FAIL("Prepare failed: %s", n.err.c_str());
    if (n.dims(out) != std::vector<int>{g.b, oh, ow, g.c}) FAIL("output shape %s, expected %dx%dx%dx%d", str(n.dims(out)).c_str(), g.b, oh, ow, g.c);
    for (long i = 0; i < Net::count(n.t[in]); i++) n.data<std::int32_t>(in)[i] = word(r);
    if (n.eval() != kTfLiteOk) FAIL("Eval failed");
    check(g, n.data<std::int32_t>(in), n.data<std::int32_t>(out), oh, ow, ph, pw);
    g_cases++; if (Net::count(n.t[out])) g_distinct++;
    if (again) { g.b = r.in(1, 3); g.h = r.in(g.same ? 1 : g.fh, 12); g.w = r.in(g.same ? 1 : g.fw, 12); if (g.h < g.fh && !g.same) g.h = g.fh; if (!g.same && g.w < g.fw) g.w = g.fw; g.c = r.in(1, 3); n.resize_input(in, {g.b, g.h, g.w, g.c}); }
  }
}
static void reject(Rng& r) {
  int k = r.in(0, 7);
  std::map<std::string, std::int32_t> o{{"filter_height", k == 0 ? 0 : 2}, {"filter_width", k == 1 ? 0 : 2}, {"stride_height", k == 2 ? 0 : 1}, {"stride_width", k == 3 ? 0 : 1}, {"padding", tflite::Padding_SAME}};
  Net n; n.in(k == 4 ? kTfLiteFloat32 : kTfLiteInt32, k == 5 ? std::vector<int>{2, 4, 4} : std::vector<int>{1, 4, 4, 1});
  n.out(k == 6 ? kTfLiteFloat32 : kTfLiteInt32, {1, 4, 4, 1}); if (k == 7) n.in(kTfLiteInt32, {1});
  n.init(compute_engine::tflite::Register_BMAXPOOL_2D(), o);
  static const char* what[] = {"filter_height 0", "filter_width 0", "stride_height 0", "stride_width 0", "float input", "rank-3 input", "float output", "two inputs"};
  CTX("LceBMaxPool2d with %s", what[k]);
  if (n.prepare() == kTfLiteOk) FAIL("Prepare accepted it"); g_cases++;
}
static void core(Rng& r) {
  G g{r.in(0, 3), r.in(1, 9), r.in(1, 9), r.in(1, 4), r.in(1, 5), r.in(1, 5), r.in(1, 4), r.in(1, 4), true};
  int ph = r.in(0, g.fh - 1), pw = r.in(0, g.fw - 1);
  // every window has to meet the image: (o-1)*s - pad < size
  int oh = r.in(0, (g.h + ph - 1) / g.sh + 1), ow = r.in(0, (g.w + pw - 1) / g.sw + 1);
  CTX("BMaxPool in=%dx%dx%dx%d out=%dx%d filter=%dx%d stride=%dx%d pad=%d,%d", g.b, g.h, g.w, g.c, oh, ow, g.fh, g.fw, g.sh, g.sw, ph, pw);
  V in((size_t)g.b * g.h * g.w * g.c), out((size_t)g.b * oh * ow * g.c); for (auto& x : in) x = word(r);
  BMaxPoolParams p; p.filter_height = g.fh; p.filter_width = g.fw; p.stride_height = g.sh; p.stride_width = g.sw; p.padding.height = ph; p.padding.width = pw;
  tflite::RuntimeShape is({g.b, g.h, g.w, g.c}), os({g.b, oh, ow, g.c});
  compute_engine::core::BMaxPool(p, is, in.data(), os, out.data());
  check(g, in.data(), out.data(), oh, ow, ph, pw); g_cases++; if (!out.empty()) g_distinct++;
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  for (long i = 0; i < iters; i++) {
    G g; g.same = r.coin(); g.b = r.chance(20) ? 0 : r.in(1, 3); g.fh = r.in(1, 6); g.fw = r.in(1, 6); g.sh = r.in(1, 7); g.sw = r.in(1, 7);
    g.h = r.in(g.same ? 1 : g.fh, 12); g.w = r.in(g.same ? 1 : g.fw, 12); g.c = r.in(1, 4);
    op(r, g, r.chance(3)); core(r); if (i % 8 == 0) reject(r);
  }
  return finish();
}
