// The quantize and dequantize operators, through Prepare/Eval.
#include <algorithm>
#include <cmath>
#include "larq_compute_engine/tflite/kernels/quantization.cc"
#include "tfl.h"
namespace L = compute_engine::tflite;
static const char* tn(TfLiteType t) { return t == kTfLiteFloat32 ? "float" : t == kTfLiteInt8 ? "int8" : t == kTfLiteBool ? "bool" : "other"; }
static std::vector<int> shape(Rng& r) { std::vector<int> d; int nd = r.in(1, 5); for (int i = 0; i + 1 < nd; i++) d.push_back(r.in(r.chance(15) ? 0 : 1, 3)); d.push_back(r.chance(3) ? r.pick({1, 31, 32, 33, 63, 64, 65, 96, 128, 160}) : r.in(0, 140)); return d; }
static std::vector<int> packed(std::vector<int> d) { d.back() = cdiv32(d.back()); return d; }
static void quantize(Rng& r) {
  TfLiteType ty = r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool}); auto d = shape(r);
  Net n; int in = n.in(ty, d), out = n.out(kTfLiteInt32, std::vector<int>(d.size(), 1)); int zp = n.t[in].params.zero_point = ty == kTfLiteInt8 ? r.in(-128, 127) : r.in(-5, 5);
  n.init(L::Register_QUANTIZE(), {});
  int times = r.in(1, 2);
  for (int k = 0; k < times; k++) {
    CTX("LceQuantize %s input %s zero point %d%s", tn(ty), str(d).c_str(), zp, k ? " (after resize)" : "");
    if (n.prepare() != kTfLiteOk) FAIL("Prepare failed: %s", n.err.c_str());
    if (n.dims(out) != packed(d)) FAIL("output shape %s", str(n.dims(out)).c_str());
    long c = Net::count(n.t[in]); std::vector<bool> neg(c);
    for (long i = 0; i < c; i++) {
      if (ty == kTfLiteFloat32) { float f = rfloat(r); n.data<float>(in)[i] = f; neg[i] = f < 0; }
      else if (ty == kTfLiteInt8) { int v = r.coin() ? std::clamp(zp + r.in(-2, 2), -128, 127) : r.in(-128, 127); n.data<std::int8_t>(in)[i] = v; neg[i] = v < zp; }
      else { bool b = r.coin(); n.data<bool>(in)[i] = b; neg[i] = !b; }
    }
    if (n.eval() != kTfLiteOk) FAIL("Eval failed");
    g_cases++; if (c) g_distinct++;
    int cols = d.back(), w = cdiv32(cols); long rows = cols ? c / cols : 0;
    for (long y = 0; y < rows; y++) for (int k2 = 0; k2 < 32 * w; k2++) { bool want = k2 < cols && neg[y * cols + k2]; if (bitof(n.data<std::int32_t>(out)[y * w + k2 / 32], k2 % 32) != want) FAIL("row %ld bit %d is %d", y, k2, !want); }
    auto e = shape(r); if (e.size() != d.size()) { if (e.size() < d.size()) e.insert(e.begin(), d.size() - e.size(), 2); else e.erase(e.begin(), e.begin() + (e.size() - d.size())); } d = e; n.resize_input(in, d);
  }
}
static void dequantize(Rng& r) {
  TfLiteType ty = r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool}); auto d = shape(r);
  Net n; int in = n.in(kTfLiteInt32, packed(d)), out = n.out(ty, d); int zp = r.in(-128, 127); float sc = r.pick({1.0f, 0.5f, 0.25f, 1.0f / 3, 0.01f, 0.0078125f, 0.001f, 2.0f, 3.0f, 0.4f, 0.0001f, 1e-6f});
  n.t[out].params.scale = sc; n.t[out].params.zero_point = zp; n.init(L::Register_DEQUANTIZE(), {});
  CTX("LceDequantize %s output %s scale %g zero point %d", tn(ty), str(d).c_str(), sc, zp);
  if (n.prepare() != kTfLiteOk) FAIL("Prepare failed: %s", n.err.c_str());
  long wn = Net::count(n.t[in]); for (long i = 0; i < wn; i++) n.data<std::int32_t>(in)[i] = (std::int32_t)r.u();
  if (n.eval() != kTfLiteOk) FAIL("Eval failed");
  g_cases++; if (wn) g_distinct++;
  double q = std::floor((double)(1.0f / sc) + 0.5); int plus = (int)std::min(127.0, zp + q), minus = (int)std::max(-128.0, zp - q);
  int cols = d.back(), w = cdiv32(cols); long c = Net::count(n.t[out]);
  for (long i = 0; i < c; i++) {
    bool one = bitof(n.data<std::int32_t>(in)[i / cols * w + i % cols / 32], i % cols % 32);
    double got = ty == kTfLiteFloat32 ? n.data<float>(out)[i] : ty == kTfLiteInt8 ? n.data<std::int8_t>(out)[i] : n.data<unsigned char>(out)[i];
    double want = ty == kTfLiteFloat32 ? (one ? -1 : 1) : ty == kTfLiteInt8 ? (one ? minus : plus) : (one ? 0 : 1);
    if (got != want) FAIL("element %ld is %g, expected %g", i, got, want);
  }
}
static void reject(Rng& r) {
  bool q = r.coin(); TfLiteType ty = r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteBool}); auto d = shape(r); std::string why;
  auto id = q ? d : packed(d), od = q ? packed(d) : d; TfLiteType it = q ? ty : kTfLiteInt32, ot = q ? kTfLiteInt32 : ty; int nin = 1, nout = 1;
  switch (r.in(0, 6)) {
    case 0: why = "unsupported input type"; it = q ? r.pick({kTfLiteUInt8, kTfLiteInt32, kTfLiteInt64}) : r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt64}); break;
    case 1: why = "unsupported output type"; ot = q ? r.pick({kTfLiteFloat32, kTfLiteInt8, kTfLiteInt64}) : r.pick({kTfLiteUInt8, kTfLiteInt32, kTfLiteInt64}); break;
    case 2: why = "ranks differ"; if (r.coin() || od.size() == 1) od.insert(od.begin(), 1); else od.erase(od.begin()); break;
    case 3: why = "scalar"; id.clear(); od.clear(); break;
    case 4: if (q || d.size() < 2) return; why = "a leading dimension differs"; if (d.size() >= 3 && id[0] != id[1] && r.coin()) std::swap(id[0], id[1]); else id[r.in(0, (int)d.size() - 2)] += 1; break;
    case 5: if (q) return; why = "the packed last dimension does not match"; id.back() += r.pick({1, 2, 31}); break;
    case 6: if (r.coin()) { why = "two inputs"; nin = 2; } else { why = "two outputs"; nout = 2; } break;
  }
  Net n; for (int i = 0; i < nin; i++) n.in(it, id); for (int i = 0; i < nout; i++) n.out(ot, od);
  n.init(q ? L::Register_QUANTIZE() : L::Register_DEQUANTIZE(), {});
  CTX("%s %s %s -> %s with %s", q ? "LceQuantize" : "LceDequantize", tn(ty), str(id).c_str(), str(od).c_str(), why.c_str());
  if (n.prepare() == kTfLiteOk) FAIL("Prepare accepted it"); g_cases++; g_distinct++;
}
int main(int argc, char** argv) {
  Rng r(argc > 1 ? atoll(argv[1]) : 1); long iters = argc > 2 ? atol(argv[2]) : 3000;
  for (long i = 0; i < iters; i++) { quantize(r); dequantize(r); reject(r); }
  return finish();
}
