// The Python interpreter: the real wrapper (C++) and the real interpreter.py /
// interpreter_base.py over a stand-in interpreter, driven from an embedded Python.
#include "larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc"
#include <pybind11/embed.h>
#include <cstring>
#include "common.h"
namespace py = pybind11;
// the model the next interpreter is built with, and what has been done with it
struct Fake { TfLiteTensor t{}; std::vector<char> dims, data, sc, zp; TfLiteAffineQuantization aq{}; };
struct World {
  std::vector<int> in, out; std::map<int, Fake> ts; std::vector<std::vector<std::string>> runs; std::vector<std::vector<std::string>> results;
  int threads = 0, allocated = 0; bool delegates = false, failing = false, failbuild = false, failalloc = false; std::string model; std::map<std::string, std::string> custom; const tflite::FlatBufferModel* fb = nullptr;
} W;
template <class A, class V> static A* arr(std::vector<char>& mem, const std::vector<V>& v) { mem.assign(sizeof(A), 0); A* a = (A*)mem.data(); a->size = v.size(); for (std::size_t i = 0; i < v.size(); i++) a->data[i] = v[i]; return a; }
static std::string raw(const Fake& f) { return std::string(f.data.data(), f.t.bytes); }
namespace tflite {
Interpreter::Interpreter() {}
Interpreter::~Interpreter() {}
const std::vector<int>& Interpreter::inputs() const { return W.in; }
const std::vector<int>& Interpreter::outputs() const { return W.out; }
TfLiteTensor* Interpreter::tensor(int i) { if (!W.ts.count(i)) FAIL("tensor %d asked for, which the model does not have", i); return &W.ts[i].t; }
TfLiteStatus Interpreter::AllocateTensors() { W.allocated++; return W.failalloc ? kTfLiteError : kTfLiteOk; }
TfLiteStatus Interpreter::Invoke() {
  if (W.failing) return kTfLiteError;
  if (std::string(W.fb->data, W.fb->size) != W.model) FAIL("the model's buffer has changed");
  std::vector<std::string> got; for (int i : W.in) got.push_back(raw(W.ts[i]));
  W.runs.push_back(got); std::uint64_t h = W.runs.size();
  for (auto& g : got) for (unsigned char c : g) h = (h ^ c) * 0x100000001b3ull;
  std::vector<std::string> res;
  for (std::size_t k = 0; k < W.out.size(); k++) {
    Fake& f = W.ts[W.out[k]]; bool isin = false; for (int i : W.in) isin |= i == W.out[k];
    if (!isin) for (std::size_t j = 0; j < f.t.bytes; j++) { h = h * 6364136223846793005ull + 1442695040888963407ull + k; f.data[j] = f.t.type == kTfLiteBool ? (h >> 40) & 1 : (char)(h >> 40); }
  }
  for (int o : W.out) res.push_back(raw(W.ts[o]));
  W.results.push_back(res);
  return kTfLiteOk;
}
InterpreterBuilder::InterpreterBuilder(const FlatBufferModel& a, const ops::builtin::BuiltinOpResolver& b) : m(a), r(b) {}
TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* p, int threads) {
  if (W.failbuild) { p->reset(); return kTfLiteError; }
  W.threads = threads; W.fb = &m; W.model = std::string(m.data, m.size); W.delegates = r.delegates; W.custom.clear(); for (auto& c : r.custom) W.custom[c.first] = c.second->what;
  p->reset(new Interpreter); return kTfLiteOk;
}
}
namespace compute_engine { namespace tflite {
#define REG(f) TfLiteRegistration* f() { static TfLiteRegistration r{#f}; return &r; }
REG(Register_QUANTIZE) REG(Register_DEQUANTIZE) REG(Register_BCONV_2D) REG(Register_BCONV_2D_REF) REG(Register_BCONV_2D_OPT_INDIRECT_BGEMM) REG(Register_BMAXPOOL_2D)
} }
PYBIND11_EMBEDDED_MODULE(fake, m) {
  m.def("model", [](py::list tensors, std::vector<int> in, std::vector<int> out) {
    W = World(); W.in = in; W.out = out;
    for (auto x : tensors) {
      auto t = x.cast<py::tuple>(); Fake& f = W.ts[t[0].cast<int>()]; f.t.type = (TfLiteType)t[1].cast<int>(); f.t.name = "t";
      f.t.dims = arr<TfLiteIntArray>(f.dims, t[2].cast<std::vector<int>>()); f.t.bytes = t[3].cast<std::size_t>(); f.data.assign(f.t.bytes + (f.t.bytes == 0), 0); f.t.data.raw = f.data.data();
      f.t.params.scale = t[5].cast<float>(); f.t.params.zero_point = t[6].cast<int>();
      if (t[4].cast<bool>()) { f.t.quantization.type = kTfLiteAffineQuantization; f.t.quantization.params = &f.aq; f.aq.scale = t[7].is_none() ? nullptr : arr<TfLiteFloatArray>(f.sc, t[7].cast<std::vector<float>>()); f.aq.zero_point = t[8].is_none() ? nullptr : arr<TfLiteIntArray>(f.zp, t[8].cast<std::vector<int>>()); if (t[9].cast<bool>()) f.t.quantization.params = nullptr; }
    }
  });
  m.def("ctx", [](std::string s) { g_ctx = s.substr(0, 3000); });
  m.def("fail", [](std::string s) { FAIL("%s", s.c_str()); });
  m.def("count", [](bool nt) { g_cases++; g_distinct += nt; });
  m.def("failing", [](bool a) { W.failing = a; });
  m.def("failbuild", [](bool a) { W.failbuild = a; });
  m.def("failalloc", [](bool a) { W.failalloc = a; });
  m.def("config", []() { return py::make_tuple(W.threads, W.delegates, W.custom, W.allocated, py::bytes(W.model)); });
  m.def("runs", []() { py::list r; for (std::size_t i = 0; i < W.runs.size(); i++) { py::list a, b; for (auto& s : W.runs[i]) a.append(py::bytes(s)); for (auto& s : W.results[i]) b.append(py::bytes(s)); r.append(py::make_tuple(a, b)); } return r; });
}
static const char* TEST = R"PY(
import sys, os, random, types, warnings
warnings.simplefilter('ignore'); sys.dont_write_bytecode = True
sys.path.append('/opt/lce/venv/lib/python3.12/site-packages')
import numpy as np, fake
import interpreter_wrapper_lite as iwl
REPO = os.environ.get('LCV_REPO_DIR') or os.getcwd()
for n, p in [('larq_compute_engine', ''), ('larq_compute_engine.tflite', '/tflite'), ('larq_compute_engine.tflite.python', '/tflite/python')]:
    m = types.ModuleType(n); m.__path__ = [REPO + '/larq_compute_engine' + p]; sys.modules[n] = m
sys.modules['larq_compute_engine.tflite.python'].interpreter_wrapper_lite = iwl
sys.modules['larq_compute_engine.tflite.python.interpreter_wrapper_lite'] = iwl
from larq_compute_engine.tflite.python.interpreter import Interpreter
sys.stderr = open(os.devnull, 'w')
R = random.Random(SEED)
TY = {1: 'float32', 3: 'uint8', 9: 'int8', 7: 'int16', 2: 'int32', 4: 'int64', 6: 'bool'}
def fail(*a): fake.fail(' '.join(str(x) for x in a)[:1500])
class T: pass
def mk(batched):
    nin, nout = (R.choice([1, 1, 2, 3]), R.choice([1, 1, 2, 3])) if batched else (R.choice([0, 1, 1, 2, 3]), R.choice([0, 1, 1, 2, 3]))
    ids = R.sample(range(25), nin + nout); ins, outs = ids[:nin], ids[nin:]
    if nin and nout and R.random() < .2: outs[R.randrange(nout)] = R.choice(ins)
    ts = {}
    for i in ids:
        t = T(); t.id = i; t.ty = R.choice(list(TY)); rank = R.choice([1, 2, 3, 4, 5]) if batched else R.choice([0, 1, 2, 3, 4, 5])
        t.dims = [R.choice([1, 2, 2, 3, 4]) if R.random() > .04 else 0 for _ in range(rank)]
        if batched: t.dims[0] = 1
        n = int(np.prod(t.dims, dtype=np.int64)); t.n = n
        t.bytes = n * np.dtype(TY[t.ty]).itemsize
        t.q = R.random() < .5; nc = R.choice([1, 1, 2, 3]); t.scale = float(np.float32(R.uniform(.001, 3))); t.zp = R.randint(-128, 127)
        t.scales = [t.scale] if nc == 1 else [float(np.float32(R.uniform(.001, 3))) for _ in range(nc)]; t.zps = [t.zp] * nc; t.noparams = False; t.badq = t.bads = False
        if t.q and R.random() < .12:
            w = R.choice(['noscale', 'nozp', 'noparams', 'zp', 'scale'])
            if w == 'noscale': t.scales = None; t.bads = True
            elif w == 'nozp': t.zps = None; t.badq = True
            elif w == 'noparams': t.noparams = True; t.bads = t.badq = True
            elif w == 'zp': t.zps[R.randrange(nc)] += R.choice([1, -1]); t.badq = True
            elif nc == 1: t.scales = [t.scale * 1.5]; t.bads = True
        ts[i] = t
    fake.model([(t.id, t.ty, t.dims, t.bytes, t.q, t.scale, t.zp, t.scales, t.zps, t.noparams) for t in ts.values()], ins, outs)
    return ts, ins, outs
def describe(ts, ins, outs): return 'inputs [' + ', '.join(TY[ts[i].ty] + str(ts[i].dims) for i in ins) + '] outputs [' + ', '.join(('same as input %d ' % ins.index(i) if i in ins else '') + TY[ts[i].ty] + str(ts[i].dims) for i in outs) + ']'
def getters(w, ts, ins, outs):
    todo = [(k, s) for k in ('types', 'shapes', 'zero_points', 'scales') for s in ('input', 'output')]; R.shuffle(todo)
    for k, side in todo:
        l = [ts[i] for i in (ins if side == 'input' else outs)]; bad = (k == 'zero_points' and any(t.badq for t in l)) or (k == 'scales' and any(t.bads for t in l))
        try: got = getattr(w, side + '_' + k)
        except RuntimeError as e:
            if not bad: fail(side + '_' + k, 'raises', e)
            continue
        if bad: fail(side + '_' + k, 'is', got, 'for inconsistent quantization parameters')
        if k == 'types': want = [np.dtype(TY[t.ty]) for t in l]
        elif k == 'shapes': want = [tuple(t.dims) for t in l]
        elif k == 'zero_points': want = [t.zp if t.q else None for t in l]
        else: want = [None if not t.q else t.scale if len(t.scales) == 1 else t.scales for t in l]
        if type(got) is not list or got != want or [type(x) for x in got] != [type(x) for x in want]: fail(side + '_' + k, 'is', got, 'expected', want)
def rnd(t, shape):
    n = int(np.prod(shape, dtype=np.int64)); d = np.dtype(TY[t.ty]); b = R.randbytes(n * d.itemsize)
    if t.ty == 6: b = bytes(x & 1 for x in b)
    return np.frombuffer(b, d).reshape(shape).copy()
def dress(a):
    k = R.randrange(7)
    if k == 0 and a.ndim: return np.asfortranarray(a)
    if k == 1 and a.ndim:
        big = np.zeros([2 * s + 1 for s in a.shape], a.dtype); v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]; v[...] = a; return v
    if k == 2 and a.ndim: return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if k == 3: a.setflags(write=False); return a
    if k == 4 and a.ndim > 1: return np.ascontiguousarray(np.swapaxes(a, 0, -1)).swapaxes(0, -1)
    if k == 5 and a.ndim and a.size: return memoryview(a)
    return a
def check_result(r, outs, ts, res, what=''):
    if type(r) is not list or len(r) != len(outs): fail('prediction', what, 'returns', type(r), len(r), 'arrays')
    for k, (a, i) in enumerate(zip(r, outs)):
        if a.dtype != np.dtype(TY[ts[i].ty]) or a.shape != tuple(ts[i].dims): fail('output', k, what, 'is', a.dtype, a.shape, 'expected', TY[ts[i].ty], ts[i].dims)
        if a.tobytes() != res[k]: fail('output', k, what, 'holds other elements than the model computed')
def spoil(l, ts, ins):
    """-> (arguments the model must not take, why)"""
    l = list(l); k = R.randrange(len(l)) if l else -1; w = R.randrange(9)
    if k < 0 or w == 0: return (l + [np.zeros((1,), np.float32)], 'one input too many') if R.random() < .5 or not l else (l[:-1], 'one input too few')
    t = ts[ins[k]]; a = np.asarray(l[k]); good = np.dtype(TY[t.ty])
    if w == 1: o = np.dtype(R.choice([x for x in TY.values() if x != TY[t.ty]] + ['float64', 'uint16', 'uint32', 'uint64', 'float16', 'complex64'])); l[k] = np.zeros(a.shape, o); return l, 'input %d of type %s' % (k, o)
    if w == 2 and good.itemsize > 1: l[k] = np.zeros(a.shape, good.newbyteorder()); return l, 'input %d in the other byte order' % k
    if w == 3: l[k] = a.reshape((1,) + a.shape); return l, 'input %d with a dimension added' % k
    if w == 4 and a.ndim and a.shape[0] == 1: l[k] = a[0]; return l, 'input %d with a dimension removed' % k
    if w == 5 and len(set(a.shape)) > 1: p = list(a.shape); p.reverse() if p != p[::-1] else p.sort(reverse=p[0] != max(p)); l[k] = a.reshape(p); return (l, 'input %d with shape %s' % (k, p)) if tuple(p) != a.shape else (None, '')
    if w == 6 and a.ndim: s = list(a.shape); j = R.randrange(len(s)); s[j] += R.choice([1, 1, 2]) if s[j] < 2 or R.random() < .5 else -1; l[k] = np.zeros(s, good); return l, 'input %d with shape %s' % (k, s)
    if w == 7: l[k] = [[1, 2], [3]]; return l, 'input %d that is no array' % k
    if w == 8: o = {1: 'int32', 2: 'float32', 3: 'int8', 9: 'uint8', 6: 'uint8', 7: 'uint16', 4: 'uint64'}[t.ty]; l[k] = np.zeros(a.shape, o); return l, 'input %d of type %s' % (k, o)
    return None, ''
for case in range(N):
    batched = R.random() < .5; ts, ins, outs = mk(batched)
    D = describe(ts, ins, outs); fake.ctx(D)
    th, ref, ind, xnn = R.randint(1, 8), R.random() < .5, R.random() < .5, R.random() < .5; buf = R.randbytes(R.choice([0, 7, 16, 40]))
    if buf[:3] == b'bad': buf = b''
    if R.random() < .05:
        why = R.choice(['model', 'build', 'alloc'])
        if why == 'model': buf = b'bad' + buf
        elif why == 'build': fake.failbuild(True)
        else: fake.failalloc(True)
        fake.ctx(D + ' constructor, failing: ' + why)
        try: Interpreter(buf)
        except RuntimeError: fake.count(True); continue
        fail('an interpreter is made although', why, 'failed')
    fake.ctx(D + ' constructor')
    kw = dict(num_threads=th, use_reference_bconv=ref, use_indirect_bgemm=ind, use_xnnpack=xnn)
    for k, dflt in [('num_threads', 1), ('use_reference_bconv', False), ('use_indirect_bgemm', False), ('use_xnnpack', False)]:
        if R.random() < .15: del kw[k]; th, ref, ind, xnn = [dflt if k == n else v for n, v in zip(('num_threads', 'use_reference_bconv', 'use_indirect_bgemm', 'use_xnnpack'), (th, ref, ind, xnn))]
    b2 = bytearray(buf); w = Interpreter(bytes(b2), **kw); del b2
    gth, gdel, cust, alloc, model = fake.config()
    if model != buf: fail('the interpreter is built from another model')
    if gth != th: fail('threads', gth, 'asked for', th)
    if gdel != xnn: fail('default delegates', gdel, 'use_xnnpack', xnn)
    if alloc < 1: fail('tensors not allocated')
    want = {'LceQuantize': 'Register_QUANTIZE', 'LceDequantize': 'Register_DEQUANTIZE', 'LceBMaxPool2d': 'Register_BMAXPOOL_2D', 'LceBconv2d': 'Register_BCONV_2D_REF' if ref else 'Register_BCONV_2D_OPT_INDIRECT_BGEMM' if ind else 'Register_BCONV_2D'}
    if cust != want: fail('custom operators', cust, 'for use_reference_bconv', ref, 'use_indirect_bgemm', ind)
    lib = w.interpreter; kept = []; nruns = 0
    if R.random() < .7: fake.ctx(D + ' attributes'); getters(w, ts, ins, outs)
    for step in range(R.randint(1, 4)):
        l = [rnd(ts[i], ts[i].dims) for i in ins]
        if R.random() < .35:
            bad, why = spoil(l, ts, ins)
            if bad is None: continue
            fake.ctx(D + ' predict %d (after %d predictions) with %s' % (step, nruns, why))
            try: lib.predict(bad)
            except RuntimeError:
                if len(fake.runs()) != nruns: fail('the model was run')
                continue
            fail('accepted')
        if R.random() < .08:
            fake.failing(True); fake.ctx(D + ' predict %d, running fails' % step)
            try: lib.predict(l); ok = True
            except RuntimeError: ok = False
            if ok: fail('a failed run is taken for a prediction')
            fake.failing(False); continue
        if not batched or R.random() < .4:
            fake.ctx(D + ' predict %d' % step); given = [dress(a.copy()) for a in l]; r = lib.predict(given); nruns += 1
            rs = fake.runs()
            if len(rs) != nruns: fail('the model was run', len(rs) - nruns + 1, 'times')
            for k in range(len(ins)):
                if rs[-1][0][k] != l[k].tobytes(): fail('input', k, 'reaches the model with other elements')
            check_result(r, outs, ts, rs[-1][1]); kept.append((r, rs[-1][1])); fake.count(bool(ins and outs))
        else:
            nb = R.randint(1, 4); xs = [rnd(ts[i], [nb] + ts[i].dims[1:]) for i in ins]; form = R.randrange(4) if len(ins) == 1 else R.choice([1, 3])
            fake.ctx(D + ' predict %d with %d samples given as %s' % (step, nb, ['an array', 'a list of arrays', 'an iterator of arrays', 'an iterator of lists'][form]))
            x = [dress(a.copy()) for a in xs]; x = [np.asarray(a) for a in x]
            arg = x[0] if form == 0 else x if form == 1 else (np.asarray(s) for s in x[0]) if form == 2 else (R.choice([list, tuple])(np.asarray(t) for t in s) for s in zip(*x))
            r = w.predict(arg, R.randint(0, 1)); rs = fake.runs()[nruns:]; nruns += nb
            if len(rs) != nb: fail('the model was run', len(rs), 'times')
            for b in range(nb):
                for k in range(len(ins)):
                    if rs[b][0][k] != xs[k][b].tobytes(): fail('sample', b, 'of input', k, 'reaches the model with other elements')
            if len(outs) == 1:
                if not isinstance(r, np.ndarray): fail('one output returned as', type(r))
                r = [r]
            elif type(r) is not list or len(r) != len(outs): fail('outputs returned as', type(r))
            for k, i in enumerate(outs):
                if r[k].dtype != np.dtype(TY[ts[i].ty]) or r[k].shape != (nb,) + tuple(ts[i].dims[1:]): fail('output', k, 'is', r[k].dtype, r[k].shape)
                for b in range(nb):
                    if r[k][b].tobytes() != rs[b][1][k]: fail('sample', b, 'of output', k, 'is not what the model computed')
            fake.count(nb > 1 or len(ins) > 1)
        for r, res in kept: check_result(r, outs, ts, res, '(kept from an earlier prediction)')
    if R.random() < .4: fake.ctx(D + ' attributes after %d predictions' % nruns); getters(w, ts, ins, outs)
    if batched and len(ins) > 1 and R.random() < .3:
        nb = [R.randint(1, 3) for _ in ins]; nb[R.randrange(len(ins))] = R.choice([0, 4, 5]); fake.ctx(D + ' predict with %s samples for the inputs' % nb)
        try: w.predict([rnd(ts[i], [n] + ts[i].dims[1:]) for i, n in zip(ins, nb)])
        except Exception: pass
        else: fail('accepted')
    if R.random() < .1:
        fake.ctx(D + ' predict on something that holds no samples')
        try: w.predict(R.choice([3, 'x', None, {'a': 1}]))
        except Exception: pass
        else: fail('accepted')
)PY";
int main(int c, char** v) {
  long seed = c > 1 ? atol(v[1]) : 1, n = c > 2 ? atol(v[2]) : 2000;
  PyImport_AppendInittab("interpreter_wrapper_lite", PyInit_interpreter_wrapper_lite);
  py::initialize_interpreter(false);
  try {
    py::dict g; g["__builtins__"] = py::module_::import("builtins"); g["__name__"] = "test"; g["N"] = n; g["SEED"] = seed;
    py::exec(TEST, g);
  } catch (py::error_already_set& e) { FAIL("%s", e.what()); }
  finish(); fflush(stdout); std::_Exit(0);
}
