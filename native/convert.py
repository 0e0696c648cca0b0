# The Python conversion calls: the real converter.py on random models and requests, with TensorFlow, Keras and the
# conversion itself replaced by stand-ins that record what they are asked.   usage: convert.py SEED ITERATIONS
import sys, os, random, importlib.util, types, traceback, warnings
REPO = os.environ.get('LCV_REPO_DIR') or os.getcwd()
seed, iters = int(sys.argv[1]), int(sys.argv[2])
R = random.Random(seed); cases = nontrivial = 0; ctx = ''
def fail(*a): print('FAIL', ctx, '::', *a); sys.stdout.flush(); os._exit(1)
def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path); m = importlib.util.module_from_spec(spec); sys.modules[name] = m; spec.loader.exec_module(m); return m
def module(name, **kw):
    m = types.ModuleType(name); m.__path__ = []; m.__dict__.update(kw); sys.modules[name] = m
    p, _, c = name.rpartition('.')
    if p in sys.modules: setattr(sys.modules[p], c, m)
    return m
NS = types.SimpleNamespace
class DType:
    def __init__(self, name, e): self.name = name; self.as_datatype_enum = e
    def __repr__(self): return 'tf.' + self.name
NAMES = {n: DType(n, i + 1) for i, n in enumerate('float32 float64 int32 uint8 int16 int8 string complex64 int64 bool float16 resource'.split())}
class Soft(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Soft(self.__name__ + '.' + n)
tf = Soft('tensorflow'); tf.__path__ = []; sys.modules['tensorflow'] = tf
tf.__dict__.update(NAMES, DType=DType, dtypes=NS(**NAMES), executing_eagerly=lambda: W.eager, saved_model=NS(SERVING='serve', DEFAULT_SERVING_SIGNATURE_DEF_KEY='serving_default'))
class KModel: pass
tf.__dict__['keras'] = NS(Model=KModel, models=NS(Model=KModel))
class TFunction: pass
W = NS(log=[], eager=True)       # what is asked of the outside
class Boom(Exception): pass
def saved_conv(*a):
    d = a[0]; W.log.append(('saved', a, isinstance(d, str) and os.path.exists(os.path.join(d, 'model')) and open(os.path.join(d, 'model')).read()))
    if W.fail == 'convert': raise W.exc('conversion')
    return b'saved buffer'
def graph_conv(*a):
    W.log.append(('graph', a))
    if W.fail2 == 'convert': raise Boom('graph conversion')
    return b'graph buffer'
def modify(model, inference_input_type=NAMES['float32'], inference_output_type=NAMES['float32']):
    W.log.append(('io', model, inference_input_type, inference_output_type))
    if model == b'saved buffer' and W.fail == 'io' or model == b'graph buffer' and W.fail2 == 'io': raise ValueError('io')
    return b'io of ' + model
for p in ('larq_compute_engine', 'larq_compute_engine.mlir', 'larq_compute_engine.mlir.python'): module(p)
module('larq_compute_engine.mlir._tf_tfl_flatbuffer', convert_saved_model_to_tflite_flatbuffer=saved_conv, convert_graphdef_to_tflite_flatbuffer=graph_conv)
module('larq_compute_engine.mlir.python.util', modify_integer_quantized_model_io_type=modify)
for n in ('tensorflow.core', 'tensorflow.core.framework', 'tensorflow.lite', 'tensorflow.lite.python', 'tensorflow.python', 'tensorflow.python.eager', 'tensorflow.python.framework', 'tensorflow.python.keras', 'tensorflow.python.keras.saving', 'tensorflow.python.saved_model'): module(n)
module('tensorflow.core.framework.types_pb2', DataType=NS(Name=lambda e: 'DT_%d' % e))
module('tensorflow.lite.python.util', get_tensor_name=lambda t: 'name of ' + t.name)
module('tensorflow.python.eager.def_function', Function=TFunction)
class Func:
    def __init__(s, m, sig): s.m = m; s.sig = sig
    def get_concrete_function(s): return ('concrete', s.m, s.sig)
def freeze(f, lower_control_flow=True):
    if f != ('concrete', W.model, None if isinstance(W.model.call, TFunction) else ('signature', W.model, True)): fail('the function frozen is not that of the model:', f[2])
    if lower_control_flow: fail('control flow is lowered')
    return W.frozen
module('tensorflow.python.framework.convert_to_constants', convert_variables_to_constants_v2=freeze)
module('tensorflow.python.keras.saving.saving_utils', model_input_signature=lambda m, keep_original_batch_size=False: ('signature', m, keep_original_batch_size), trace_model_call=lambda m, s=None: Func(m, s))
def parse(d):
    W.log.append(('parse', d))
    if W.fail == 'parse': raise W.exc('parse')
    return NS(saved_model_schema_version=W.version), None
module('tensorflow.python.saved_model.loader_impl', parse_saved_model_with_debug_info=parse)
class Shape:
    def __init__(s, d): s.d = list(d)
    def as_list(s): return list(s.d)
    def __len__(s): return len(s.d)
    def __iter__(s): return iter(s.d)
    def __getitem__(s, i): return Shape(s.d[i]) if isinstance(i, slice) else s.d[i]
    rank = ndims = property(lambda s: len(s.d)); dims = property(lambda s: list(s.d))
class Tensor:
    def __init__(s, n, t, d): s.name = n; s.dtype = t; s.shape = Shape(d)
    def get_shape(s): return s.shape
    def set_shape(s, d):
        d = list(d)
        if len(d) != len(s.shape.d) or any(x is not None and x != y for x, y in zip(s.shape.d, d)): raise ValueError('shapes %s and %s are not compatible' % (s.shape.d, d))
        s.shape = Shape(d)
QOPS = ['FakeQuantWithMinMaxVars', 'FakeQuantWithMinMaxVarsPerChannel', 'FakeQuantWithMinMaxArgs', 'FakeQuantWithMinMaxArgsPerChannel', 'QuantizeAndDequantizeV2', 'QuantizeAndDequantizeV3']
OPS = ['Conv2D', 'QuantizeV2', 'FakeQuantWithMinMax', 'Placeholder', 'QuantizeAndDequantize', 'QuantizeAndDequantizeV4', 'Dequantize', 'fakequantwithminmaxvars']
def nodes(p, n): return [NS(op=R.choice(QOPS) if R.random() < p else R.choice(OPS), name='n%d' % i) for i in range(R.randint(0, n))]
def tensors(what, n):
    l = []
    for i in range(n):
        d = [R.randint(1, 9) for _ in range(R.choice([0, 1, 2, 4, 4]))]
        if d and R.random() < 0.4: d[0] = None
        if len(d) > 1 and R.random() < 0.06: d[R.randrange(1, len(d))] = None
        l.append(Tensor('%s%s%d' % (R.choice('abxyz'), what, i), NAMES[R.choice(['float32', 'float32', 'int8', 'resource', 'bool'] if what == 'in' else ['float32', 'int8'])], d))
    return l
warnings.simplefilter('ignore')
class Path:
    def __init__(s, p): s.p = p
    def __fspath__(s): return s.p
    def __str__(s): return s.p
def model(cls):
    class Model(cls):
        def save(s, d, save_format=None):
            W.log.append(('save', d, save_format))
            if W.fail == 'save': raise W.exc('save')
            if not os.path.isdir(d): fail('the model is saved to a directory that is not there:', d)
            if os.listdir(d): fail('the directory it is saved to is not empty')
            open(os.path.join(d, 'model'), 'w').write('model %d' % W.number); W.dir = d
    m = Model(); m.call = TFunction() if R.random() < 0.3 else (lambda x: x)
    if R.random() < 0.7: m.dtype_policy = NS(name='float32' if R.random() < 0.9 else R.choice(['mixed_float16', 'float64', 'float16']))
    return m
def attempt(what, f):
    global ctx, cases
    ctx = what; cases += 1; W.log = []
    try: return f(), None
    except Exception as e: return None, e
def named(l, k): return [x for x in l if x[0] == k]
try:
    C = load('larq_compute_engine.mlir.python.converter', os.path.join(REPO, 'larq_compute_engine/mlir/python/converter.py'))
    for it in range(iters):
        F32 = NAMES['float32']
        pick = lambda: NAMES[R.choice(['float32', 'int8'])] if R.random() < 0.95 else NAMES[R.choice(['uint8', 'int16', 'float16', 'int32'])]
        ti, to, tgt = pick(), pick(), R.choice(['arm', 'xcore']) if R.random() < 0.95 else R.choice(['x86', '', 'Arm', None])
        rng = R.choice([None, None, (0.0, 6.0), (-3.0, 3.0), (-1, 1), (0, 0)]); W.eager = R.random() < 0.98; W.version = R.choice([1, 1, 1, 2, 2, 0, 3, 10]) if R.random() < 0.5 else 1; W.number = it
        W.fail = R.choice([None, None, None, 'convert', 'io', 'save', 'parse']); W.fail2 = None if R.random() < 0.9 else R.choice(['convert', 'io']); W.exc = R.choice([Boom, ValueError, RuntimeError, KeyError, NotImplementedError])
        bad = ti.name not in ('float32', 'int8') or to.name not in ('float32', 'int8') or tgt not in ('arm', 'xcore') or not W.eager
        io = ti is not F32 or to is not F32
        req = 'inputs %s outputs %s target %r range %s eager %s' % (ti, to, tgt, rng, W.eager)
        kw = dict(inference_input_type=ti, inference_output_type=to, target=tgt, experimental_default_int8_range=rng)
        for k, d in (('inference_input_type', F32), ('inference_output_type', F32), ('target', 'arm'), ('experimental_default_int8_range', None)):
            if kw[k] is d and R.random() < 0.3: del kw[k]
        def buf(b): return b'io of ' + b if io else b
        def refused(e, why):
            if e is None: fail('not refused although', why)
            if named(W.log, 'saved') or named(W.log, 'graph') or named(W.log, 'io') or named(W.log, 'save'): fail('converts although', why)
            if not isinstance(e, (ValueError, RuntimeError)) : fail('refused with %s: %s' % (type(e).__name__, e))
        def io_calls(b):
            w = [('io', b, ti, to)] if io else []
            if named(W.log, 'io') and any(x not in w for x in named(W.log, 'io')) or len(named(W.log, 'io')) != len(w): fail('changes the input and output types: %s, not %s' % (named(W.log, 'io'), w))
        def saved_args(a, d):
            w = (d, ['serve'], ['serving_default'], W.version, tgt, rng)
            if tuple(list(x) if isinstance(x, (list, tuple)) and i in (1, 2) else x for i, x in enumerate(a)) != w: fail('converts the saved model with %s, not %s' % (a, w))
            if not isinstance(a[0], str): fail('the directory is passed on as', a[0])
        # a saved model
        d = R.choice(['/some/where', Path('/else/where')]); noio = W.fail == 'io' and io
        r, e = attempt('convert_saved_model version %d %s (%s fails)' % (W.version, req, W.fail), lambda: C.convert_saved_model(d, **kw))
        if bad: refused(e, 'the request is not supported')
        elif W.fail == 'parse': refused(e or None, 'the model cannot be read') if type(e) is not W.exc else None
        elif W.version not in (1, 2): refused(e, 'saved-model version %d is not supported' % W.version)
        else:
            s = named(W.log, 'saved')
            if len(s) != 1 or named(W.log, 'graph'): fail('runs %d conversions' % (len(s) + len(named(W.log, 'graph'))), e)
            saved_args(s[0][1], str(d))
            if W.fail == 'convert':
                if type(e) is not W.exc: fail('the conversion failed with %s and the call with %r' % (W.exc.__name__, e))
            elif noio:
                io_calls(b'saved buffer')
                if e is None: fail('a failure to change the types is not reported')
            else:
                if e is not None: fail('raises %s: %s' % (type(e).__name__, e))
                io_calls(b'saved buffer'); nontrivial += 1
                if r != buf(b'saved buffer'): fail('gives', r)
        # a Keras model
        W.version = R.choice([1, 2]) if R.random() < 0.9 else 7; W.model = m = model(KModel if R.random() < 0.95 else object); W.dir = None
        ins = tensors('in', R.randint(0, 4)); outs = tensors('out', R.randint(0, 3)); p = R.choice([0, 0, 0.15])
        funs = [NS(node_def=nodes(R.choice([p, 0]), 4)) for _ in range(R.choice([0, 0, 1, 3]))]; nd = nodes(R.choice([p, 0]), 6); data = b'graph %d' % it
        g = NS(node=nd, library=NS(function=funs), SerializeToString=lambda: data); W.frozen = NS(inputs=ins, outputs=outs, graph=NS(as_graph_def=lambda: g))
        quant = any(x.op in QOPS for x in nd) or any(x.op in QOPS for f in funs for x in f.node_def) or rng is not None
        K = [t for t in ins if t.dtype.name != 'resource']; openin = any(None in t.shape.d[1:] for t in K)
        want = (data, ['name of ' + t.name for t in K], ['DT_%d' % t.dtype.as_datatype_enum for t in K], [[1 if i == 0 and x is None else x for i, x in enumerate(t.shape.d)] for t in K], ['name of ' + t.name for t in outs], quant, tgt, rng)
        badm = not isinstance(m, KModel) or hasattr(m, 'dtype_policy') and m.dtype_policy.name != 'float32'
        r, e = attempt('convert_keras_model %s (%s fails, then %s) graph %s functions %s inputs %s' % (req, W.fail, W.fail2, [x.op for x in nd], [[x.op for x in f.node_def] for f in funs], [(t.name, t.dtype.name, t.shape.d) for t in ins]), lambda: C.convert_keras_model(m, **kw))
        if W.dir and os.path.exists(W.dir): fail('the directory the model was saved to is still there')
        if bad or badm: refused(e, 'the %s is not supported' % ('request' if bad else 'model')); continue
        s, c = named(W.log, 'saved'), named(W.log, 'graph'); ok = W.fail is None or W.fail == 'io' and not io
        if W.version not in (1, 2): ok = False
        sv = named(W.log, 'save')
        if len(sv) != 1: fail('saves the model %d times' % len(sv))
        if sv[0][2] != 'tf': fail('saves the model in format', sv[0][2])
        if W.fail not in ('save', 'parse') and W.version in (1, 2):
            if len(s) != 1: fail('converts the saved model %d times' % len(s))
            saved_args(s[0][1], W.dir)
            if s[0][2] != 'model %d' % it: fail('the model is not in the directory that is converted')
        elif s: fail('converts a model that could not be saved or read')
        if ok:
            if e is not None: fail('raises %s: %s' % (type(e).__name__, e))
            if c: fail('converts the graph although the saved model was converted')
            io_calls(b'saved buffer'); nontrivial += 1
            if r != buf(b'saved buffer'): fail('gives', r)
            continue
        if openin:
            if e is None: fail('not refused although a dimension of an input is not known')
            if c: fail('converts although a dimension of an input is not known')
            if not isinstance(e, ValueError): fail('refused with %s: %s' % (type(e).__name__, e))
            continue
        if len(c) != 1: fail('converts the graph %d times' % len(c), e)
        got = tuple([list(y) if isinstance(y, (list, tuple)) else y for y in x] if i in (1, 2, 3, 4) else x for i, x in enumerate(c[0][1]))
        if len(got) != 8: fail('passes %d arguments' % len(got))
        for w, x, y in zip(('graph', 'input names', 'input types', 'input shapes', 'output names', 'quantization', 'target', 'default range'), got, want):
            if x != y or (w == 'quantization' and not isinstance(x, bool)): fail('converts the graph with %s %s, not %s' % (w, x, y))
        nontrivial += 1; wio = io and quant; later = [x for x in named(W.log, 'io') if x[1] == b'graph buffer']
        if W.fail2 == 'convert':
            if type(e) is not Boom or later: fail('a failure of the graph conversion is not reported:', e)
            continue
        if later != ([('io', b'graph buffer', ti, to)] if wio else []): fail('changes the input and output types: %s' % later)
        if W.fail2 == 'io' and wio:
            if e is None: fail('a failure to change the types is not reported')
            continue
        if e is not None: fail('raises %s: %s' % (type(e).__name__, e))
        if r != (b'io of graph buffer' if wio else b'graph buffer'): fail('gives', r)
except SystemExit: raise
except BaseException: fail('unexpected', traceback.format_exc()[-1500:])
print('OK cases=%d nontrivial=%d' % (cases, nontrivial))
