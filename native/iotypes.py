# Rewriting of a converted model's inputs and outputs: the real util.py and converter.py on random
# models, through real FlatBuffers objects, against a definition that works on names of tensors and
# operators instead of indices.   usage: iotypes.py SEED ITERATIONS
import sys, os, random, importlib.util, types, traceback, glob
REPO = os.environ.get('LCV_REPO_DIR') or os.getcwd()
seed, iters = int(sys.argv[1]), int(sys.argv[2])
R = random.Random(seed); cases = nontrivial = 0; ctx = ''
def fail(*a): print('FAIL', ctx, '::', *a); sys.stdout.flush(); os._exit(1)
def load(name, path):
    spec = importlib.util.spec_from_file_location(name, path); m = importlib.util.module_from_spec(spec); sys.modules[name] = m; spec.loader.exec_module(m); return m
def module(name, **kw):
    m = types.ModuleType(name); m.__path__ = []; m.__dict__.update(kw); sys.modules[name] = m; return m
class DType:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'tf.' + self.name
NAMES = 'float32 float16 int32 uint8 int64 string bool int16 complex64 int8 float64 complex128'.split()
TF = {n: DType(n) for n in NAMES}
class Soft(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Soft(self.__name__ + '.' + n)
tf = Soft('tensorflow'); tf.__dict__.update(TF, DType=DType, executing_eagerly=lambda: True); tf.__path__ = []; sys.modules['tensorflow'] = tf
class KModel: pass
tf.__dict__['keras'] = types.SimpleNamespace(Model=KModel)
tf.__dict__['saved_model'] = types.SimpleNamespace(SERVING='serve', DEFAULT_SERVING_SIGNATURE_DEF_KEY='serving_default')
schema = load('schema_py', glob.glob('/opt/lce/venv/lib/python3*/site-packages/tensorflow/lite/python/schema_py_generated.py')[0])
for p in ('larq_compute_engine', 'larq_compute_engine.mlir', 'larq_compute_engine.mlir.python'): module(p)
sys.modules['larq_compute_engine.mlir.python'].tflite_schema = schema; sys.modules['larq_compute_engine.mlir.python.tflite_schema'] = schema
util = load('larq_compute_engine.mlir.python.util', os.path.join(REPO, 'larq_compute_engine/mlir/python/util.py'))
sys.modules['larq_compute_engine.mlir.python'].util = util
import flatbuffers
B, T = schema.BuiltinOperator, schema.TensorType
F32, I8, I32 = T.FLOAT32, T.INT8, T.INT32

class G: pass          # a subgraph by names
def names(l): return None if l is None else list(l)
# ---- a random model, by names ------------------------------------------------------------------
def gen():
    M = G(); M.codes = []
    pool = [(B.QUANTIZE, None), (B.DEQUANTIZE, None), (B.CUSTOM, b'LceDequantize'), (B.CUSTOM, b'LceQuantize'), (B.ADD, None), (B.CONV_2D, None), (B.CUSTOM, b'LceBconv2d')]
    for c in pool:
        if c[0] in (B.QUANTIZE, B.DEQUANTIZE) or c[1] == b'LceDequantize': n = R.choice([0, 1, 1, 1, 1, 2, 3])
        else: n = R.choice([0, 1, 1, 2])
        M.codes += [c + (v + 1,) for v in range(n)]
    if not any(c[0] == B.ADD for c in M.codes): M.codes.append((B.ADD, None, 1))
    R.shuffle(M.codes)
    M.subs = [gensub(M, i) for i in range(R.choice([1, 1, 1, 2, 3]))]
    M.sigs = None if R.random() < 0.3 else []
    if M.sigs is not None:
        for k in range(R.choice([0, 1, 1, 2, 3])):
            si = R.randrange(len(M.subs)); s = M.subs[si]; g = G(); g.sub = si; g.key = 'sig%d' % k
            i = [x for x in s.ins if R.random() < 0.9]; o = [x for x in s.outs if R.random() < 0.9]; R.shuffle(i); R.shuffle(o)
            g.ins = [('i%d' % j, x) for j, x in enumerate(i)]; g.outs = [('o%d' % j, x) for j, x in enumerate(o)]; M.sigs.append(g)
    M.buffers = R.randint(1, 5)
    return M
OPID = [0]
def gensub(M, si):
    s = G(); s.t = {}; s.ops = []; s.ins = []; s.outs = []
    def tensor(ty, p='t'):
        n = '%s%d_%d' % (p, si, len(s.t)); s.t[n] = dict(type=ty, shape=[R.randint(1, 5) for _ in range(R.randint(0, 3))], buffer=R.randrange(1)); return n
    def code(b, c=None):
        l = [i for i, x in enumerate(M.codes) if x[0] == b and x[1] == c]; return R.choice(l) if l else None
    def op(k, i, o, mid=None):
        OPID[0] += 1; x = G(); x.id = OPID[0]; x.code = k; x.ins = i; x.outs = o; x.mid = mid; s.ops.append(x); return x
    inner = []
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        kind = R.random(); f = None
        if kind < 0.7 and code(B.QUANTIZE) is not None:
            f = tensor(F32 if R.random() < 0.95 else T.INT16, 'in'); q = tensor(I8 if R.random() < 0.95 else T.UINT8, 'q'); op(code(B.QUANTIZE), [f], [q]); inner.append(q)
            if R.random() < 0.06: q2 = tensor(I8, 'q'); op(code(B.QUANTIZE), [f], [q2]); inner.append(q2)
            if R.random() < 0.06: inner.append(f)
            if R.random() < 0.03: s.outs.append(f)
        else: f = tensor(R.choice([F32, I8, I32]), 'in'); inner.append(f)
        s.ins.append(f)
    if si == 0 and R.random() < 0.05 and s.ins: s.ins.append(s.ins[0])
    for _ in range(R.randint(0, 5)):
        k = R.choice([i for i, c in enumerate(M.codes) if c[0] in (B.ADD, B.CONV_2D) or c[1] in (b'LceQuantize', b'LceBconv2d')])
        i = [R.choice(inner) if R.random() < 0.85 or not inner else (None if R.random() < 0.5 else tensor(R.choice([F32, I32, I8]), 'w')) for _ in range(R.randint(0 if R.random() < 0.1 else 1, 3))]
        o = [tensor(R.choice([F32, I8, I32]), 'a') for _ in range(R.randint(1, 2))]
        op(k, i, o, None if R.random() < 0.8 else [tensor(F32, 'm') for _ in range(R.randint(0, 3))]); inner += o
    # quantize and dequantize operators inside the graph
    if R.random() < 0.3 and code(B.QUANTIZE) is not None and inner: x = tensor(I8); op(code(B.QUANTIZE), [R.choice([y for y in inner if y not in s.ins] or [tensor(F32, 'w')])], [x]); inner.append(x)
    if R.random() < 0.3 and code(B.DEQUANTIZE) is not None and inner: x = tensor(F32); op(code(B.DEQUANTIZE), [R.choice(inner)], [x]); inner.append(x)
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        kind = R.random(); src = [x for x in inner if s.t[x]['type'] == I8]; b32 = [x for x in inner if s.t[x]['type'] == I32]; o = None
        if kind < 0.45 and code(B.DEQUANTIZE) is not None and src:
            o = tensor(F32 if R.random() < 0.95 else T.FLOAT16, 'out'); q = R.choice(src)
            if R.random() < 0.03: q = tensor(T.UINT8, 'w')
            if R.random() < 0.25 and b32 and code(B.CUSTOM, b'LceDequantize') is not None: q = tensor(I8, 'l'); op(code(B.CUSTOM, b'LceDequantize'), [R.choice(b32)], [q])
            op(code(B.DEQUANTIZE), [q], [o])
        elif kind < 0.75 and code(B.CUSTOM, b'LceDequantize') is not None and b32: o = tensor(R.choice([F32, I8]) if R.random() < 0.95 else I32, 'out'); op(code(B.CUSTOM, b'LceDequantize'), [R.choice(b32) if R.random() < 0.97 else tensor(F32, 'w')], [o])
        elif inner: o = R.choice(inner)
        if o is None: o = tensor(F32, 'out'); op(next(i for i, c in enumerate(M.codes) if c[0] == B.ADD), [], [o])
        s.outs.append(o)
        if R.random() < 0.06: s.outs.append(o)
        if R.random() < 0.06: op(next(i for i, c in enumerate(M.codes) if c[0] == B.ADD), [o], [tensor(F32)])
    R.shuffle(s.outs) if R.random() < 0.3 else None
    for _ in range(R.choice([0, 0, 2])): tensor(F32, 'w')
    s.order = list(s.t)
    if R.random() < 0.35:        # the converter puts the outer tensors at either end
        outer = [x for x in s.order if x.startswith('in') or x.startswith('out')]; s.order = [x for x in s.order if x not in outer] + outer
    elif R.random() < 0.7: R.shuffle(s.order)
    if R.random() < 0.4: R.shuffle(s.ops)
    return s
# ---- names -> bytes -> names -------------------------------------------------------------------
def build(M):
    m = schema.ModelT(); m.version = 3; m.description = b'd'; m.operatorCodes = []; m.buffers = []; m.subgraphs = []
    for b, c, v in M.codes:
        o = schema.OperatorCodeT(); o.builtinCode = b; o.deprecatedBuiltinCode = min(b, 127); o.customCode = c; o.version = v; m.operatorCodes.append(o)
    for k in range(M.buffers): x = schema.BufferT(); x.data = [k, k + 1] if k else []; m.buffers.append(x)
    for s in M.subs:
        g = schema.SubGraphT(); ix = {n: i for i, n in enumerate(s.order)}; ix[None] = -1; g.tensors = []; g.operators = []; g.name = b'g'
        for n in s.order:
            t = schema.TensorT(); t.name = n.encode(); t.type = s.t[n]['type']; t.shape = s.t[n]['shape']; t.buffer = hash(n) % M.buffers if False else len(n) % M.buffers; s.t[n]['buffer'] = t.buffer; g.tensors.append(t)
        g.inputs = [ix[x] for x in s.ins]; g.outputs = [ix[x] for x in s.outs]
        for o in s.ops:
            p = schema.OperatorT(); p.opcodeIndex = o.code; p.inputs = [ix[x] for x in o.ins]; p.outputs = [ix[x] for x in o.outs]; p.intermediates = None if o.mid is None else [ix[x] for x in o.mid]; p.customOptions = list(o.id.to_bytes(4, 'little')); g.operators.append(p)
        m.subgraphs.append(g)
    if M.sigs is not None:
        m.signatureDefs = []
        for s in M.sigs:
            d = schema.SignatureDefT(); d.signatureKey = s.key.encode(); d.subgraphIndex = s.sub; d.inputs = []; d.outputs = []; ix = {n: i for i, n in enumerate(M.subs[s.sub].order)}
            for l, src in ((d.inputs, s.ins), (d.outputs, s.outs)):
                for nm, x in src: t = schema.TensorMapT(); t.name = nm.encode(); t.tensorIndex = ix[x]; l.append(t)
            m.signatureDefs.append(d)
    b = flatbuffers.Builder(1024); b.Finish(m.Pack(b), file_identifier=b'TFL3'); return bytes(b.Output())
def show(M):
    out = ['codes ' + ' '.join('%d%s' % (c[0], ':' + c[1].decode() if c[1] else '') for c in M.codes)]
    for s in M.subs: out.append('graph %s -> %s tensors %s ops %s' % (s.ins, s.outs, ['%s:%d' % (n, s.t[n]['type']) for n in s.order], ['%d(code %d): %s -> %s%s' % (o.id, o.code, o.ins, o.outs, '' if o.mid is None else ' mid %s' % o.mid) for o in s.ops]))
    for g in M.sigs or []: out.append('signature of graph %d %s -> %s' % (g.sub, g.ins, g.outs))
    return '; '.join(out)
def compare(data, E, src):
    if data[4:8] != b'TFL3': fail('the result has no TFLite file identifier')
    m = schema.ModelT.InitFromObj(schema.Model.GetRootAsModel(data, 0))
    if [(c.builtinCode, c.customCode, c.version) for c in m.operatorCodes] != E.codes: fail('operator codes differ')
    if m.version != 3 or m.description != b'd': fail('version or description changed')
    if len(m.buffers) != E.buffers or any(list(b.data if b.data is not None else []) != ([k, k + 1] if k else []) for k, b in enumerate(m.buffers)): fail('buffers differ')
    if len(m.subgraphs) != len(E.subs): fail('number of subgraphs')
    for si, (g, s) in enumerate(zip(m.subgraphs, E.subs)):
        got = [t.name.decode() for t in g.tensors]
        if got != s.order: fail('graph %d has tensors %s, not %s' % (si, got, s.order))
        for t, n in zip(g.tensors, s.order):
            if (t.type, list(t.shape) if t.shape is not None else [], t.buffer) != (s.t[n]['type'], s.t[n]['shape'], s.t[n]['buffer']): fail('tensor %s has changed' % n)
        def nm(l, what):
            if l is None: return None
            r = []
            for x in l:
                if not -1 <= x < len(got): fail('graph %d: %s refers to tensor %d of %d' % (si, what, x, len(got)))
                r.append(None if x < 0 else got[x])
            return r
        if nm(g.inputs, 'inputs') != s.ins: fail('graph %d has inputs %s, not %s' % (si, nm(g.inputs, 'inputs'), s.ins))
        if nm(g.outputs, 'outputs') != s.outs: fail('graph %d has outputs %s, not %s' % (si, nm(g.outputs, 'outputs'), s.outs))
        ids = [int.from_bytes(bytes(list(o.customOptions)), 'little') for o in g.operators]
        if ids != [o.id for o in s.ops]: fail('graph %d has operators %s, not %s' % (si, ids, [o.id for o in s.ops]))
        for o, e in zip(g.operators, s.ops):
            w = 'operator %d' % e.id
            if o.opcodeIndex != e.code: fail(w, 'has operator code', o.opcodeIndex)
            z = (nm(o.inputs, w) or [], nm(o.outputs, w) or [], nm(o.intermediates, w) or [])
            if z != (e.ins, e.outs, e.mid or []): fail(w, 'has tensors', z, 'not', (e.ins, e.outs, e.mid))
    sg = m.signatureDefs or []
    if [(d.signatureKey.decode(), d.subgraphIndex) for d in sg] != [(s.key, s.sub) for s in E.sigs or []]: fail('signatures differ')
    for d, s in zip(sg, E.sigs or []):
        o = E.subs[s.sub].order
        for w, l, e in (('inputs', d.inputs, s.ins), ('outputs', d.outputs, s.outs)):
            z = [(t.name.decode(), o[t.tensorIndex] if 0 <= t.tensorIndex < len(o) else t.tensorIndex) for t in l]
            if z != e: fail('signature %s has %s %s, not %s' % (s.key, w, z, e))
# ---- the definition ----------------------------------------------------------------------------
class Refused(Exception): pass
def copym(M):
    import copy; return copy.deepcopy(M)
def is_op(M, o, b, c=None): return (M.codes[o.code][1] == c) if c else M.codes[o.code][0] == b
def retarget(M, si, inmap, outmap, drop):
    s = M.subs[si]; s.ops = [o for o in s.ops if o not in drop]; gone = set(inmap) | set(outmap)
    s.ins = [inmap.get(x, x) for x in s.ins]; s.outs = [outmap.get(x, x) for x in s.outs]
    for g in M.sigs or []:
        if g.sub == si: g.ins = [(n, inmap.get(x, x)) for n, x in g.ins]; g.outs = [(n, outmap.get(x, x)) for n, x in g.outs]
    used = set(s.ins) | set(s.outs)
    for o in s.ops: used |= set(o.ins) | set(o.outs) | set(o.mid or [])
    if used & gone: raise Refused('a removed tensor is still used')
    s.order = [x for x in s.order if x not in gone]
def io_types(M, ti, to):
    E = copym(M); s = E.subs[0]
    if not any(c[0] in (B.QUANTIZE, B.DEQUANTIZE) for c in E.codes): raise Refused('not quantized')
    qs = [o for o in s.ops if is_op(E, o, B.QUANTIZE) and o.ins[0] in s.ins]
    ds = [o for o in s.ops if is_op(E, o, B.DEQUANTIZE) and o.outs[0] in s.outs]
    for l, f, q in [(qs, lambda o: o.ins[0], lambda o: o.outs[0]), (ds, lambda o: o.outs[0], lambda o: o.ins[0])]:
        for o in l:
            if s.t[f(o)]['type'] != F32 or s.t[q(o)]['type'] != I8: raise Refused('types')
    im = {}; om = {}; drop = []
    if ti is TF['int8']:
        for o in qs:
            if o.ins[0] in im: raise Refused('quantized twice')
            im[o.ins[0]] = o.outs[0]; drop.append(o)
    if to is TF['int8']:
        for o in ds: om[o.outs[0]] = o.ins[0]; drop.append(o)
    retarget(E, 0, im, om, drop); return E, bool(drop)
def strip(M):
    E = copym(M); ch = False
    if not E.subs: return E, False
    if not any(c[0] == B.DEQUANTIZE or c[1] == b'LceDequantize' for c in E.codes): raise Refused('nothing to strip')
    for si, s in enumerate(E.subs):
        for lce in (False, True):
            ds = [o for o in s.ops if is_op(E, o, B.DEQUANTIZE, b'LceDequantize' if lce else None) and o.outs[0] in s.outs]
            for o in ds:
                a, b = s.t[o.outs[0]]['type'], s.t[o.ins[0]]['type']
                if lce and (a not in (F32, I8) or b != I32) or not lce and (a != F32 or b != I8): raise Refused('types')
            ch |= bool(ds); retarget(E, si, {}, {o.outs[0]: o.ins[0] for o in ds}, ds)
    return E, ch
def attempt(f, want, what):
    global ctx, cases, nontrivial
    ctx = what; cases += 1
    try: E, ch = want()
    except Refused as e: E = None; why = e; ch = True
    nontrivial += ch
    try: got = f()
    except (ValueError, IndexError, TypeError, KeyError) as e:
        if E is not None: fail('raises %s: %s' % (type(e).__name__, e))
        if not isinstance(e, ValueError): fail('refused with %s: %s instead of a ValueError (%s)' % (type(e).__name__, e, why))
        return
    if E is None: fail('not refused although %s' % why)
    compare(got, E, None)
def converter():
    """converter.py with the conversion itself replaced by a stand-in"""
    fx = module('larq_compute_engine.mlir._tf_tfl_flatbuffer')
    for n in ('tensorflow.core', 'tensorflow.core.framework', 'tensorflow.lite', 'tensorflow.lite.python', 'tensorflow.python', 'tensorflow.python.eager', 'tensorflow.python.framework', 'tensorflow.python.keras', 'tensorflow.python.keras.saving', 'tensorflow.python.saved_model'): module(n)
    module('tensorflow.core.framework.types_pb2', DataType=types.SimpleNamespace(Name=lambda e: 'DT'))
    module('tensorflow.lite.python.util', get_tensor_name=lambda t: t.name)
    df = module('tensorflow.python.eager.def_function', Function=type('Function', (), {})); sys.modules['tensorflow.python.eager'].def_function = df
    C = types.SimpleNamespace(frozen=None)
    module('tensorflow.python.framework.convert_to_constants', convert_variables_to_constants_v2=lambda f, lower_control_flow: C.frozen)
    su = module('tensorflow.python.keras.saving.saving_utils', model_input_signature=lambda *a, **k: None, trace_model_call=lambda *a: types.SimpleNamespace(get_concrete_function=lambda: None)); sys.modules['tensorflow.python.keras.saving'].saving_utils = su
    li = module('tensorflow.python.saved_model.loader_impl', parse_saved_model_with_debug_info=lambda d: (types.SimpleNamespace(saved_model_schema_version=1), None)); sys.modules['tensorflow.python.saved_model'].loader_impl = li
    tf.__dict__['dtypes'] = types.SimpleNamespace(resource='resource')
    C.made = 0; C.buf = b''; C.sm_fails = False; C.args = None
    def sm(*a):
        C.made += 1; C.args = a
        if C.sm_fails: raise RuntimeError('no')
        return C.buf
    def gd(*a): C.made += 1; C.args = a; return C.buf
    fx.convert_saved_model_to_tflite_flatbuffer = sm; fx.convert_graphdef_to_tflite_flatbuffer = gd
    import warnings; warnings.simplefilter('ignore')
    C.mod = load('larq_compute_engine.mlir.python.converter', os.path.join(REPO, 'larq_compute_engine/mlir/python/converter.py'))
    return C
try:
    C = converter()
    for it in range(iters):
        M = gen(); data = build(M); keep = bytes(data); text = show(M)
        for ti in ('float32', 'int8'):
            for to in ('float32', 'int8'):
                attempt(lambda: util.modify_integer_quantized_model_io_type(data, inference_input_type=TF[ti], inference_output_type=TF[to]), lambda: io_types(M, TF[ti], TF[to]), 'inputs %s outputs %s of %s' % (ti, to, text))
        attempt(lambda: util.strip_lcedequantize_ops(data), lambda: strip(M), 'strip LceDequantize from %s' % text)
        if data != keep: fail('the model passed in has changed')
        if it % 8 == 0:      # the conversion calls
            ti, to = R.choice(['float32', 'int8', 'uint8', 'int16']), R.choice(['float32', 'int8', 'uint8', 'int16']); tgt = R.choice(['arm', 'xcore', 'arm', 'xcore', 'x86']); C.buf = data; C.made = 0; C.sm_fails = False
            bad = ti not in ('float32', 'int8') or to not in ('float32', 'int8') or tgt not in ('arm', 'xcore')
            def want():
                if bad: raise Refused('the request is not supported')
                if ti == to == 'float32': return M, False
                return io_types(M, TF[ti], TF[to])
            attempt(lambda: C.mod.convert_saved_model('d', inference_input_type=TF[ti], inference_output_type=TF[to], target=tgt), want, 'convert_saved_model inputs %s outputs %s target %s of %s' % (ti, to, tgt, text))
            if bad and C.made: fail('converts although the request is not supported')
            if not bad and (C.made != 1 or C.args[4] != tgt): fail('converted %d times, target %s' % (C.made, C.args and C.args[4]))
            C.made = 0
            class Saved(KModel):
                call = None
                def save(self, d, save_format=None): open(os.path.join(d, 'x'), 'w').close()
            C.sm_fails = R.random() < 0.5; quant = R.random() < 0.7
            op = types.SimpleNamespace(op='FakeQuantWithMinMaxVars' if quant else 'Conv2D')
            gdef = types.SimpleNamespace(node=[op], library=types.SimpleNamespace(function=[]), SerializeToString=lambda: b'g')
            mk = lambda n: types.SimpleNamespace(name=n, dtype=types.SimpleNamespace(as_datatype_enum=1), shape=types.SimpleNamespace(as_list=lambda: [1, 2]))
            C.frozen = types.SimpleNamespace(inputs=[mk('a')], outputs=[mk('b')], graph=types.SimpleNamespace(as_graph_def=lambda: gdef))
            def want2():
                if bad: raise Refused('the request is not supported')
                if ti == to == 'float32' or (C.sm_fails and not quant): return M, False
                return io_types(M, TF[ti], TF[to])
            # a request the saved-model path refuses is tried again by the graph path
            if not bad and not C.sm_fails and not quant and (ti, to) != ('float32', 'float32'):
                try: io_types(M, TF[ti], TF[to])
                except Refused: continue
            attempt(lambda: C.mod.convert_keras_model(Saved(), inference_input_type=TF[ti], inference_output_type=TF[to], target=tgt), want2, 'convert_keras_model (saved model %s, %squantized) inputs %s outputs %s target %s of %s' % ('fails' if C.sm_fails else 'works', '' if quant else 'not ', ti, to, tgt, text))
            if bad and C.made: fail('converts although the request is not supported')
except SystemExit: raise
except BaseException: fail('unexpected', traceback.format_exc()[-1500:])
print('OK cases=%d nontrivial=%d' % (cases, nontrivial))
