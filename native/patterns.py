"""patterns.py SEED ITERS FILE:SPEC...: run the rewrite patterns on numbers

Every pattern (elaborated by llvm-tblgen, as for the proof) is evaluated with
NumPy on random small tensors that satisfy its constraints: the matched
operations and their replacement have to give the same tensor.  All numbers are
small multiples of powers of two, so the arithmetic is exact."""
import ast, os, random, re, sys
import numpy as np
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lcv'))
import tdx
from translate import Unsupported
REPO = os.environ.get('LCV_REPO_DIR', '/repo')
class Skip(Exception): pass      # the case does not match
class Invalid(Exception): pass   # no such operation at run time
class Unknown(Exception): pass   # the evaluator does not know it
class Bits:
    def __init__(self, a): self.a = np.asarray(a, bool); self.shape = self.a.shape
R = random.Random()
NONE = 'none'
def arr(x):
    if not isinstance(x, np.ndarray): raise Unknown(str(type(x)))
    return x
def act(y, a):
    if a == 'NONE': return y
    lo, hi = {'RELU': (0, np.inf), 'RELU_N1_TO_1': (-1, 1), 'RELU6': (0, 6)}[a]
    return np.clip(y, lo, hi)
def same(n, k, s, d):
    o = -(-n // s); t = max(0, (o - 1) * s + (k - 1) * d + 1 - n); return t // 2, t - t // 2
def conv(x, f, s, d, pad, pv):
    """x: NHWC, f: OHWI, groups by channels"""
    O, kh, kw, ci = f.shape; g = x.shape[3] // ci
    if x.shape[3] % ci or O % g: raise Skip
    if pad == 'SAME': x = np.pad(x, [(0, 0), same(x.shape[1], kh, s[0], d[0]), same(x.shape[2], kw, s[1], d[1]), (0, 0)], constant_values=pv)
    oh = (x.shape[1] - (kh - 1) * d[0] - 1) // s[0] + 1; ow = (x.shape[2] - (kw - 1) * d[1] - 1) // s[1] + 1
    if oh < 1 or ow < 1: raise Skip
    out = np.zeros((x.shape[0], oh, ow, O))
    for q in range(g):
        xs = x[..., q * ci:(q + 1) * ci]; fs = f[q * (O // g):(q + 1) * (O // g)]
        for i in range(kh):
            for j in range(kw):
                win = xs[:, i * d[0]:i * d[0] + (oh - 1) * s[0] + 1:s[0], j * d[1]:j * d[1] + (ow - 1) * s[1] + 1:s[1], :]
                out[..., q * (O // g):(q + 1) * (O // g)] += np.einsum('nhwc,oc->nhwo', win, fs[:, i, j, :])
    return out
def sgn(a): return np.where(a < 0, -1.0, 1.0)
def vec(v, O):
    v = arr(v)
    if v.size != O: raise Invalid('%d values for %d channels' % (v.size, O))
    return v.reshape(O)
class Packed:
    def __init__(self, a): self.a = a; self.shape = a.shape
def bconv(x, f, m, b, t, ch, dh, dw, a, pv, pad, sh, sw):
    if not isinstance(x, Bits): raise Unknown('input')
    w = sgn(f.a if isinstance(f, Packed) else arr(f)); X = np.where(x.a, -1.0, 1.0)
    if ch != x.shape[3]: raise Invalid('channels_in')
    if w.shape[3] == 0 or x.shape[3] % w.shape[3]: raise Invalid('groups')
    if pad not in ('SAME', 'VALID'): raise Invalid('padding')
    if pad == 'SAME' and pv == 0 and (a != 'NONE' or not isinstance(t, str)): raise Invalid('zero padding with an activation or bit-packed output')
    y = act(conv(X, w, (sh, sw), (dh, dw), pad, pv), 'NONE')
    if not isinstance(t, str):
        back = w.shape[1] * w.shape[2] * w.shape[3]
        return Bits((back - y) / 2 > vec(t, w.shape[0]))
    if isinstance(m, str) or isinstance(b, str): raise Invalid('no multipliers or biases')
    return act(y, a) * vec(m, w.shape[0]) + vec(b, w.shape[0])
def thresholds(f, m, b, a):
    O = f.shape[0]; back = f.shape[1] * f.shape[2] * f.shape[3]; out = []
    for k in range(O):
        mm, bb = float(m.reshape(-1)[k]), float(b.reshape(-1)[k]); s = 1.0 if mm >= 0 else -1.0
        bit = [bool(act(np.array(s * (back - 2 * x)), a) * mm + bb < 0) for x in range(back + 1)]
        t = next((x for x in range(back + 1) if bit[x]), back + 1) - 1
        assert all(bit[x] == (x > t) for x in range(back + 1))
        out.append(t)
    return np.array(out, float)
def num(x): return float(x)
def quantize(x):
    if isinstance(x, np.ndarray) and x.dtype == bool: return Bits(~x)
    return Bits(arr(x) < 0)
def binary(f):
    f = arr(f)
    if f.ndim != 4: return False
    s = np.abs(f[0, 0, 0, :])
    return bool((s > 2 ** -23).all() and (np.abs(np.abs(f / f[0, 0, 0, :]) - 1) <= 0.005).all())
def same1(p, i, n, o, s):
    b, e = int(p[i, 0]), int(p[i, 1])
    if not (-(-n // s) == o and e - b in (0, 1)): return False
    # (known finding: IsSamePadding of prepare_tf.cc does not look at the filter)
    k, d = ((CUR.kh, CUR.d[0]), (CUR.kw, CUR.d[1]))[i - 1]
    return s == 1 or b == max((o - 1) * s + (k - 1) * d + 1 - n, 0) // 2
def tconv(x, f, s, c, pad, e, df, d):
    if df != 'NHWC' or s[0] != 1 or s[3] != 1 or d[0] != 1 or d[3] != 1: raise Skip
    return conv(arr(x), np.transpose(arr(f), (3, 0, 1, 2)), s[1:3], d[1:3], pad, 0)
def pool(x, pad, sw, sh, fw, fh, low):
    if pad == 'SAME': x = np.pad(x, [(0, 0), same(x.shape[1], fh, sh, 1), same(x.shape[2], fw, sw, 1), (0, 0)], constant_values=low)
    oh = (x.shape[1] - fh) // sh + 1; ow = (x.shape[2] - fw) // sw + 1
    if oh < 1 or ow < 1: raise Skip
    return np.stack([np.stack([x[:, i * sh:i * sh + fh, j * sw:j * sw + fw, :].max((1, 2)) for j in range(ow)], 1) for i in range(oh)], 1)
def select1(c, p, n):
    if c.ndim == 1 and p.ndim > 1:
        if c.shape[0] != p.shape[0]: raise Skip
        c = c.reshape([-1] + [1] * (p.ndim - 1))
    elif c.ndim and c.shape != p.shape: raise Skip
    if p.shape != n.shape: raise Skip
    return np.where(c, p, n)
def bcast(f, *a):
    try: return f(*a)
    except ValueError: raise Skip
def broadcast_to(s, c, shape):
    try: return np.broadcast_to(c, shape)
    except ValueError: raise Invalid('a condition of shape %s is broadcast to %s' % (c.shape, tuple(shape)))
def depth(x, f, b, dh, dw, a, pad, sh, sw, m):
    C = x.shape[3]
    if f.shape[3] != C * m: raise Skip
    y = conv(arr(x), np.transpose(f, (3, 1, 2, 0)), (sh, sw), (dh, dw), pad, 0); return act(y + b, a)
def arith(op):
    def f(x, y, a): return act(bcast(op, arr(x), arr(y)), a)
    return f
OPS = {
 'Arith_ConstantOp': lambda x: x, 'TF_ConstOp': lambda x: x, 'n_None': lambda: NONE,
 'LQ_QuantizeOp': quantize, 'LQ_DequantizeOp': lambda x: np.where(x.a, -1.0, 1.0), 'LQ_Bconv2dOp': bconv,
 'LQ_BMaxPool2dOp': lambda x, p, sw, sh, fw, fh: Bits(pool(np.where(x.a, -1, 1), p, sw, sh, fw, fh, -9) < 0),
 'TFL_AddOp': arith(np.add), 'TFL_SubOp': arith(np.subtract), 'TFL_MulOp': arith(np.multiply), 'TFL_DivOp': arith(np.divide),
 'TFL_GreaterEqualOp': lambda x, y: bcast(np.greater_equal, x, y), 'TFL_LessEqualOp': lambda x, y: bcast(np.less_equal, x, y),
 'TFL_GreaterOp': lambda x, y: bcast(np.greater, x, y), 'TFL_LessOp': lambda x, y: bcast(np.less, x, y),
 'TFL_ReluOp': lambda x: act(x, 'RELU'), 'TFL_Relu1Op': lambda x: act(x, 'RELU_N1_TO_1'), 'TFL_Relu6Op': lambda x: act(x, 'RELU6'),
 'TFL_QuantizeOp': lambda x, q: x, 'TFL_DequantizeOp': lambda x: x,
 'TFL_MaxPool2DOp': lambda x, p, sw, sh, fw, fh, a: act(pool(arr(x), p, sw, sh, fw, fh, -np.inf), a),
 'TFL_PadOp': lambda x, p: np.pad(arr(x), p), 'TFL_PadV2Op': lambda x, p, v: np.pad(arr(x), p, constant_values=v.reshape(-1)[0]),
 'TF_PadOp': lambda x, p: np.pad(arr(x), p), 'TF_PadV2Op': lambda x, p, v: np.pad(arr(x), p, constant_values=v.reshape(-1)[0]),
 'TFL_Conv2DOp': lambda x, f, b, dh, dw, a, pad, sh, sw: act(conv(arr(x), arr(f), (sh, sw), (dh, dw), pad, 0) + b, a), 'TFL_DepthwiseConv2DOp': depth,
 'TF_Conv2DOp': tconv, 'TF_DivOp': lambda x, y: bcast(np.divide, x, y), 'TF_TransposeOp': lambda x, p: np.transpose(x, p),
 'TF_LogicalNotOp': lambda x: ~x, 'TF_SignOp': lambda x: np.sign(arr(x)), 'TF_AddV2Op': lambda x, y: bcast(np.add, x, y),
 'TF_SelectOp': select1, 'TF_SelectV2Op': lambda c, p, n: bcast(np.where, c, p, n),
 'n_GetScaleVector': lambda f: np.abs(f[0, 0, 0, :]), 'n_GetConstantVector': lambda f, v: np.full(f.shape[-1], num(v)), 'n_GetNumChannels': lambda x: x.shape[-1],
 'n_IntAt': lambda l, i: l[int(i)], 'n_Bitpack': lambda f: Packed(sgn(f)), 'n_GetSignsOfVectorAndBroadcast4D': lambda m: np.where(m >= 0, 1.0, -1.0).reshape(-1, 1, 1, 1),
 'n_GetBitpackedOutputThresholds': lambda f, m, b, a: thresholds(f, m, b, a),
 'n_CreateTFBroadcastToOp_0c993f': broadcast_to, 'n_CreateTFShapeOp_430e90': lambda s, x, i: list(x.shape),
 'p_float32': lambda x: isinstance(x, np.ndarray), 'p_one_element': lambda v: v.size == 1, 'p_first_value_is': lambda v, e: float(v.reshape(-1)[0]) == num(e),
 'p_IsConstantValue': lambda v, e: isinstance(v, np.ndarray) and bool((v == num(e)).all()), 'p_IsConstantBetween': lambda v, a, b: bool(((v > num(a)) & (v < num(b))).all()),
 'p_IsBinaryFilter': binary, 'p_IsConv2DFilter': lambda f: isinstance(f, np.ndarray) and f.ndim == 4, 'p_TFIntListIs1XY1': lambda l: l[0] == 1 and l[3] == 1,
 'p_HasValidFilterShape': lambda x, f: x.shape[-1] % f.shape[-2] == 0 and (x.shape[-1] == f.shape[-2] or f.shape[-2] % 32 == 0),
 'p_SelectsElementwise': lambda s, c: c.ndim == 0 or c.ndim == s.ndim,
 'p_NoBatchAndChannelPadding': lambda p: not p[0].any() and not p[3].any(),
 'p_IsSamePaddingPartial': lambda p, x, o, s, d: same1(p, int(num(d)), x.shape[int(num(d))], o.shape[int(num(d))], s),
 'p_IsSamePadding': lambda p, x, o, s: not p[0].any() and not p[3].any() and all(same1(p, d, x.shape[d], o.shape[d], s[d]) for d in (1, 2)),
}
for o in ('CheckNumerics', 'Snapshot', 'StopGradient', 'PlaceholderWithDefault', 'Identity', 'IdentityN'): OPS['TF_%sOp' % o] = lambda x, *a: x

# ---- random operands
def values(*shape): return np.array([R.choice([-3, -2, -1, -0.5, 0, 0, 0.5, 1, 2]) for _ in range(int(np.prod(shape)))], float).reshape(shape)
def signs(*shape): return np.array([R.choice([-1.0, 1.0]) for _ in range(int(np.prod(shape)))], float).reshape(shape)
class Case:
    def __init__(self):
        self.kh, self.kw = R.randint(1, 3), R.randint(1, 3); self.d = (1, 1) if R.random() < .7 else (R.randint(1, 2), R.randint(1, 2)); self.s = (1, 1) if R.random() < .4 else (R.randint(1, 3), R.randint(1, 3))
        self.h, self.w = R.randint(1, 7), R.randint(1, 7); self.n = R.randint(1, 2); self.c = R.randint(1, 3); self.ci = self.c; self.o = R.randint(1, 3); self.rank = R.randint(1, 3)
        self.shape = [R.randint(1, 3) for _ in range(self.rank)]
        if R.random() < .05: self.c, self.ci, self.o = 64, 32, 2 * R.randint(1, 2)
        self.memo = {}
    def leaf(self, path):
        """path: the operations above the operand, innermost first, with positions"""
        skip = ('Arith_ConstantOp', 'LQ_DequantizeOp', 'LQ_QuantizeOp', 'TFL_QuantizeOp', 'TFL_DequantizeOp', 'TF_ConstOp')
        if path[0] == ('TFL_QuantizeOp', 1): return 'qtype'
        if path[0] == ('TF_CheckNumericsOp', 1): return 'message'
        inner = path[0][0]; real = [p for p in path if p[0] not in skip] or path
        bits = inner == 'LQ_DequantizeOp' or any(p[0] == 'LQ_DequantizeOp' for p in path[:1])
        v = self.operand(real)
        if bits and isinstance(v, np.ndarray): return Bits(signs(*v.shape) < 0)
        return v
    def operand(self, p):
        op, i = p[0]
        A = lambda: R.choice(['NONE', 'NONE', 'RELU', 'RELU_N1_TO_1', 'RELU6']); P = lambda: R.choice(['VALID', 'SAME'])
        image = lambda: values(self.n, self.h, self.w, self.c)
        if op in ('TF_PadV2Op', 'TFL_PadV2Op', 'TF_PadOp', 'TFL_PadOp'):
            if i == 0: return image()
            if i == 1:
                a = np.zeros((4, 2), int)
                for z, (n, k, s, d) in enumerate([(self.h, self.kh, self.s[0], self.d[0]), (self.w, self.kw, self.s[1], self.d[1])]): a[z + 1] = same(n, k, s, d)
                if R.random() < .2: z = R.randint(0, 1); a[z + 1] = same((self.h, self.w)[z], (self.kh, self.kw)[z], self.s[1 - z], self.d[z])   # the other direction's stride
                if R.random() < .3: a[R.choice([0, 1, 1, 2, 2, 3]), R.randint(0, 1)] = R.randint(0, 2)
                return a
            return np.array([R.choice([0.0, 1.0, 0.0, 1.0, -1.0, 0.5])])
        if op == 'LQ_Bconv2dOp':
            return [lambda: Bits(signs(self.n, self.h, self.w, self.c) < 0), lambda: signs(self.o, self.kh, self.kw, self.ci), lambda: R.choice([np.ones(self.o), values(self.o)]), lambda: R.choice([np.zeros(self.o), values(self.o)]),
                    lambda: NONE, lambda: self.c, lambda: self.d[0], lambda: self.d[1], A, lambda: R.randint(0, 1), P, lambda: self.s[0], lambda: self.s[1]][i]()
        if op == 'TF_Conv2DOp':
            def filt():
                f = signs(self.kh, self.kw, self.ci, self.o) * np.array([R.choice([0.5, 1.0, 2.0]) for _ in range(self.o)])
                if R.random() < .2: f[tuple(R.randrange(z) for z in f.shape)] *= R.choice([3.0, 0.0, 1.5])
                return f
            return [image, filt, lambda: [1, *self.s, 1] if R.random() < .9 else [1, *self.s, 2], lambda: True, P, lambda: [], lambda: R.choice(['NHWC'] * 5 + ['NCHW']), lambda: [1, *self.d, 1]][i]()
        if op in ('TFL_Conv2DOp', 'TFL_DepthwiseConv2DOp'):
            dw = op == 'TFL_DepthwiseConv2DOp'; o = self.c if dw else self.o
            return [image, lambda: values(1, self.kh, self.kw, o) if dw else values(self.o, self.kh, self.kw, self.ci), lambda: values(o), lambda: self.d[0], lambda: self.d[1], A, P, lambda: self.s[0], lambda: self.s[1], lambda: 1][i]()
        if op in ('TFL_MaxPool2DOp', 'LQ_BMaxPool2dOp'): return [image, P, lambda: self.s[1], lambda: self.s[0], lambda: self.kw, lambda: self.kh, A][i]()
        if op in ('TFL_AddOp', 'TFL_SubOp', 'TFL_MulOp', 'TFL_DivOp'):
            if i == 2: return A()
            v = R.choice([values(self.o), values(1), values()]); return np.where(v == 0, 2.0, v)
        if op in ('TF_SelectOp', 'TF_SelectV2Op'):
            if i == 0:
                s = list(self.shape)
                if R.random() < .3: s = R.choice([s[:1], s[-1:], [], [1] * len(s)])
                return np.array(values(*s) > 0)
            return np.full(self.shape if R.random() < .8 or op == 'TF_SelectOp' else [], R.choice([1.0, -1.0, 1.0, -1.0, 0.5]))
        if op == 'TF_AddV2Op': return np.array(R.choice([0.125, 0.5, 0.1, 0.0, 1.0, -0.5, 2.0]))
        if op.endswith('EqualOp') or op in ('TFL_GreaterOp', 'TFL_LessOp'): return values(*self.shape) if i == 0 else R.choice([values(*self.shape), np.zeros(self.shape), np.array(0.0), np.array(1.0)])
        return values(*self.shape) if not op.startswith('LQ_B') else image()

def paths(src):
    out = {}
    def go(n, path):
        if isinstance(n, ast.Name): out.setdefault(n.id, path); return
        for i, a in enumerate(n.args): go(a, [(n.func.id, i)] + path)
    go(ast.parse(src, mode='eval').body, []); return out
def consts(src):
    d = {}
    for k in set(re.findall(r'\bk_\w+', src)):
        m = re.match(r'^k_num_(m?)(\d+)_(\d+)$', k) or re.match(r'^k_\w+?_num_(m?)(\d+)_(\d+)$', k)
        if m: v = float('%s%s.%s' % ('-' if m.group(1) else '', m.group(2), m.group(3))); v = int(v) if not k.startswith('k_num') else v
        elif k.startswith('k_TFL_AFAttr_'): v = k[13:]
        elif k.startswith('k_TFL_PaddingAttr_'): v = k[18:]
        elif k.startswith('k_TF_ConvnetDataFormatAttr_'): v = k[27:]
        elif k.startswith('k_I32VectorElementsAttr_'): v = [int(z) for z in k[24:].split('_')]
        elif k.startswith('k_BoolAttr_'): v = k[11:] == 'true'
        else: raise Unknown(k)
        d[k] = (lambda v: lambda: v)(v)
    return d
def show(v): return repr(v.a.tolist() if isinstance(v, (Bits, Packed)) else v.tolist() if isinstance(v, np.ndarray) else v)[:260]
def equal(a, b):
    if isinstance(a, Bits) != isinstance(b, Bits): return False
    if isinstance(a, Bits): return a.shape == b.shape and bool((a.a == b.a).all())
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))

def main():
    seed, iters = int(sys.argv[1]), int(sys.argv[2]); R.seed(seed); n = good = 0; left = []
    for fs in sys.argv[3:]:
        f, sp = fs.split(':'); rel = 'larq_compute_engine/mlir/transforms/%s.td' % f
        try: tr = tdx.Td(tdx.extract(os.path.join(REPO, rel), rel, REPO), None, False)
        except Unsupported as e: left.append('%s: %s' % (f, e)); continue
        pick = re.findall(r'^@@pick\s+(.*)$', open(os.path.join(ROOT, 'specs', sp + '.vs')).read(), re.M)
        for i, name in tdx.chosen(tr, pick):
            where = '%s, pattern %d (%s)' % (rel, i, tr.d[name]['sourcePattern']['operator']['def'])
            try:
                src, hyp, res = tr.parts(name); vs = list(tr.vars)
                names = set(re.findall(r'\b([A-Za-z]\w*)\(', ' '.join([src, res] + hyp)))
                bad = [z for z in names if z not in OPS and not z.startswith('k_')]
                if bad: raise Unknown(', '.join(bad))
                ns = dict(OPS, **consts(' '.join([src, res] + hyp))); roles = paths(src)
                S, Rr = compile(src, 's', 'eval'), compile(res, 'r', 'eval'); H = [compile(re.sub(r'^!', 'not ', h), 'h', 'eval') for h in hyp]
            except (Unsupported, Unknown) as e: left.append('%s: %s' % (where, e)); continue
            done = tries = 0
            while done < iters and tries < 60 * iters:
                tries += 1; c = Case(); globals()['CUR'] = c; v = dict(ns)
                for x in vs: v[x] = c.leaf(roles[x]) if x in roles else 0
                try:
                    if not all(eval(h, v) for h in H if not re.search(r'Op\b', str(h.co_names))): continue
                    a = eval(S, v)
                    if not all(eval(h, v) for h in H): continue
                except (Skip, Invalid): continue
                except Unknown as e: left.append('%s: %s' % (where, e)); break
                done += 1; n += 1; good += 1
                try: b = eval(Rr, v); why = None
                except Skip: b = None; why = 'has no value'
                except Invalid as e: b = None; why = 'is no valid operation: %s' % e
                except Unknown as e: left.append('%s: %s' % (where, e)); break
                if why is None and not equal(a, b): why = 'gives %s' % show(b)
                if why:
                    print('FAIL %s: the matched operations give %s, their replacement %s; operands %s' % (where, show(a), why, '; '.join('%s=%s' % (x[2:], show(v[x])) for x in vs))); sys.exit(1)
            if not done: left.append(where + ': no case matches')
    for l in left: print('not run:', l)
    print('OK cases=%d nontrivial=%d' % (n, good))
main()
