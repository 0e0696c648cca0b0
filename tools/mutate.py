#!/usr/bin/env python3
"""mutate.py FILE N [seed] [jobs]: N random one-token changes of a source file (path below larq_compute_engine/),
each in a scratch copy; runs the native programs of the properties that rest on the file and prints the changes
that none of them notices (to be looked at: equivalent, or a blind spot).  With --proof the survivors also go
through the verifier."""
import sys, os, re, json, random, subprocess, tempfile, shutil, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, ROOT + '/lcv')
from props import PROPS
B = lambda *m: [('bconv.cc', x) for x in m]
ALLM = ('ref', 'bits', 'indirect', 'bgemm', 'zeropad', 'prepare', 'fold', 'int8', 'float', 'history')
MAP = [('core/bitpacking/', [('bitpack.cc',), ('unpack.cc',), ('quant.cc',)]), ('bmaxpool', [('bmaxpool.cc',)]),
  ('core/bconv2d/reference.h', B('ref', 'bits', 'zeropad')), ('output_transform.h', [('transform.cc',)] + B('fold', 'bits')), ('optimized_bgemm.h', B('bgemm', 'bits')),
  ('indirect', B('indirect', 'bits', 'history', 'zeropad') + [('select.cc',)]), ('select_kernel.h', [('select.cc',)]), ('zero_padding', B('zeropad')),
  ('core/bgemm/', [('bgemm.cc',)] + B('bgemm')), ('kernels/bconv2d.cc', B(*ALLM)), ('core/bconv2d/params.h', B(*ALLM)), ('core/types.h', B(*ALLM) + [('bitpack.cc',)]), ('kernels/quantization.cc', [('quant.cc',)]),
  ('kernels/utils.h', [('options.cc',)] + B(*ALLM)), ('lce_ops_register.h', [('options.cc',)]),
  ('transforms/bitpack', [('fold.cc',)]), ('ir/lce_ops.cc', [('fold.cc',), ('options.cc',)]), ('fuse_padding.cc', [('padding.cc',)]), ('transforms/padding.h', [('padding.cc',)]),
  ('prepare_tf.cc', [('padding.cc',), ('binfilter.cc',)]), ('transforms/common.h', [('binfilter.cc',)]), ('optimize.cc', [('thresh.cc',)]), ('set_batch_size.cc', [('batch.cc',)]), ('legalize', [('options.cc',)]), ('translate', [('options.cc',)]), ('tf_tfl', [('passes.cc',)]), ('tf_to_tfl', [('passes.cc',)]), ('mlir/python/', [('passes.cc',)]), ('detection', [('detect.cc',)])]
def natives(f):
    for k, v in MAP:
        if k in f: want = v; break
    else: raise SystemExit('no native program for ' + f)
    out = {}
    for p in PROPS.values():
        for n in p['native']:
            for w in want:
                if n['src'] == w[0] and (len(w) == 1 or w[1] in n['quick']): out[(n['src'], tuple(n['quick']))] = n
    return list(out.values())
SWAP = [('height', 'width'), ('width', 'height'), ('Height', 'Width'), ('Width', 'Height'), ('_h', '_w'), ('_w', '_h'), ('input', 'output'), ('output', 'input'), ('lhs', 'rhs'), ('rhs', 'lhs'), ('min', 'max'), ('max', 'min'), ('top', 'bottom'), ('left', 'right'), ('right', 'left'), ('true', 'false'), ('false', 'true'), ('stride', 'dilation'), ('filter', 'input')]
def mutants(text, lo=0, hi=10**9):
    out = []; lines = text.split('\n'); skip = False
    for n, l in enumerate(lines):
        if n + 1 < lo or n + 1 > hi: continue
        s = l.strip()
        if s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('/*') or s.startswith('static_assert') or s.startswith('using') or s.startswith('template') or not s or re.search(r'TF_LITE_KERNEL_LOG|DCHECK|ASSERT|asm\(|====|License|^"|^as |^Unless|^you|^You|^http|^distr|^WITH|^See|^Copyr|^limit', s): continue
        code = l.split('//')[0]
        for m in re.finditer(r'<<=|>>=|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\*=|\|=|&=|<<|>>|->|::|[<>+\-*/%&|^~!]|\b\d+\b|\b[A-Za-z_]\w*\b', code):
            t = m.group(0); reps = []
            if t in ('<', '>') and re.search(r'(cast|vector|template|ptr|array|limits|Allocator|Base|Shape|Data|get|Op|Type|isa|dyn_cast|Values)\w*\s*<', code): continue
            reps += {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['/'], '+=': ['-='], '-=': ['+='], '&': ['|'], '|': ['&'], '^': ['|', '&'], '~': [''], '!': [''], '|=': ['='], '<<': ['>>'], '>>': ['<<']}.get(t, [])
            if re.match(r'\d+$', t): reps += [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) else [])
            if re.match(r'[A-Za-z_]', t):
                for a, b in SWAP:
                    if a in t and not t.startswith('k'):
                        r = t.replace(a, b)
                        if (r in text or t in ('true', 'false')): reps.append(r)
            for r in reps: out.append((n + 1, l, l[:m.start()] + r + l[m.end():]))
        if re.match(r'[\w\->\.\[\]\(\)\*]+ *(\+=|=|\|=)[^=].*;$|[\w:\.\->]+\(.*\);$|return .*;$|\+\+\w+;|break;|continue;', s) and not s.startswith('return'): out.append((n + 1, l, ''))
    return out
_d = tempfile.mkdtemp(prefix='mut-')
KNOWN = [k['match'] for k in json.load(open(ROOT + '/known_findings.json'))['findings']]; PROOF = [x for x in os.environ.get('MUT_PROOF', '').split(',') if x]
def one(job):
    i, f, text, (ln, old, new), nats = job
    d = os.path.join(_d, str(i)); os.makedirs(d)
    try:
        repo = os.path.join(d, 'r'); subprocess.run(['cp', '-r', '/tmp/mut/base', repo], check=True)
        ls = text.split('\n'); ls[ln - 1] = new; open(os.path.join(repo, 'larq_compute_engine', f), 'w').write('\n'.join(ls))
        done = {}
        for n in nats:
            key = (n['src'], tuple(n['flags']))
            if key not in done:
                exe = os.path.join(d, 'x%d' % len(done))
                p = subprocess.run(['clang++-18', '-std=c++17', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-I' + ROOT + '/stubs', '-I' + ROOT + '/native', '-I' + repo, ROOT + '/native/' + n['src']] + n['flags'] + ['-o', exe], capture_output=True, text=True)
                if p.returncode: return (i, 'nobuild', ln, old, new)
                done[key] = exe
            for sd in ('1',):
                try: p = subprocess.run([done[key], sd] + n['quick'], capture_output=True, text=True, timeout=120, errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
                except subprocess.TimeoutExpired: return (i, 'killed', ln, old, new)
                if p.returncode or any(not any(k in w for k in KNOWN) for w in re.findall(r'^KNOWN (.*)$', p.stdout, re.M)): return (i, 'killed', ln, old, new)
        if PROOF:      # the whole checks of the properties that have these programs (or those named in MUT_PROOF)
            for q in PROOF if PROOF != ['1'] else [k for k, v in PROPS.items() if any(n['src'] == m['src'] and n['quick'] == m['quick'] for n in v['native'] for m in nats)]:
                p = subprocess.run(['python3', ROOT + '/check.py', q, 'quick'], capture_output=True, text=True, env=dict(os.environ, LCV_REPO=repo, VERIF_SEED='1'))
                if p.returncode == 1: return (i, 'proof-killed', ln, old, new)
        return (i, 'SURVIVED', ln, old, new)
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    f, N = sys.argv[1], int(sys.argv[2]); rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1); jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    if not os.path.exists('/tmp/mut/base'):
        os.makedirs('/tmp/mut/base'); subprocess.run('git -C /repo archive HEAD larq_compute_engine | tar x -C /tmp/mut/base', shell=True, check=True)
    text = open('/tmp/mut/base/larq_compute_engine/' + f).read()
    lo, hi = (int(sys.argv[5]), int(sys.argv[6])) if len(sys.argv) > 6 else (0, 10**9)
    ms = mutants(text, lo, hi); rng.shuffle(ms); ms = ms[:N]; nats = natives(f); cnt = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, [(i, f, text, m, nats) for i, m in enumerate(ms)]):
            cnt[r[1]] = cnt.get(r[1], 0) + 1
            if r[1] == 'SURVIVED': print('%s:%d\n   - %s\n   + %s' % (f, r[2], r[3].strip(), r[4].strip()), flush=True)
    print('== %s %s of %d' % (f, cnt, len(ms)), flush=True); shutil.rmtree(_d, ignore_errors=True)
