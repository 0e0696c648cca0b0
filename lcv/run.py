"""Extraction, translation and verification of one unit (driver + spec file)."""
import json, os, re, subprocess, sys, time, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import translate as T, pyvx as PY, tdx as TD

REPO = os.environ.get('LCV_REPO', '/repo')

def expand(text, seen=None):
    """@@foreach A B in a:b c:d ... @@end, @@include file [contracts of UNIT]"""
    seen = set() if seen is None else seen
    out = []; lines = text.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^@@include\s+(\S+)(?:\s+contracts\s+of\s+(\S+))?', l)
        if m:
            if m.group(1) in seen: i += 1; continue
            seen.add(m.group(1))
            t = expand(open(os.path.join(ROOT, 'specs', m.group(1))).read(), seen)
            if m.group(2):
                # callers only: contracts and lemmas of that file are used here, their proofs belong to the named unit
                t = re.sub(r'^(@@fn .*)$', r'\1\n@assumed ' + m.group(2), t, flags=re.M)
                t = re.sub(r'^(\s*)pub proof fn', r'\1#[verifier::external_body] pub proof fn', t, flags=re.M)
            out += t.split('\n'); i += 1; continue
        m = re.match(r'^@@foreach\s+(.*?)\s+in\s+(.*)$', l)
        if m:
            names = m.group(1).split(); rows = [[z.replace('~', '::') for z in r.split(':')] for r in m.group(2).split()]
            j = i + 1; body = []
            while lines[j].strip() != '@@end': body.append(lines[j]); j += 1
            for r in rows:
                t = '\n'.join(body)
                for n, v in zip(names, r): t = t.replace('$' + n, v.replace('_', ' ') if n == 'C' or v == 'signed_char' else v)
                out += t.split('\n')
            i = j + 1; continue
        out.append(l); i += 1
    return '\n'.join(out)

_cache = {}
def extract(driver, prefixes, extra=()):
    key = (driver, tuple(prefixes), tuple(extra))
    if key in _cache: return _cache[key]
    if driver.endswith('.py'):   # a Python file of the repository
        rel = driver.split('/specs/', 1)[1]; _cache[key] = PY.extract(os.path.join(REPO, rel), rel); return _cache[key]
    if driver.endswith('.td'):   # rewrite patterns of the repository
        rel = driver.split('/specs/', 1)[1]; _cache[key] = TD.extract(os.path.join(REPO, rel), rel, REPO); return _cache[key]
    cmd = [os.path.join(ROOT, 'build', 'lcvx')]
    for p in prefixes: cmd += ['-lcv-prefix', p]
    cmd += [driver, '--', '-std=c++17', '-DLCV_AST', '-I' + os.path.join(ROOT, 'stubs'), '-I' + REPO, '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w'] + list(extra)
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if p.returncode != 0 or not p.stdout.strip():
        raise T.Unsupported('extraction failed: ' + p.stderr[-2000:])
    _cache[key] = json.loads(p.stdout)
    return _cache[key]

def gen(data, spectext, vac=False):
    text = expand(spectext)
    needs = re.findall(r'^@@need\s+(.*)$', text, re.M)
    text = re.sub(r'^@@need.*$', '', text, flags=re.M)
    pick = re.findall(r'^@@pick\s+(.*)$', text, re.M); text = re.sub(r'^@@pick.*$', '', text, flags=re.M)
    spec = T.Spec(text)
    if 'td' in data:
        tr, txt = TD.gen(data, spec, vac, pick, text); return tr, spec, txt
    if 'py' in data:
        tr, txt = PY.gen(data, spec, vac, HERE); return tr, spec, txt
    tr, out = T.translate(data, spec, vac)
    for n in needs:
        p = n.split()
        if p[0] == 'cv': tr.cast_scalar('', p[1], p[2])
        elif p[0] == 'int': tr.arith(p[1], 'a', 'b', p[2], p[2], p[2])
        elif p[0] == 'lit': tr.fconst('0', p[1])
        else: tr.fop(p[0], ['a', 'b', 'c'][: int(p[3]) if len(p) > 3 else 2], p[1], p[2] if len(p) > 2 else None)
    txt = '#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n' + open(os.path.join(HERE, 'prelude.rs')).read()
    txt += '\n// ---- generated arithmetic helpers\n' + '\n'.join(tr.helpers.values())
    txt += '\n// ---- records\n' + '\n'.join(v for v in tr.recdefs.values() if v)
    txt += '\n// ---- specification\n' + spec.prelude
    txt += '\n// ---- translated functions\n' + '\n\n'.join(out)
    if vac: txt += '\npub uninterp spec fn lcv_vac(k: int) -> bool;\n'
    txt += '\nfn main() {}\n}\n'
    return tr, spec, txt

VMSG = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic underflow/overflow',
        'decreases not satisfied', 'possible division by zero', 'recommendation not met', 'possible bit shift', 'could not show', 'requires not satisfied', 'unreachable')

_live = []
def kill(pp):
    try: os.killpg(pp.pid, 9)
    except OSError: pass

def killall():
    for pp in _live:
        if pp.poll() is None: kill(pp)

def verus(path, extra=(), timeout=600):
    t = time.time()
    cmd = ['verus', os.path.basename(path), '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '8'] + list(extra)
    try:
        pp = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
        _live.append(pp)
        try:
            so, se = pp.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            kill(pp); pp.communicate(); raise
        p = subprocess.CompletedProcess(cmd, pp.returncode, so, se)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'errors': [], 'wall': time.time() - t, 'cmd': cmd, 'fn': {}, 'verified': 0, 'nerr': 0, 'smt_ms': 0}
    r = {'wall': time.time() - t, 'cmd': cmd, 'errors': [], 'fn': {}, 'raw': p.stderr, 'smt_ms': 0, 'verified': 0, 'nerr': 0}
    bad = False; rl = False
    for line in p.stderr.split('\n'):
        if not line.startswith('{'): continue
        try: d = json.loads(line)
        except Exception: continue
        if d.get('level') != 'error': continue
        m = d['message']
        if m.startswith('aborting due to'): continue
        if 'Resource limit' in m or 'rlimit' in m: rl = True; kind = 'rlimit'
        elif any(v in m for v in VMSG): kind = 'obligation'
        elif d.get('code') is None and ('satisfied' in m or 'failed' in m): kind = 'obligation'
        else: kind = 'compile'; bad = True
        r['errors'].append({'kind': kind, 'message': m, 'spans': [(s['line_start'], s['line_end'], s['is_primary'], s.get('label'), [x['text'] for x in s['text']][:3]) for s in d['spans']], 'rendered': d.get('rendered', '')})
    try:
        j = json.loads(p.stdout)
        v = j['verification-results']
        r['verified'] = v.get('verified', 0); r['nerr'] = v.get('errors', 0)
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                r['fn'][f['function']] = {'ms': f['time'], 'rlimit': f['rlimit'], 'ok': f['success']}
                r['smt_ms'] += f['time']
        ok = v.get('success') and not v.get('encountered-vir-error') and not r['errors']
        if ok: r['status'] = 'verified'
        elif bad or v.get('encountered-vir-error'): r['status'] = 'unattached'
        elif any(e['kind'] == 'obligation' for e in r['errors']): r['status'] = 'failed'
        elif rl: r['status'] = 'rlimit'
        else: r['status'] = 'unattached'
    except Exception:
        r['status'] = 'unattached'; r['raw'] += p.stdout[-2000:]
    return r

def obligations(path, workdir):
    """count the proof obligations per function from the verifier's AIR log"""
    d = os.path.join(workdir, 'air'); shutil.rmtree(d, ignore_errors=True)
    return ['--log', 'air', '--log-dir', d], d

def count_air(d):
    per = {}
    for f in glob.glob(os.path.join(d, '*.air')):
        cur = None
        with open(f) as fh:
            for l in fh:
                if l.startswith(';; Function-'):
                    cur = l.split()[-1]
                elif l.strip() in ('(assert',) and cur: per[cur] = per.get(cur, 0) + 1
    return per
