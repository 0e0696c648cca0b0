#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Extracts the functions a property depends on from /repo's current source,
attaches the contracts in specs/, has the verifier discharge every obligation,
guards against vacuity, and replays / cross-checks on the real code."""
import json, os, re, shutil, subprocess, sys, time, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lcv')); sys.path.insert(0, ROOT)
import run as R, translate as T
from props import PROPS, COMMON
REPO = R.REPO
DEADLINE = time.time() + 560   # proof attempts stop here; the native search has the rest of the 900 s
END = time.time() + 840

def build_native(n, work):
    exe = os.path.join(work, os.path.basename(n['src']).replace('.cc', '') + '-%d' % n['k'])
    if n['src'].endswith('.py'):   # a Python program over the Python sources
        open(exe, 'w').write('#!/bin/sh\nexec /opt/lce/venv/bin/python %s "$@"\n' % os.path.join(ROOT, 'native', n['src'])); os.chmod(exe, 0o755)
        return exe, None
    cmd = ['clang++-18', '-std=c++17', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
           '-I' + os.path.join(ROOT, 'stubs'), '-I' + os.path.join(ROOT, 'native'), '-I' + REPO, os.path.join(ROOT, 'native', n['src'])] + n['flags'] + ['-o', exe]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return exe, 'compilation timed out'
    return exe, (p.stderr[-3000:] if p.returncode else None)

def run_native(exe, args, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', LCV_REPO_DIR=REPO, PYTHONDONTWRITEBYTECODE='1', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3')
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired as e:
        return {'status': 'timeout', 'out': (e.stdout or b'')[-2000:].decode(errors='replace') if isinstance(e.stdout, bytes) else '', 'cases': 0}
    m = re.search(r'^OK cases=(\d+) nontrivial=(\d+)', p.stdout, re.M)
    kf = re.findall(r'^KNOWN (.*)$', p.stdout, re.M)
    if p.returncode == 0 and m: return {'status': 'ok', 'known': kf, 'cases': int(m.group(1)), 'nontrivial': int(m.group(2)), 'out': p.stdout[-1500:]}
    f = re.search(r'^FAIL.*$', p.stdout, re.M)
    return {'status': 'fail', 'what': f.group(0) if f else 'exit status %d' % p.returncode, 'out': p.stdout[-4000:] + p.stderr[-4000:], 'cases': 0, 'rc': p.returncode}

def verify_unit(u, work, tier):
    name = re.sub(r'\W', '_', u['spec'].replace('.vs', ''))
    d = os.path.join(work, 'u_' + name); os.makedirs(d, exist_ok=True)
    res = {'unit': u['spec'], 'attempts': []}
    try:
        data = R.extract(os.path.join(ROOT, 'specs', u['driver']), u['prefixes'], u['extra'])
        tr, spec, txt = R.gen(data, open(os.path.join(ROOT, 'specs', u['spec'])).read())
    except T.Unsupported as e:
        res.update(status='unattached', why=str(e)); return res
    except Exception as e:
        res.update(status='unattached', why='%s: %s' % (type(e).__name__, e)); return res
    path = os.path.join(d, name + '.rs'); open(path, 'w').write(txt)
    res['functions'] = tr.stats; res['from_other'] = tr.assumed; res['assumes'] = spec.assumes
    res['trusted'] = sorted(set(re.findall(r'external_body\]\s*pub fn (\w+)', txt)) | set(re.findall(r'axiom fn (\w+)', txt)))
    res['source_text'] = txt
    logargs, logd = R.obligations(path, d)
    left = lambda most: max(20, min(most, DEADLINE - time.time()))
    # vacuity: a false assertion planted at every function start and loop body must be refuted (runs alongside the proof)
    def vacrun():
        tr2, _, txt2 = R.gen(data, open(os.path.join(ROOT, 'specs', u['spec'])).read(), vac=True)
        txt2 = re.sub(r'^(\s*)pub proof fn', r'\1#[verifier::external_body] pub proof fn', txt2, flags=re.M)
        d2 = os.path.join(d, 'v'); os.makedirs(d2, exist_ok=True)
        p2 = os.path.join(d2, name + '_vac.rs'); open(p2, 'w').write(txt2)
        return tr2, txt2, R.verus(p2, ['--multiple-errors', '60', '--rlimit', '15'], left(600))
    vx = cf.ThreadPoolExecutor(1); vf = vx.submit(vacrun)
    attempts = [([] + logargs, 400), (['--rlimit', '40', '--smt-option', 'smt.random_seed=3'], 300), (['--rlimit', '100', '--smt-option', 'smt.random_seed=11'], 300)]
    for i, (a, to) in enumerate(attempts):
        if i and DEADLINE - time.time() < 200: break
        r = R.verus(path, a, left(to)); res['attempts'].append({'status': r['status'], 'wall': round(r['wall'], 2), 'args': a if i else []})
        if i == 0:
            res['obl'] = R.count_air(logd); shutil.rmtree(logd, ignore_errors=True); res['cmd'] = ' '.join(x for x in r['cmd'] if not x.startswith(logd) and x not in ('--log', 'air', '--log-dir')); 
        if r['status'] in ('verified', 'unattached'): break
        if i == 1 and r['status'] == 'failed': break
    res['verus'] = r; res['status'] = r['status']; res['path'] = path
    if r['status'] == 'unattached': res['why'] = '; '.join(e['message'] for e in r['errors'] if e['kind'] == 'compile')[:500] or r.get('raw', '')[-500:]
    if r['status'] == 'verified':
        tr2, txt2, r2 = vf.result()
        want = set(range(1, tr2.vacn + 1)); got = set(); lines = txt2.split('\n'); rl = False
        for e in r2['errors']:
            if e['kind'] == 'rlimit': rl = True
            for s in e['spans']:
                m = re.search(r'lcv_vac\((\d+)\)', lines[s[0] - 1]) if s[0] <= len(lines) else None
                if m and 'assertion failed' in e['message']: got.add(int(m.group(1)))
        miss = sorted(want - got)
        # points of a function on which the solver gave up are undecided: false was not proved there within the limit
        lim = set()
        for e in r2['errors']:
            if e['kind'] == 'rlimit':
                for s in e['spans']:
                    b = next((x for x in range(s[0], len(lines)) if re.match(r'\}', lines[x])), len(lines))
                    lim |= {int(z) for z in re.findall(r'lcv_vac\((\d+)\)', '\n'.join(lines[s[0] - 1:b]))}
        und = [k for k in miss if k in lim]; miss = [k for k in miss if k not in lim]
        res['vac'] = {'undecided': [re.search(r'lcv_vac\(%d\)\); } // VAC (.*)' % k, txt2).group(1) for k in und], 'points': len(want), 'refuted': len(got), 'missing': [re.search(r'lcv_vac\(%d\)\); } // VAC (.*)' % k, txt2).group(1) for k in miss], 'solver_limit': rl, 'wall': round(r2['wall'], 2)}
    return res

def locate(res, e):
    """function, C++ line and clause of a failed obligation"""
    lines = res['source_text'].split('\n'); best = ''
    info = []
    for s in e['spans']:
        ln = s[0] - 1
        fn = ''
        for k in range(min(ln, len(lines) - 1), -1, -1):
            m = re.match(r'\s*pub (?:proof )?fn (\w+)', lines[k])
            if m: fn = m.group(1); break
        cl = ''
        m = re.search(r'// L(\d+)', lines[ln]) if ln < len(lines) else None
        if m: cl = 'C++ line ' + m.group(1)
        info.append((s[2], fn, cl, s[3] or '', lines[ln].strip()[:200] if ln < len(lines) else ''))
    return info

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]; t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    if not os.path.exists(os.path.join(ROOT, 'build', 'lcvx')):
        subprocess.run(['bash', os.path.join(ROOT, 'setup.sh')], check=False)
    work = tempfile.mkdtemp(prefix='work-%s-' % pid, dir=os.path.join(ROOT, 'build'))
    evdir = os.path.join(ROOT, 'evidence'); os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, '%s.replay.txt' % pid)
    if os.path.exists(replay): os.remove(replay)
    try:
        rc = decide(pid, tier, seed, P, t0, work, evdir, replay)
    finally:
        R.killall(); shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def decide(pid, tier, seed, P, t0, work, evdir, replay):
    known = load_known(pid)
    nat = [dict(n, k=i) for i, n in enumerate(P['native'])]
    with cf.ThreadPoolExecutor(8) as ex:
        nb = [ex.submit(build_native, n, work) for n in nat]
        vu = [ex.submit(verify_unit, u, work, tier) for u in P['units']]
        built = [f.result() for f in nb]
        def runq(n, b, deep, sd):
            exe, err = b
            if err: return {'status': 'nobuild', 'out': err, 'cases': 0}
            return run_native(exe, [str(sd)] + (n['thorough'] if deep else n['quick']), max(30, min(800 if deep else 300, END - time.time())))
        nr = [ex.submit(runq, n, b, tier == 'thorough', seed) for n, b in zip(nat, built)]
        units = [f.result() for f in vu]
        natres = [f.result() for f in nr]
    failed = [u for u in units if u['status'] == 'failed']
    loose = [u for u in units if u['status'] in ('unattached', 'rlimit', 'timeout')]
    vacbad = [u for u in units if u['status'] == 'verified' and u['vac']['missing']]
    natfail = [(n, r) for n, r in zip(nat, natres) if r['status'] == 'fail']
    # a failed or missing proof: look harder for a concrete failing input
    if (failed or loose) and not natfail and tier != 'thorough':
        t1 = time.time()
        with cf.ThreadPoolExecutor(8) as ex:
            deep = [ex.submit(runq, n, b, k == 2, seed + 100 + k) for n, b in zip(nat, built) for k in range(3)]
            deep = [(nat[i // 3], f.result()) for i, f in enumerate(deep)]
        natfail = [(n, r) for n, r in deep if r['status'] == 'fail']
        natres = natres + [r for _, r in deep]
    obl = sum(sum(v for k, v in u.get('obl', {}).items()) for u in units)
    failobl = []
    for u in failed:
        for e in u['verus']['errors']:
            info = locate(u, e)
            failobl.append({'unit': u['unit'], 'message': e['message'], 'where': ['%s %s%s: %s' % (f, c, ' (' + l + ')' if l else '', t) for _, f, c, l, t in info], 'rendered': e['rendered']})
    nfail = sum(u['verus'].get('nerr', 0) for u in failed)
    violations = 0; lines = []
    def write_replay(head, body):
        with open(replay, 'w') as f: f.write(head + '\n\n' + body + '\n')
    # findings a program reports by name: those listed in known_findings.json are printed, any other is a violation
    kn = []
    for n, r in list(zip(nat, natres)) if len(nat) == len(natres) else [(nat[0], r) for r in natres]:
        for w in r.get('known', []):
            k = [x for x in known if x['match'] in w]
            kn += [x for x in k if x not in kn]
            if not k: natfail.append((n, dict(r, status='fail', what='FAIL ' + w)))
    txtfail = '\n'.join('FAILED OBLIGATION [%s] %s\n  %s\n%s' % (o['unit'], o['message'], '\n  '.join(o['where']), o['rendered']) for o in failobl)
    if natfail:
        n, r = natfail[0]; violations = 1
        write_replay('property %s: failing input found on the real code\nprogram: native/%s (%s against %s)\n%s' % (pid, n['src'], 'Python' if n['src'].endswith('.py') else 'clang++ -fsanitize=address,undefined', REPO, r['what']), r['out'] + '\n\n' + txtfail)
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
    elif failed:
        violations = 1
        write_replay('property %s: obligations the verifier could not discharge (no failing input found)' % pid, txtfail)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    elif loose and not any(r['status'] == 'ok' for r in natres):
        violations = 1
        write_replay('property %s: the contracts no longer attach to the code and the real code could not be exercised' % pid, '\n'.join('%s: %s' % (u['unit'], u.get('why', u['status'])) for u in loose) + '\n' + '\n'.join(r['out'] for r in natres))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    proved = not loose and not failed and not vacbad and not violations
    for k in kn: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    cases = sum(r.get('cases', 0) for r in natres)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if not loose and not vacbad else 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': violations,
          'assumptions': COMMON + P.get('assume', []) + sorted({a for u in units for a in u.get('assumes', [])}),
          'coverage': {
            'obligations': obl, 'discharged': obl - (len(failobl) or nfail) if failed else (obl if not loose else sum(sum(u.get('obl', {}).values()) for u in units if u['status'] == 'verified')),
            'checker_cmd': 'python3 check.py %s %s  (runs: %s)' % (pid, tier, '; '.join(u.get('cmd', '-') for u in units)),
            'trusted_base': sorted({'trusted primitive: ' + x for u in units for x in u.get('trusted', [])}),
            'functions_under_contract': {u['unit']: [{'contract': k, 'cpp': v['key'], 'at': '%s:%s' % (v['loc'].get('f'), v['loc'].get('l')), 'loops_with_invariants': v['loops']} for k, v in u.get('functions', {}).items()] for u in units},
            'contracts_proved_in_another_unit': {u['unit']: u.get('from_other', []) for u in units},
            'obligations_per_function': {u['unit']: u.get('obl', {}) for u in units},
            'back_end': 'Verus (Z3)', 'solver_ms': {u['unit']: u.get('verus', {}).get('smt_ms', 0) for u in units},
            'unit_status': {u['unit']: {'status': u['status'], 'why': u.get('why', ''), 'attempts': u['attempts']} for u in units},
            'vacuity': {u['unit']: u.get('vac') for u in units},
            'bounded_cross_check_of_the_real_code': {'label': 'bounded (sampling); confirms the trusted translation and supplies replays, never counted as proved', 'runs': [{'program': n['src'], 'status': r['status'], 'cases': r.get('cases', 0), 'nontrivial': r.get('nontrivial', 0)} for n, r in zip(nat, natres)]},
            'evaluations': cases, 'distinct_nontrivial': sum(r.get('nontrivial', 0) for r in natres),
            'rule': 'bounded cross-check only: pseudo-random shapes and data from the seed plus a grid of boundary sizes; non-trivial = at least one output element computed',
            'samples': [r.get('out', '')[-200:] for r in natres[:2]],
          }}
    if loose: ev['coverage']['explanation'] = 'contracts did not attach or the solver gave up on: %s. The result of this run is bounded sampling of the real code, not a proof.' % ', '.join('%s (%s)' % (u['unit'], u.get('why', u['status'])) for u in loose)
    if vacbad: ev['coverage']['explanation'] = 'vacuity guard: planted false assertions not refuted at ' + '; '.join(', '.join(u['vac']['missing']) for u in vacbad)
    if failobl: ev['coverage']['failed_obligations'] = [{k: o[k] for k in ('unit', 'message', 'where')} for o in failobl]
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    print('%s %s: %s; %d obligations in %d functions, %d native cases, %.1f s' % (pid, tier, 'proved' if proved else 'NOT fully proved', obl, sum(len(u.get('functions', {})) for u in units), cases, time.time() - t0))
    for u in loose: print('  bounded fallback for %s: %s' % (u['unit'], u.get('why', u['status'])[:300]))
    for u in vacbad: print('  vacuity: not refuted: %s' % u['vac']['missing'])
    for o in failobl[:6]: print('  failed obligation: %s | %s' % (o['message'], ' <- '.join(o['where'])[:400]))
    for n, r in natfail[:2]: print('  failing input: ' + r['what'][:600])
    for n, r in zip(nat, natres):
        if r['status'] not in ('ok', 'fail'): print('  native %s: %s %s' % (n['src'], r['status'], r['out'][-600:]))
    for l in lines: print(l)
    return 1 if violations else 0

def load_known(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == pid: out.append(k)
    return out

main()
