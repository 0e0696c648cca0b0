#!/usr/bin/env python3
"""seedcheck.py [ids...]: runs each planted change's property check against a
scratch copy of the repository carrying that change (LCV_REPO) and reports
which are caught."""
import sys, os, json, glob, subprocess, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(x) for x in glob.glob(os.path.join(ROOT, 'seeded/*')))
for i in ids:
    d = os.path.join(ROOT, 'seeded', i); m = json.load(open(d + '/meta.json'))
    tmp = tempfile.mkdtemp(prefix='sc-')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/patch.diff' % (tmp, tmp, d), shell=True, check=True)
    t = time.time()
    p = subprocess.run(['python3', ROOT + '/check.py', m['property'], 'quick'], capture_output=True, text=True, env=dict(os.environ, LCV_REPO=tmp, VERIF_SEED='1'))
    v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    rp = os.path.join(ROOT, 'evidence', m['property'] + '.replay.txt')
    what = ''
    if v and 'no-failing' not in v[0] and os.path.exists(rp): what = open(rp).read().split('\n')[2][:120]
    ev = json.load(open(os.path.join(ROOT, 'evidence', m['property'] + '.json')))
    print('%s %s %s rc=%d %.0fs obligations-failed=%d status=%s %s %s' % ('CAUGHT' if p.returncode == 1 and v else 'missed', i, m['property'], p.returncode, time.time() - t, len(ev['coverage'].get('failed_obligations', [])),
      ','.join(x['status'] for x in ev['coverage']['unit_status'].values()), 'NFIF' if v and 'no-failing' in v[0] else '', what), flush=True)
    if p.returncode not in (0, 1): print(p.stdout[-500:], p.stderr[-1500:])
    shutil.rmtree(tmp)
