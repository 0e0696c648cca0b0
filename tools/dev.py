#!/usr/bin/env python3
"""dev.py DRIVER SPEC [verus args]: translate and verify one unit, printing errors (development aid)"""
import sys, os; R0 = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R0 + '/lcv'); sys.path.insert(0, R0)
import run, translate as T
drv, spec = sys.argv[1], sys.argv[2]
from props import MLIRD, ARM64
pre, extra = MLIRD.get(drv, (['compute_engine::', 'tflite::', 'mlir::'], ARM64 if '--arm' in sys.argv else ()))
sys.argv = [a for a in sys.argv if a != '--arm']
d = run.extract(R0 + '/specs/' + drv, list(pre), extra)
vac = '--vac' in sys.argv
tr, sp, txt = run.gen(d, open(R0 + '/specs/' + spec).read(), vac)
os.makedirs('/tmp/vt', exist_ok=True)
out = '/tmp/vt/' + spec.replace('.vs', '.rs'); open(out, 'w').write(txt)
if '--gen' in sys.argv: sys.exit(0)
r = run.verus(out, [a for a in sys.argv[3:] if a != '--vac'])
for e in r['errors'][:12]: print(e['rendered'][:1800])
if not r['errors'] and r['status'] != 'verified': print(r['raw'][-3000:])
print(r['status'], 'verified', r['verified'], 'errors', r['nerr'], '%.1fs' % r['wall'])
for k, v in sorted(r['fn'].items(), key=lambda z: -z[1]['ms'])[:6]: print('  ', v['ms'], v['rlimit'], k, v['ok'])
