#!/usr/bin/env python3
"""mkseed.py [ids...]: writes seeded/<id>/ from tools/seeds/<id>.py
   (P property, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO c++ text, FLAGS)"""
import sys, os, glob, json, shutil, subprocess, tempfile, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import MLIRF
TFCQ = ('-iquote "$here/inc" -isystem /opt/lce/venv/lib/python3.12/site-packages/pybind11/include -isystem /usr/include/python3.12',) + MLIRF + ('-lpython3.12',)
PYF = ('-fno-sanitize=vptr -iquote "$here/inc" -isystem /opt/lce/venv/lib/python3.12/site-packages/pybind11/include -isystem /usr/include/python3.12 -lpython3.12',)
def build(i):
    g = {}; exec(open(os.path.join(ROOT, 'tools/seeds', i + '.py')).read(), g)
    d = os.path.join(ROOT, 'seeded', i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='seed-')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm base' % (tmp, tmp), shell=True, check=True)
    for f, old, new in g['EDITS']:
        p = os.path.join(tmp, f); t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=tmp, capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': g['P'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    if 'DEMO' in g:
        open(os.path.join(d, 'demo.cc'), 'w').write(g['DEMO'])
        shutil.copytree(os.path.join(ROOT, 'stubs'), os.path.join(d, 'inc'))
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# compiles the real code of the current directory (the repository) against the
# stand-in headers beside this script and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -r "$t"' EXIT
clang++-18 -std=c++17 -O1 -w %s -I"$here/inc" -I"$here" -I"$PWD" "$here/demo.cc" -o "$t/demo" || exit 3
"$t/demo"
''' % ' '.join(g.get('FLAGS', [])))
    elif 'NATIVE' in g and g['NATIVE'][0] == 'patterns.py':
        args = g['NATIVE'][1]
        for a, n in [('native', 'patterns.py'), ('lcv', 'tdx.py'), ('lcv', 'translate.py')] + [('specs', a.split(':')[1] + '.vs') for a in args if ':' in a]:
            os.makedirs(os.path.join(d, a), exist_ok=True); shutil.copy(os.path.join(ROOT, a, n), os.path.join(d, a))
        shutil.copytree(os.path.join(ROOT, 'stubs_td'), os.path.join(d, 'stubs_td'))
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# evaluates the rewrite patterns of the current directory (the repository), as
# llvm-tblgen elaborates them, on random tensors: the matched operations and
# their replacement have to give the same values
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 LCV_REPO_DIR="$PWD" timeout 250 /opt/lce/venv/bin/python "$here/native/patterns.py" %s
''' % ' '.join(args))
    elif 'NATIVE' in g and g['NATIVE'][0].endswith('.py'):
        src, args = g['NATIVE']
        shutil.copy(os.path.join(ROOT, 'native', src), d)
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# runs the real code of the current directory (the repository) on generated
# models and compares the results with the definition
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 LCV_REPO_DIR="$PWD" timeout 250 /opt/lce/venv/bin/python "$here/%s" %s
''' % (src, ' '.join(args)))
    elif 'NATIVE' in g:
        src, args = g['NATIVE']
        for x in [src] + [os.path.basename(h) for h in glob.glob(os.path.join(ROOT, 'native', '*.h'))]: shutil.copy(os.path.join(ROOT, 'native', x), d)
        shutil.copytree(os.path.join(ROOT, 'stubs'), os.path.join(d, 'inc'))
        mlir = 'larq_compute_engine/mlir' in open(os.path.join(ROOT, 'native', src)).read()
        if mlir and src != 'batch.cc': shutil.copytree(os.path.join(ROOT, 'stubs_mlir'), os.path.join(d, 'inc'), dirs_exist_ok=True)
        py = src == 'pywrap.cc'; tfc = src == 'passes.cc'
        if tfc: shutil.rmtree(os.path.join(d, 'inc')); [shutil.copytree(os.path.join(ROOT, q), os.path.join(d, 'inc'), dirs_exist_ok=True) for q in ('stubs', 'stubs_tfc')]
        if py or tfc: shutil.copytree(os.path.join(ROOT, 'stubs_py'), os.path.join(d, 'inc'), dirs_exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# compiles the real code of the current directory (the repository) against the
# stand-in headers beside this script and compares it with the definition
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -r "$t"' EXIT
clang++-18 -std=c++17 -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -I"$here/inc" -I"$here" -I"$PWD" "$here/%s" %s -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 250 "$t/demo" %s
''' % (src, ' '.join(g.get('FLAGS', PYF if py else TFCQ if tfc else MLIRF if mlir else ())), ' '.join(args)))
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(g['SH'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    # confirm: passes clean, fails patched
    demo = tempfile.mkdtemp(prefix='demo-'); 
    shutil.copytree(d, demo, dirs_exist_ok=True); os.remove(demo + '/patch.diff'); os.remove(demo + '/meta.json')
    a = subprocess.run(['bash', demo + '/demo.sh'], cwd=tmp, capture_output=True, text=True)
    if g.get('INREPO'): tmp2 = '/repo'
    subprocess.run('git stash -q', shell=True, cwd=tmp, check=True)
    b = subprocess.run(['bash', demo + '/demo.sh'], cwd=tmp, capture_output=True, text=True)
    ok = a.returncode != 0 and a.returncode != 3 and b.returncode == 0
    print('%s %s: patched rc=%d clean rc=%d %s' % ('ok ' if ok else 'BAD', i, a.returncode, b.returncode, (a.stdout + a.stderr).strip()[-150:]))
    if not ok: print('CLEAN:', b.stdout[-800:], b.stderr[-1500:])
    shutil.rmtree(tmp); shutil.rmtree(demo)
    return ok
ids = sys.argv[1:] or sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(ROOT, 'tools/seeds/*.py')))
sys.exit(0 if all([build(i) for i in ids]) else 1)
