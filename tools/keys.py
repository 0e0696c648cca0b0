#!/usr/bin/env python3
"""keys.py DRIVER [pattern]: contract keys of the functions a driver brings in"""
import sys, os; R0 = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R0 + '/lcv')
import run, translate as T
sys.path.insert(0, R0)
from props import MLIRD
pre, extra = MLIRD.get(sys.argv[1], (['compute_engine::', 'tflite::', 'mlir::'], ()))
d = run.extract(R0 + '/specs/' + sys.argv[1], list(pre), extra)
for f in d['functions']:
    k = T.Tr.key(f)
    if len(sys.argv) < 3 or sys.argv[2] in k: print(k, '::', f['fty'], f['loc'].get('f', '').split('/')[-1], f['loc'].get('l'))
