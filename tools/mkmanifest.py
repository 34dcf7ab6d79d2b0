#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (sa/checks/*.py META) and properties.jsonl."""
import glob
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True

NA = {
    'N01': 'accuracy of an approximation by transcendental functions and a fitted spectral table is a numeric error bound; '
           'no static argument in reach bounds it (the ranges of the results are claimed in C19 and C01)',
    'N02': 'dab positions are accumulated floating point state over an unbounded event history; the spacing is a runtime '
           'quantity without a static bound',
    'N03': 'the number of dabs of one event depends on distances and settings at run time; there is no static bound '
           '(the loop is only left when the accumulated distance is used up)',
    'N04': 'whether the run-length code of an antialiased rotated ellipse fits the buffer depends on the sequence of '
           'computed opacities; a static bound is the trivial worst case, which does not fit',
    'N05': 'period and independence of a lagged Fibonacci generator are number-theoretic facts, not visible to dataflow',
    'N06': 'inverse up to rounding is a numeric error bound over case splits on hue sectors; only ranges are decided (C19)',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(V, 'sa', 'checks', i.lower() + '.py')
        if os.path.exists(f):
            m = importlib.import_module('sa.checks.' + i.lower()).META
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'technique': m['technique'], 'level': m['level'], 'level_note': m['note']})
        elif i in NA:
            na.append({'property': i, 'reason': NA[i]})
        else:
            na.append({'property': i, 'reason': 'no check built yet'})
    d = {'version': 1, 'setup_cmd': 'python3 check.py --help', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks are static: they compile /repo to LLVM IR on every run and analyse that; nothing of libmypaint is executed. '
                  'No hooks in /repo are needed.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
