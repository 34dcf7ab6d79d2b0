"""Collects obligations and violations of one check run, writes evidence, decides the exit status."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


TRUSTED = [
    'clang 18 front end (C source to LLVM IR at -O0 plus mem2reg; the compiler that ships the library may be another one)',
    'the analyser in /verif/sa (abstract interpreter, its numeric domain and its models of libc functions)',
    'floating point arithmetic is treated as exact real arithmetic with finite values',
]


class Broken(Exception):
    """the check itself could not be carried out: error exit, never a verdict"""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl = {}            # rule -> [discharged, failed]
        self.viol = {}           # key -> text
        self.functions = set()
        self.assumptions = []
        self.notes = {}
        self.minimum = {}

    def analysed(self, *names):
        self.functions.update(names)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def ob(self, rule, ok, where='', msg='', key=None):
        """one obligation of a rule at a place; failed ones are violations"""
        c = self.obl.setdefault(rule, [0, 0])
        if ok:
            c[0] += 1
        else:
            c[1] += 1
            k = key or '%s@%s' % (rule, strip_line(where))
            if k not in self.viol:
                self.viol[k] = '%s: rule "%s": %s' % (where, rule, msg)
        return ok

    def require(self, rule, n):
        """at least n obligations of a rule must have been checked, otherwise the check is broken"""
        self.minimum[rule] = n

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def set(self, name, v):
        self.notes[name] = v

    # ------------------------------------------------------------------
    def finish(self, meta):
        for r, n in self.minimum.items():
            c = self.obl.get(r, [0, 0])
            if sum(c) < n and not self.viol:
                raise Broken('rule "%s" matched %d instances, expected at least %d' % (r, sum(c), n))
        if not self.obl:
            raise Broken('no obligation was generated')
        known = load_known(self.prop)
        fresh, listed = [], []
        for k, txt in self.viol.items():
            (listed if k in known else fresh).append((k, txt))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, '%s.report.txt' % self.prop)
        total = sum(sum(c) for c in self.obl.values())
        failed = sum(c[1] for c in self.obl.values())
        with open(rep, 'w') as f:
            f.write('property %s, tier %s\n' % (self.prop, self.tier))
            for r, c in sorted(self.obl.items()):
                f.write('rule %-60s discharged %d failed %d\n' % (r, c[0], c[1]))
            for k, t in fresh:
                f.write('\nVIOLATION key=%s\n  %s\n' % (k, t))
            for k, t in listed:
                f.write('\nKNOWN key=%s\n  %s\n' % (k, t))
        level = meta['level']
        cov = {
            'functions_analysed': sorted(self.functions),
            'rules': {r: {'discharged': c[0], 'failed': c[1]} for r, c in sorted(self.obl.items())},
            'explanation': meta['explanation'],
        }
        cov.update(self.notes)
        if level == 'proof':
            cov.update({'obligations': total, 'discharged': total - failed,
                        'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (self.prop, self.tier),
                        'trusted_base': TRUSTED + meta.get('trusted', [])})
        d = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
             'coverage': cov, 'assumptions': self.assumptions + meta.get('assumptions', []),
             'wall_s': round(time.time() - self.t0, 3), 'violations': len(fresh)}
        with open(os.path.join(ev, '%s.json' % self.prop), 'w') as f:
            json.dump(d, f, indent=1)
            f.write('\n')
        for r, c in sorted(self.obl.items()):
            print('%s: %-58s %5d discharged %3d failed' % (self.prop, r, c[0], c[1]))
        for k, t in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, t))
        for k, t in fresh:
            print('  %s [key %s]' % (t, k))
        if fresh:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        print('%s: held on everything analysed (%d functions, %d obligations, %.1f s)'
              % (self.prop, len(self.functions), total, time.time() - self.t0))
        return 0


def strip_line(w):
    """file:line (fn) -> file (fn): known findings are identified without line numbers"""
    import re
    return re.sub(r':\d+', '', w)


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d['property'] == prop and d['status'] == 'known':
                for k in d['keys']:
                    out[k] = d
    return out
