#!/usr/bin/env python3
"""mutate.py SPEC [filter]: SPEC is a python file with M = [(checks, file, old, new[, count])]; each mutation is made in a
scratch copy and the named checks run on it.  Prints whether each was reported."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

spec = {}
exec(open(sys.argv[1]).read(), spec)
flt = sys.argv[2] if len(sys.argv) > 2 else ''


def one(k):
    checks, f, old, new = spec['M'][k][:4]
    d = tempfile.mkdtemp(prefix='mm.', dir='/tmp')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s; git -C %s init -q' % (d, d), shell=True, check=True)
        p = os.path.join(d, f)
        s = open(p).read()
        if isinstance(old, str):
            old, new = [old], [new]
        for o, n in zip(old, new):
            if o not in s:
                return 'NOT FOUND %r' % o[:50]
            s = s.replace(o, n, spec['M'][k][4] if len(spec['M'][k]) > 4 else 1)
        open(p, 'w').write(s)
        r = subprocess.run(['gcc', '-fsyntax-only', '-w', '-I' + d, '-I/repo', p], capture_output=True, text=True) if 0 else None
        if r is not None and r.returncode:
            return 'DOES NOT COMPILE ' + r.stderr[:300]
        out = ''
        for c in checks.split():
            r = subprocess.run(['timeout', '700', 'python3', '/verif/check.py', c], capture_output=True, text=True, env=dict(os.environ, SA_REPO=d))
            o = [l for l in r.stdout.splitlines() if '[key' in l or 'ERROR' in l]
            out += '%s rc=%d %s\n' % (c, r.returncode, '\n      '.join(l[:230] for l in o[:3]))
        return out
    finally:
        shutil.rmtree(d)


ks = [k for k, m in enumerate(spec['M']) if flt in m[0]]
with ThreadPoolExecutor(int(os.environ.get('MJ', '4'))) as ex:
    for k, o in zip(ks, ex.map(one, ks)):
        m = spec['M'][k]
        print('== %s | %s -> %s\n   %s' % (m[1], repr(m[2])[:70], repr(m[3])[:70], o))
