#!/usr/bin/env python3
"""plant.py [id...]: makes /verif/seeded/<id> from tools/bugs/<id>.py and validates it in a scratch copy of /repo.
A spec sets: prop, edits [(file, old, new)], demo (C source), needs, breaks."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = '/tmp/pb'
DEMO = '''#!/bin/bash
# Builds the program beside this file with the library sources of the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
gcc -O1 -w %s -DHAVE_CONFIG_H -D_GNU_SOURCE -I. -I_build $(pkg-config --cflags glib-2.0 gobject-2.0 json-c) "$d/demo.c" %s -o "$t/demo" $(pkg-config --libs glib-2.0 gobject-2.0 json-c) -lm || exit 8
cd "$t" && timeout 120 ./demo
'''
SRC = 'brushmodes.c fifo.c helpers.c mypaint.c mypaint-brush.c mypaint-brush-settings.c mypaint-fixed-tiled-surface.c mypaint-mapping.c mypaint-matrix.c mypaint-rectangle.c mypaint-surface.c mypaint-symmetry.c mypaint-tiled-surface.c operationqueue.c rng-double.c tilemap.c'


def sh(cmd, cwd=PB, ok=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if ok and r.returncode:
        raise SystemExit('%s failed\n%s' % (cmd, r.stdout[-2000:]))
    return r


def fresh():
    if os.path.exists(PB):
        shutil.rmtree(PB)
    sh('cp -a /repo ' + PB, cwd='/', ok=True)


def one(bid):
    ns = {}
    exec(open('%s/tools/bugs/%s.py' % (V, bid)).read(), ns)
    sh('git checkout -q -- .', ok=True)
    for f, a, b in ns['edits']:
        s = open('%s/%s' % (PB, f)).read()
        if s.count(a) != 1:
            raise SystemExit('%s: %d matches of %r in %s' % (bid, s.count(a), a, f))
        open('%s/%s' % (PB, f), 'w').write(s.replace(a, b))
    diff = sh('git diff', ok=True).stdout
    d = '%s/seeded/%s' % (V, bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.c', 'w').write(ns['demo'].lstrip())
    src = ns.get('src', SRC)
    open(d + '/demo.sh', 'w').write(DEMO % (ns.get('flags', ''), src))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    base = sh('git stash -q && bash %s/demo.sh; r=$?; git stash pop -q; exit $r' % d)
    bug = sh('bash %s/demo.sh' % d)
    print('%s: base exit %d, with bug exit %d' % (bid, base.returncode, bug.returncode), '' if base.returncode == 0 and bug.returncode not in (0, 8, 9) else 'NOT VALID\n' + base.stdout[-800:] + '---\n' + bug.stdout[-800:])
    if '--test' in sys.argv:
        r = sh('make -C _build -j8 >/dev/null 2>&1; make -C _build/tests -j8 check SUBDIRS=. 2>&1 | grep -E "^(PASS|FAIL|# )"')
        print('   ', r.stdout.replace('\n', ' '))
    sh('git checkout -q -- .', ok=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--keep' not in sys.argv or not os.path.exists(PB):
        fresh()
    for b in ids or sorted(x[:-3] for x in os.listdir(V + '/tools/bugs') if x.endswith('.py')):
        one(b)
