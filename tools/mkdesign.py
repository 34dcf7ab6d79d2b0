#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md (defects, planted bugs)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
rows = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl'))]
d = '<!-- defects -->\n| property | commit | what failed |\n|---|---|---|\n' + ''.join(
    '| %s | %s | %s |\n' % (r['property'], r['commit'], r['what'].split(r['commit'])[1].strip()) for r in rows if r['status'] == 'fixed') + '<!-- end -->'
b = '<!-- planted -->\n| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')) + glob.glob(os.path.join(V, 'planted', '*', 'meta.json')), key=lambda p: p.split('/')[-2]):
    j = json.load(open(m))
    b += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), j['what_it_breaks'], j['needs'], j.get('caught_by', j['property']))
b += '<!-- end -->'
for tag, text in (('DEFECTS', d), ('PLANTED', b)):
    low = tag.lower()
    if '<!-- %s -->' % low in s:
        s = re.sub(r'<!-- %s -->.*?<!-- end -->' % low, lambda _: text, s, flags=re.S)
    else:
        s = s.replace('\n%s\n' % tag, '\n%s\n' % text)
open(p, 'w').write(s)
