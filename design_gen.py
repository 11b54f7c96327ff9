#!/usr/bin/env python3
"""Rewrites the per-property part and the catch table of DESIGN.md from properties_table.py, checks.py and seeded/."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta, checks
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
for p in meta.P:
    pid = p['id']
    out.append('### %s %s\n' % (pid, p['title']))
    hs = checks.PROPS[pid]['harnesses']('quick')
    ht = checks.PROPS[pid]['harnesses']('thorough')
    out.append('Decided by CBMC over %s; harness `%s`. Quick: %d solver runs, thorough: %d.' % (', '.join(p['anchors']['files']), '`, `'.join(sorted({h.file for h in hs})), len(hs), len(ht)))
    seen = []
    for h in hs:
        b = re.sub(r'\d+', 'N', h.bounds)
        if b not in seen:
            seen.append(b)
            if len(seen) <= 8:
                out.append('- `%s`: %s' % (h.name, h.bounds))
    out.append('')
    out.append('Why tests cannot: ' + p['why_tests_cant'])
    out.append('')
tab = ['| planted change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(HERE + '/seeded')) if os.path.isdir(HERE + '/seeded') else []:
    f = HERE + '/seeded/' + d + '/meta.json'
    if os.path.exists(f):
        m = json.load(open(f))
        tab.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m.get('caught_by', m['property'] + ' quick')))
s = open(HERE + '/DESIGN.md').read()
for tag, body in (('PROPS', '\n'.join(out)), ('CATCH', '\n'.join(tab))):
    s = re.sub(r'(<!-- %s -->).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + '\n' + body + '\n' + m.group(2), s, flags=re.S)
open(HERE + '/DESIGN.md', 'w').write(s)
