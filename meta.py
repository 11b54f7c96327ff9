#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def p(id, title, statement, over, text, why, files, mech, note, tech='bounded symbolic execution with CBMC'):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=m[0], where='src/' + m[1]) for m in mech]), note=note, tech=tech))


exec(open(os.path.join(V, 'properties_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for e in P + [n for n in NA]:
        fh.write(json.dumps({k: v for k, v in e.items() if k not in ('note', 'tech', 'reason')}) + '\n')
man = dict(version=1, setup_cmd='python3 setup.py',
           hooks=dict(guard='none (no hooks in /repo)', enable='the checks compile /repo/src with goto-cc and gcc unchanged; calls into the C library are redirected on the command line', source_commits=[]),
           checks=[dict(property=e['id'], quick_cmd='python3 check.py %s quick' % e['id'], thorough_cmd='python3 check.py %s thorough' % e['id'],
                        evidence_file='evidence/%s.json' % e['id'], technique=e['tech'], level='other', level_note=e['note']) for e in P],
           not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA],
           notes='Every check rebuilds from /repo/src; counterexamples are replayed against the same sources compiled by gcc with AddressSanitizer before they are reported.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
