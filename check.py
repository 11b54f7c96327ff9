#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--only NAME] [--keep]

Decides one property by symbolic execution of /repo's current sources (CBMC).
exit 0: held on everything explored; exit 1 + VIOLATION line: broken, replayed
against the real code; exit 2: no verdict."""
import json, os, sys, shutil, tempfile, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from vf import driver
from checks import PROPS

VERIF = driver.VERIF


def known_findings(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                e = json.loads(l)
                if e.get('property') == pid and e.get('status') == 'open':
                    out.append(e)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = None
    keep = '--keep' in sys.argv
    for a in sys.argv[1:]:
        if a.startswith('--only='):
            only = a.split('=', 1)[1]
    t0 = time.time()
    prop = PROPS[pid]
    hs = [h for h in prop['harnesses'](tier) if not only or h.name == only]
    scratch = tempfile.mkdtemp(prefix='vh_%s_' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    b = driver.Build(scratch)
    rc = 0
    try:
        err = None
        # one compilation per distinct unit first, so harness threads share it
        for h in hs:
            try:
                b.compile(h, 'nat')
                b.compile(h, 'goto')
            except driver.Fail as e:
                err = str(e)
        if err:
            print('ERROR property=%s %s' % (pid, err))
            results = [{'name': 'build', 'status': 'error: ' + err, 'violations': [], 'wall_s': 0}]
        else:
            jobs = int(os.environ.get('VH_JOBS', prop.get('jobs', 8)))
            with ThreadPoolExecutor(jobs) as ex:
                results = list(ex.map(lambda h: driver.check_harness(b, h, tier), hs))
        viol = []
        kf = known_findings(pid)
        for r in results:
            for v in r['violations']:
                hit = None
                for e in kf:
                    if e['harness'] == r['name'] and re.search(e['match'], '%s | %s | %s' % (v['property'], v['description'], v['replay'])):
                        hit = e
                if hit:
                    v['known'] = hit['what']
                else:
                    viol.append((r, v))
        for e in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
        hmap = {h.name: h for h in hs}
        for r in results:
            h = hmap.get(r['name'])
            print('%-28s %-14s proved=%s reached=%s unwind=%s queries=%s solver=%.1fs wall=%.1fs %s' % (
                r['name'], 'VIOLATED' if r['violations'] else r['status'][:200], r.get('proved'), r.get('reached'), r.get('unwind'),
                r.get('queries'), r.get('solver_s', 0), r['wall_s'], 'vars=%s clauses=%s' % (r.get('vars'), r.get('clauses'))))
        for r, v in viol:
            d = os.path.join(VERIF, 'evidence', 'replay_%s_%s' % (pid, r['name']))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'inputs.txt'), 'w') as fh:
                fh.write('\n'.join(map(str, v['inputs'])) + '\n')
            with open(os.path.join(d, 'violation.json'), 'w') as fh:
                json.dump({k: v[k] for k in ('property', 'description', 'inputs', 'replay', 'source') if k in v}, fh, indent=1)
            with open(os.path.join(d, 'replay.sh'), 'w') as fh:
                fh.write('#!/bin/sh\n# rebuilds the harness natively from /repo and runs it on the solver\'s inputs\n'
                         'exec python3 %s/replay.py %s %s %s "$(dirname "$0")/inputs.txt"\n' % (VERIF, pid, r['name'], tier))
            os.chmod(os.path.join(d, 'replay.sh'), 0o755)
            print('  counterexample: %s' % v['description'])
            print('  real code: %s' % v['replay'])
            print('  inputs: %s' % (v['inputs'][:60],))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.join(d, 'replay.sh')))
        if viol:
            rc = 1
        elif any(r['status'] != 'ok' and not r['violations'] for r in results):
            # everything explored held; what could not be decided is reported, and
            # no verdict is given when less than half of the harnesses decided
            rc = 0 if 2 * sum(r['status'] == 'ok' for r in results) >= len(results) else 2
            for r in results:
                if r['status'] != 'ok':
                    print('INCONCLUSIVE property=%s %s: %s' % (pid, r['name'], r['status']))
                for u in r.get('unconfirmed', []):
                    print('   unconfirmed: %s %s inputs=%s native=%s' % (u['property'], u['description'], u.get('inputs', [])[:80], u.get('replay')))
        ev = {
            'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other',
            'coverage': {
                'explanation': 'Bounded symbolic execution of the real C sources by CBMC (SAT back end): every assertion is decided for all values of the symbolic inputs within the stated bounds, unwinding assertions included. ' + prop.get('explanation', ''),
                'harnesses': [{
                    'name': r['name'], 'bounds': r.get('bounds'), 'unwind': r.get('unwind'), 'assertions_proved': r.get('proved'),
                    'reachability_witnesses': r.get('reached'), 'solver_queries': r.get('queries'), 'solver_s': round(r.get('solver_s', 0), 2),
                    'sat_vars': r.get('vars'), 'sat_clauses': r.get('clauses'), 'functions_encoded': r.get('functions'),
                    'functions_replaced_by_stubs': r.get('stubs'), 'status': r['status'], 'wall_s': r['wall_s']} for r in results],
                'functions_encoded': sorted({f for r in results for f in r.get('functions', [])}),
                'assertions_proved': sum(r.get('proved', 0) or 0 for r in results),
                'solver_queries': sum(r.get('queries', 0) or 0 for r in results),
                'solver_s': round(sum(r.get('solver_s', 0) or 0 for r in results), 2),
                'known_findings': [e['what'] for e in kf],
            },
            'assumptions': prop.get('assumptions', []) + ['gcc/goto-cc agree on the C semantics (x86-64 LP64)', 'memory allocation succeeds unless a harness says otherwise'],
            'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        if not only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
                json.dump(ev, fh, indent=1)
    finally:
        if keep:
            print('scratch kept:', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    print('%s %s exit=%d wall=%.1fs' % (pid, tier, rc, time.time() - t0))
    sys.exit(rc)


main()
