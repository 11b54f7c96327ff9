#!/usr/bin/env python3
"""replay.py <property> <harness> <tier> <inputs.txt>: run a counterexample on the real code."""
import os, sys, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import driver
from checks import PROPS
pid, name, tier, f = sys.argv[1:5]
h = [x for x in PROPS[pid]['harnesses'](tier) if x.name == name][0]
sc = tempfile.mkdtemp(prefix='vhr_')
try:
    b = driver.Build(sc)
    defs = driver.DEFS + h.defs + ['-DVH_TIER=%d' % (2 if tier == 'thorough' else 1), '-DVH_%s' % ('THOROUGH' if tier == 'thorough' else 'QUICK')] + (['-DVH_VFS'] if h.vfs else [])
    ok, what, _ = driver.replay(b, h, sc, defs, [int(x) for x in open(f).read().split()], hang_ok=True)
    print(('REPRODUCED: ' if ok else 'not reproduced: ') + what)
finally:
    shutil.rmtree(sc, ignore_errors=True)
sys.exit(1 if ok else 0)
