#!/usr/bin/env python3
"""dbg.py ID HARNESS [seconds] [extra cbmc args]: run one harness's cbmc verbosely, print the phases and hot loops"""
import sys,os,re,subprocess,tempfile,collections,shutil
sys.path.insert(0,'/verif')
from vf import driver
from checks import PROPS
pid,name=sys.argv[1:3]; sec=int(sys.argv[3]) if len(sys.argv)>3 else 60
h=[h for h in PROPS[pid]['harnesses']('quick') if h.name==name][0]
sc=tempfile.mkdtemp(prefix='vd_'); b=driver.Build(sc)
try:
    b.compile(h,'nat'); b.compile(h,'goto')
    wd,gb,f,st,miss,defs=driver.build_goto(b,h,'quick')
    cmd=['cbmc',gb,'--verbosity','9','--flush','--unwind',str(h.unwind),'--unwinding-assertions','--no-standard-checks','--no-malloc-may-fail','--slice-formula','--drop-unused-functions','--object-bits',str(h.objbits or 12)]
    if h.checks: cmd+=['--bounds-check','--pointer-check']
    for u in h.unwindset: cmd+=['--unwindset',u]
    if h.fs_array: cmd+=['--max-field-sensitivity-array-size',str(h.fs_array)]
    if h.solver: cmd+=['--sat-solver',h.solver]
    cmd+=h.cbmc+sys.argv[4:]
    if os.environ.get('VGB'): shutil.copy(gb,os.environ['VGB'])
    out=open(sc+'/out','w')
    try: subprocess.run(cmd,stdout=out,stderr=out,timeout=sec)
    except subprocess.TimeoutExpired: print('TIMEOUT')
    if os.environ.get('VDBG'): shutil.copy(sc+'/out',os.environ['VDBG'])
    loops=collections.Counter(); last=''
    for l in open(sc+'/out',errors='replace'):
        m=re.match(r'(?:Unwinding|Not unwinding) (?:loop|recursion) (\S+) iteration\s+(\d+)(.*)',l)
        if m: loops[m.group(1)]+=1; last=l.strip()[:150]
        elif re.match(r'Runtime|size of|Generated|\d+ variables|VERIFICATION|.*FAILURE|\*\* ',l): print(l.strip()[:200])
    print(", ".join("%s:%d"%x for x in loops.most_common(60))); print('last:',last)
finally: shutil.rmtree(sc)
