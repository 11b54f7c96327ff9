"""Solver-based checking of crashmail's real C sources with CBMC.

For every harness: copy /repo/src to a scratch directory, compile every source
file of the unit with goto-cc (same defines as the real build), drop the bodies
of the functions the harness replaces by stubs, link, and let CBMC decide every
assertion for all values of the symbolic inputs within the unwinding bound.
A counterexample is replayed against the same sources compiled by gcc; only one
that reproduces is a violation.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
VF = os.path.join(VERIF, 'vf')
HARNESS = os.path.join(VERIF, 'harness')
NPROC = os.cpu_count() or 4

DEFS = ['-DPLATFORM_LINUX', '-D__LINUX__', '-DMSGBASE_MSG', '-DMSGBASE_JAM', '-DNODELIST_CMNL',
        '-DNODELIST_V7P', '-D__NO_CTYPE', '-Dmain=vh_repo_main']
# calls into the outside world are routed to the file-system/time model
RENAME = ['fopen', 'fclose', 'fread', 'fwrite', 'fgets', 'fputs', 'fputc', 'fgetc',
          'feof', 'ferror', 'fseek', 'fseeko', 'ftell', 'ftello', 'fflush', 'fileno', 'fcntl',
          'vfprintf', 'rename', 'remove', 'mkdir', 'system', 'getcwd', 'chdir', 'sleep',
          'getpid', 'time', 'localtime', 'gmtime', 'mktime', 'qsort', 'exit', 'rewind', 'setbuf', 'unlink',
          'open', 'close', 'read', 'write', 'lseek', 'fdopen', 'ftruncate', 'fsync', 'opendir', 'readdir', 'closedir', 'signal', 'getenv']
DEFS += ['-D%s=vh_%s' % (f, f) for f in RENAME]

UNITS = {
    # unit name -> globs relative to src/
    'crashmail': ['crashmail/*.c', 'shared/*.c', 'jamlib/*.c', 'cmnllib/*.c', 'oslib_linux/osfile.c', 'oslib_linux/osmem.c', 'oslib_linux/osmisc.c', 'oslib_linux/ospattern.c', 'oslib_linux/os.c'],
}
for t in ('crashmaint', 'crashlist', 'crashgetnode', 'crashstats', 'crashwrite', 'crashexport', 'crashlistout'):
    UNITS[t] = ['tools/%s.c' % t, 'shared/*.c', 'jamlib/*.c', 'cmnllib/*.c', 'oslib_linux/osfile.c', 'oslib_linux/osmem.c', 'oslib_linux/osmisc.c', 'oslib_linux/ospattern.c', 'oslib_linux/os.c']


class Harness:
    def __init__(self, name, file, unit='crashmail', defs=(), unwind=20, timeout=240,
                 checks=True, scale=None, vfs=False, objbits=None, cbmc=(), bounds='', units=None,
                 cut=(), unwindset=(), max_unwind=None, mem=6, fs_array=None, solver=None, timemodel=True):
        self.name, self.file, self.unit, self.defs = name, file, unit, list(defs)
        self.unwind, self.timeout, self.checks = unwind, timeout, checks
        self.scale = scale or {}
        self.vfs = vfs
        self.objbits, self.cbmc, self.bounds = objbits, list(cbmc), bounds
        self.units = units          # restrict to these globs
        self.unwindset = list(unwindset)
        self.max_unwind = max_unwind or unwind * 4
        self.mem = mem              # GB
        self.fs_array = fs_array
        self.solver = solver
        self.cut = list(cut)


class Fail(Exception):
    pass


def sh(cmd, timeout=600, mem=None, cwd=None, env=None):
    pre = None
    if mem:
        import resource

        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                             preexec_fn=pre, env=env, start_new_session=True)
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('latin-1'), err.decode('latin-1')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -99, '', 'timeout'


def complete_arrays(d):
    """CBMC mishandles arrays declared without a size in another file: give
    'extern T name[];' the size of its initialiser (no change of meaning)."""
    files = {p: open(p, 'rb').read().decode('latin-1') for p in glob.glob(d + '/**/*.[ch]', recursive=True)}
    for p, s in files.items():
        def size(m):
            for t in files.values():
                x = re.search(r'(?m)^[^\n;]*\b%s\[\]\s*=\s*\{([^{}]*)\}' % re.escape(m.group(2)), t)
                if x:
                    n = len([e for e in re.findall(r'"(?:[^"\\]|\\.)*"|[^,"]+', x.group(1)) if e.strip()])
                    return '%s%s[%d];' % (m.group(1), m.group(2), n)
            return m.group(0)
        n = re.sub(r'(?m)^(\s*extern\s[^;\n]*?)(\w+)\[\];', size, s)
        if n != s:
            open(p, 'wb').write(n.encode('latin-1'))


class Build:
    """Sources of one run, compiled once per (unit, scale) and shared by harnesses."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.trees = {}
        self.objs = {}
        self.pool = ThreadPoolExecutor(NPROC)

    def tree(self, scale):
        key = json.dumps(scale, sort_keys=True)
        if key in self.trees:
            return self.trees[key]
        d = os.path.join(self.scratch, 'src_' + hashlib.sha1(key.encode()).hexdigest()[:8])
        shutil.copytree(os.path.join(REPO, 'src'), d, ignore=shutil.ignore_patterns('*.o', '*.a', 'obj'))
        if scale:
            for p in glob.glob(d + '/**/*.[ch]', recursive=True):
                s = open(p, 'rb').read().decode('latin-1')
                n = s
                for k, v in scale.items():
                    n = re.sub(r'(?m)^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\S+' % re.escape(k), r'\g<1>%s' % v, n)
                if n != s:
                    open(p, 'wb').write(n.encode('latin-1'))
        complete_arrays(d)
        self.trees[key] = d
        return d

    def sources(self, h):
        d = self.tree(h.scale)
        srcs = []
        for g in (h.units or UNITS[h.unit]):
            m = sorted(glob.glob(os.path.join(d, g)))
            srcs += m
        return d, srcs

    def compile(self, h, kind):
        """kind: 'goto' | 'nat' | 'asan:<init>' -> list of objects"""
        key = (h.unit, json.dumps(h.scale, sort_keys=True), json.dumps(h.units), kind)
        if key in self.objs:
            return self.objs[key]
        d, srcs = self.sources(h)
        od = os.path.join(self.scratch, 'o_' + hashlib.sha1(repr(key).encode()).hexdigest()[:8])
        os.makedirs(od, exist_ok=True)

        def one(s):
            o = os.path.join(od, os.path.relpath(s, d).replace('/', '_') + '.o')
            cc = compiler(kind)
            rc, out, err = sh(cc + DEFS + ['-I', d, '-w', '-c', s, '-o', o], timeout=120)
            if rc != 0:
                raise Fail('cannot compile %s: %s' % (s, (err or out)[-600:]))
            return s, o
        res = list(self.pool.map(one, srcs))
        self.objs[key] = res
        return res


def compiler(kind):
    if kind == 'goto':
        return ['goto-cc', '-DVH_CBMC', '-std=gnu11']
    cc = ['gcc', '-std=gnu11', '-O0', '-g', '-fno-inline', '-fno-pie', '-fno-builtin']
    if kind.startswith('asan'):
        init = kind.split(':')[1]
        cc += ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer']
        if init != 'none':
            cc += ['-ftrivial-auto-var-init=' + init]
    return cc


_nm = {}


def nm_funcs(obj):
    if obj not in _nm:
        _nm[obj] = nm_funcs_(obj)
    return _nm[obj]


def nm_funcs_(obj):
    rc, out, err = sh(['nm', '--defined-only', '-f', 'posix', obj])
    return {l.split()[0] for l in out.splitlines() if len(l.split()) > 1 and l.split()[1] in ('T', 'W')}


def harness_sources(h, cbmc):
    s = [os.path.join(HARNESS, h.file)]
    if h.vfs:
        s.append(os.path.join(VF, 'vfs.c'))
    s.append(os.path.join(VF, 'env.c'))
    if cbmc:
        s.append(os.path.join(VF, 'model.c'))
    return s


def build_goto(b, h, tier):
    d, _ = b.sources(h)
    wd = tempfile.mkdtemp(dir=b.scratch, prefix='h_')
    defs = DEFS + h.defs + ['-DVH_TIER=%d' % (2 if tier == 'thorough' else 1), '-DVH_%s' % ('THOROUGH' if tier == 'thorough' else 'QUICK')]
    if h.vfs:
        defs.append('-DVH_VFS')
    nat = b.compile(h, 'nat')
    got = b.compile(h, 'goto')
    hobjs, repl = [], set()
    for s in harness_sources(h, True):
        o = os.path.join(wd, os.path.basename(s) + '.gb')
        dd = [x for x in defs if x != '-Dmain=vh_repo_main'] if s.endswith('model.c') else defs
        if s.endswith('model.c'):
            dd = [x for x in dd if not x.endswith('=vh_' + x[2:].split('=')[0])]
        rc, out, err = sh(compiler('goto') + dd + ['-I', d, '-I', VF, '-w', '-c', s, '-o', o])
        if rc != 0:
            raise Fail('cannot compile harness %s: %s' % (s, (err or out)[-800:]))
        hobjs.append(o)
        if not s.endswith('model.c'):
            no = os.path.join(wd, os.path.basename(s) + '.no')
            rc, out, err = sh(compiler('nat') + dd + ['-I', d, '-I', VF, '-w', '-Werror=incompatible-pointer-types', '-Werror=implicit-function-declaration', '-Werror=int-conversion', '-c', s, '-o', no])
            if rc != 0:
                raise Fail('cannot compile harness natively %s: %s' % (s, err[-800:]))
            repl |= nm_funcs(no)
    objs = []
    stubbed = set()
    for (s, o), (_, no) in zip(got, nat):
        rm = sorted(nm_funcs(no) & repl)
        if rm:
            stubbed |= set(rm)
            o2 = os.path.join(wd, os.path.basename(o) + '.cut')
            cmd = ['goto-instrument']
            for f in rm:
                cmd += ['--remove-function-body', f]
            rc, out, err = sh(cmd + [o, o2])
            if rc != 0:
                raise Fail('goto-instrument: ' + err[-400:])
            o = o2
        objs.append(o)
    gb = os.path.join(wd, 'h.gb')
    rc, out, err = sh(['goto-cc', '--function', 'harness', '-o', gb] + hobjs + objs)
    if rc != 0:
        raise Fail('goto-cc link: ' + (err or out)[-800:])
    if h.cut:
        # bodies reachable only through CBMC's over-approximation of indirect calls
        rc, out, err = sh(['goto-instrument', '--list-goto-functions', gb])
        have = set(re.findall(r'[A-Za-z_]\w*', out))
        cut = [f for f in h.cut if f in have]
        rc, out, err = sh(['goto-instrument'] + [x for f in cut for x in ('--remove-function-body', f)] + [gb, gb + 'r']) if cut else (1, '', '')
        if rc == 0:
            gb += 'r'
    rc, out, err = sh(['goto-instrument', '--drop-unused-functions', gb, gb + '2'])
    if rc == 0:
        gb += '2'
    funcs, missing = [], []
    rc, out, err = sh(['goto-instrument', '--list-goto-functions', gb])
    rc, st, err = sh(['goto-instrument', '--list-undefined-functions', gb])
    missing = [l.strip() for l in st.splitlines() if l.strip() and ' ' not in l.strip()]
    known = set()
    for (_, no) in nat:
        known |= nm_funcs(no)
    for l in out.splitlines():
        m = re.match(r'^\s*(\S+)\s+/\*', l) or re.match(r'^(\S+)$', l)
        if m and m.group(1) in known and m.group(1) not in repl:
            funcs.append(m.group(1))
    return wd, gb, sorted(set(funcs)), sorted(stubbed), missing, defs


def run_cbmc(h, gb, unwind, extra, timeout, trace_prop=None):
    cmd = ['cbmc', gb, '--json-ui', '--verbosity', '8', '--unwind', str(unwind), '--unwinding-assertions',
           '--no-standard-checks', '--no-malloc-may-fail', '--slice-formula', '--drop-unused-functions']
    us = list(h.unwindset)
    if h.vfs and not any(u.startswith('vh_rename') for u in us):
        us += ['vh_rename.%d:300' % i for i in range(3)]
    for u in us:
        cmd += ['--unwindset', u]
    if h.checks:
        cmd += ['--bounds-check', '--pointer-check']
    cmd += ['--object-bits', str(h.objbits or 12)]
    if h.fs_array:
        cmd += ['--max-field-sensitivity-array-size', str(h.fs_array)]
    if h.solver:
        cmd += ['--sat-solver', h.solver]
    cmd += h.cbmc + list(extra)
    if trace_prop:
        cmd += ['--trace', '--property', trace_prop]
    t = time.time()
    rc, out, err = sh(cmd, timeout=timeout, mem=h.mem)
    dt = time.time() - t
    if rc == -99:
        return {'status': 'timeout', 'wall': dt}
    try:
        doc = json.loads(out)
    except Exception:
        return {'status': 'error', 'wall': dt, 'msg': (out[-300:] + err[-300:])}
    r = {'status': 'ok', 'wall': dt, 'results': [], 'solver_s': 0.0, 'queries': 0, 'vars': 0, 'clauses': 0}
    msgs = []
    for m in doc:
        if 'result' in m:
            r['results'] = m['result']
        t_ = m.get('messageText', '')
        if t_:
            mm = re.search(r'Runtime Solver: ([\d.e+-]+)s', t_)
            if mm:
                r['solver_s'] += float(mm.group(1))
                r['queries'] += 1
            mm = re.search(r'(\d+) variables, (\d+) clauses', t_)
            if mm:
                r['vars'], r['clauses'] = int(mm.group(1)), int(mm.group(2))
            if m.get('messageType') == 'ERROR':
                msgs.append(t_)
    if not r['results']:
        r['status'] = 'error'
        r['msg'] = ' | '.join(msgs)[-500:] or out[-300:]
    return r


def inputs_of(result):
    vals = []
    for s in result.get('trace', []):
        if s.get('stepType') == 'input' and s.get('inputID') == 'vhin':
            v = s['values'][0]
            vals.append(int(v['binary'], 2) if 'binary' in v else int(v.get('data', '0')))
    return vals


REPLAY_KINDS = ['asan:zero', 'asan:pattern']


def native_build(b, h, wd, defs, kind):
    exe = os.path.join(wd, 'replay_' + kind.replace(':', '_'))
    if os.path.exists(exe):
        return exe
    d, _ = b.sources(h)
    hobjs, repl = [], set()
    for s in harness_sources(h, False):
        o = os.path.join(wd, os.path.basename(s) + '.' + kind.replace(':', '_'))
        rc, out, err = sh(compiler(kind) + defs + ['-I', d, '-I', VF, '-w', '-c', s, '-o', o])
        if rc != 0:
            raise Fail('replay compile: ' + err[-500:])
        hobjs.append(o)
        repl |= nm_funcs(o)
    rt = os.path.join(wd, 'native.o')
    rc, out, err = sh(['gcc', '-g', '-c', os.path.join(VF, 'native.c'), '-o', rt])
    hobjs.append(rt)
    objs = []
    for s, o in b.compile(h, kind):
        rm = sorted(nm_funcs(o) & repl)
        if rm:
            o2 = os.path.join(wd, os.path.basename(o) + '.weak.' + kind.replace(':', '_') + '.o')
            shutil.copy(o, o2)
            sh(['objcopy'] + ['--weaken-symbol=' + f for f in rm] + [o2])
            o = o2
        objs.append(o)
    rc, out, err = sh(['gcc', '-no-pie', '-fsanitize=address,undefined', '-Wl,--allow-multiple-definition',
                       '-Wl,--unresolved-symbols=ignore-all', '-o', exe] + hobjs + objs)
    if rc != 0:
        raise Fail('replay link: ' + err[-800:])
    return exe


def replay(b, h, wd, defs, vals, hang_ok=False, memerr=True):
    """-> (confirmed, description)"""
    f = os.path.join(wd, 'inputs_%s.txt' % hashlib.sha1(repr(vals).encode()).hexdigest()[:10])
    with open(f, 'w') as fh:
        fh.write('\n'.join(map(str, vals)) + '\n')
    last = ''
    for kind in REPLAY_KINDS:
        exe = native_build(b, h, wd, defs, kind)
        for fill in ('0', '190', '255'):
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:malloc_fill_byte=%s:max_malloc_fill_size=1000000:detect_stack_use_after_return=0:abort_on_error=0:exitcode=9:strict_string_checks=0:detect_odr_violation=0' % fill
            rc, out, err = sh([exe, f], timeout=20, env=env)
            last = (out + err)[-2000:]
            if rc == 7:
                return True, out.strip().splitlines()[-1], f
            if rc == -99 and hang_ok:
                return True, 'the real code does not terminate on this input (20 s)', f
            if re.search(r'pc 0x0+ ', err):
                continue      # call of a function the replay has no body for: says nothing about the code
            if memerr and rc not in (0, 3, -99):
                m = re.search(r'(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*)', err)
                where = re.search(r'#\d+ 0x\w+ in (\w+) [^\n]*/src_\w+/([^\n]*)', err)
                return True, 'memory error in the real code: %s %s' % (m.group(1)[:160] if m else 'signal/exit %d' % rc, ('in %s (%s)' % where.groups()) if where else ''), f
    return False, last[-300:], f


def check_harness(b, h, tier):
    res = {'name': h.name, 'violations': [], 'unconfirmed': [], 'proved': 0, 'reached': 0, 'vacuous': [],
           'queries': 0, 'solver_s': 0.0, 'status': 'ok', 'bounds': h.bounds, 'unwind': h.unwind}
    t0 = time.time()
    try:
        wd, gb, funcs, stubbed, missing, defs = build_goto(b, h, tier)
        res.update(functions=funcs, stubs=stubbed, missing=missing)
        unwind = h.unwind
        tries = 0
        while True:
            left = h.timeout - (time.time() - t0)
            if left < 5:
                res['status'] = 'inconclusive: time budget (%d s) used up' % h.timeout
                break
            r = run_cbmc(h, gb, unwind, [], left)
            res['unwind'] = unwind
            if r['status'] != 'ok':
                res['status'] = 'inconclusive: cbmc %s %s' % (r['status'], r.get('msg', ''))
                break
            res['queries'] += r['queries']
            res['solver_s'] += r['solver_s']
            res['vars'], res['clauses'] = r['vars'], r['clauses']
            fails, unw = [], []
            res['proved'] = res['reached'] = 0
            res['vacuous'] = []
            for p in r['results']:
                d = p.get('description', '')
                if d.startswith('V: '):
                    if p['status'] == 'FAILURE':
                        res['reached'] += 1
                    else:
                        res['vacuous'].append(d[3:])
                elif p['status'] == 'FAILURE':
                    (unw if 'unwind' in p['property'].split('.')[-2:][0] or 'unwinding assertion' in d or 'recursion' in d else fails).append(p)
                elif p['status'] == 'SUCCESS':
                    res['proved'] += 1
            def trace(p):
                rt = run_cbmc(h, gb, unwind, [], max(60, left), p['property'])
                for q in rt.get('results', []):
                    if q['property'] == p['property'] and q['status'] == 'FAILURE':
                        return inputs_of(q)
                return None
            fails.sort(key=lambda p: 0 if p.get('description', '').startswith('P: ') else 1)
            seen = 0
            for p in fails[:12]:
                vals = trace(p)
                if vals is None:
                    res['unconfirmed'].append({'property': p['property'], 'description': p.get('description'), 'why': 'no trace'})
                    continue
                ok, what, f = replay(b, h, wd, defs, vals)
                item = {'property': p['property'], 'description': p.get('description'), 'source': p.get('sourceLocation'),
                        'inputs': vals, 'replay': what, 'wd': wd, 'defs': defs}
                (res['violations'] if ok else res['unconfirmed']).append(item)
                if ok:
                    seen += 1
                    if seen >= 2:
                        break
            if res['violations']:
                break
            if unw:
                hang = False
                for p in unw[:2]:
                    vals = trace(p)
                    if vals is None:
                        continue
                    ok, what, f = replay(b, h, wd, defs, vals, hang_ok=True)
                    if ok:
                        res['violations'].append({'property': p['property'], 'description': p.get('description'), 'inputs': vals, 'replay': what, 'wd': wd, 'defs': defs, 'source': p.get('sourceLocation')})
                        hang = True
                        break
                if hang:
                    break
                res['unconfirmed'] = []
                if unwind * 2 > h.max_unwind:
                    res['status'] = 'inconclusive: unwinding bound %d not sufficient (%s)' % (unwind, ', '.join(p['property'] for p in unw[:4]))
                    break
                unwind *= 2
                continue
            break
        if res['status'] == 'ok' and not res['violations']:
            if res['vacuous']:
                res['status'] = 'inconclusive: vacuous, not reached: ' + '; '.join(res['vacuous'])
            elif res['unconfirmed']:
                res['status'] = 'inconclusive: counterexample not reproduced: ' + '; '.join('%s %s' % (u['property'], u['description']) for u in res['unconfirmed'][:3])
            elif not res['reached']:
                res['status'] = 'inconclusive: no reachability witness'
    except Fail as e:
        res['status'] = 'error: %s' % e
    res['wall_s'] = round(time.time() - t0, 2)
    return res
