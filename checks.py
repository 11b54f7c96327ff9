from vf.driver import Harness as H

PROPS = {}


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = dict(harnesses=f, **kw)
        return f
    return deco


VSN = ['vh_vsnprintf.%d:90' % i for i in range(20)]


@prop('C01')
def c01(tier):
    q = tier == 'quick'
    n = 7 if q else 10
    l = [
        H('order', 'c01_addr.c', defs=['-DMODE=2'], unwind=4, bounds='all triples of addresses'),
        H('parse', 'c01_addr.c', defs=['-DMODE=3', '-DSLEN=%d' % n], unwind=16, bounds='every text of at most %d characters, every default address' % n),
    ]
    for i, nm in enumerate(['zone', 'net', 'node', 'point']):
        for other in ([65535] if q else [65535, 0, 7, 1234]):
            l.append(H('roundtrip_%s_%d' % (nm, other), 'c01_addr.c', defs=['-DMODE=1', '-DVH_DIVFREE', '-DVH_DIGITS=5', '-DPART=%d' % i, '-DOTHER=%d' % other], unwind=26,
                       bounds='every value of the %s, the other three parts %d' % (nm, other)))
    return l


PAT = ['PAT_PATTERN', 'PAT_ZONE', 'PAT_REGION', 'PAT_NET', 'PAT_HUB', 'PAT_NODE']


@prop('C02')
def c02(tier):
    q = tier == 'quick'
    D = ['-DVH_DIVFREE', '-DVH_DIGITS=5']
    pl, md = (2, 2) if q else (3, 3)
    l = [H('component', 'c02_pat.c', defs=D + ['-DMODE=1', '-DPLEN=6', '-DMAXDIG=5'], unwind=13, bounds='pattern part of at most 6 characters, every 16-bit number'),
         H('pattern2d', 'c02_pat.c', defs=D + ['-DMODE=5', '-DPLEN=%d' % (5 if q else 7), '-DMAXDIG=2'], unwind=13, bounds='net/node pattern text of at most 5 (7) characters, numbers of at most 2 digits')]
    for i, t in enumerate(PAT):
        l.append(H('match_' + t[4:].lower(), 'c02_pat.c', defs=D + ['-DMODE=2', '-DTYPE=' + t, '-DPLEN=%d' % pl, '-DMAXDIG=%d' % md], unwind=13,
                   bounds='pattern parts of at most %d characters, numbers of at most %d digits, any nodelist answer' % (pl, md)))
        l.append(H('expand_' + t[4:].lower(), 'c02_pat.c', defs=D + ['-DMODE=4', '-DTYPE=' + t, '-DPLEN=%d' % (3 if q else 5), '-DMAXDIG=%d' % md], unwind=13,
                   bounds='replacement parts of at most 3 (5) characters, every destination address, any nodelist answer'))
        l.append(H('parse_' + t[4:].lower(), 'c02_pat.c', defs=D + ['-DMODE=3', '-DKW=%d' % i, '-DPLEN=%d' % (6 if q else 9), '-DMAXDIG=2'], unwind=18,
                   bounds='pattern text of at most 6 (9) characters after the keyword'))
    return l


@prop('C05')
def c05(tier):
    l = [H('memory', 'c05_expr.c', defs=['-DCASE=0', '-DPART=0'], unwind=30, bounds='formulas with one condition and malformed ones, all truth values; memory safety included')]
    for part in (1, 2, 3, 4, 5, 6):
        for case in ([0, 1] if tier == 'thorough' or part < 3 else [part & 1]):
            l.append(H('formulas_%d_%s' % (part, 'lower' if case else 'upper'), 'c05_expr.c', defs=['-DCASE=%d' % case, '-DPART=%d' % part], unwind=40,
                       checks=(tier == 'thorough'), timeout=300 if tier == 'quick' else 800, bounds='all formulas of the shapes in part %d of the harness, all truth values of their conditions' % part))
    return l


@prop('C03')
def c03(tier):
    n = 8 if tier == 'quick' else 16
    return [H('wildcards', 'c03_text.c', defs=['-DPLEN=%d' % n, '-DSLEN=%d' % n], unwind=n + 3, bounds='every pattern and text of at most %d characters' % n)]


@prop('C04')
def c04(tier):
    n = 7 if tier == 'quick' else 10
    m = 4 if tier == 'quick' else 7
    return [H('word', 'c04_tok.c', defs=['-DMODE=1', '-DSLEN=%d' % n, '-DMAXD=%d' % n], unwind=18, bounds='every line of at most %d characters, every start, room for 0 to %d characters' % (n, n - 1)),
            H('rest', 'c04_tok.c', defs=['-DMODE=2', '-DSLEN=%d' % n, '-DMAXD=%d' % n], unwind=18, bounds='every line of at most %d characters, every start, room for 0 to %d characters' % (n, n - 1)),
            H('writeread', 'c04_tok.c', defs=['-DMODE=3', '-DSLEN=%d' % m, '-DVF_LINE=40', '-DVF_SZ=64', '-DVF_N=1', '-DVF_H=1', '-DVF_NAME=4'], vfs=True, unwind=max(3 * m + 22, 30), bounds='every value of at most %d characters without a line feed' % m)]


def ndig(k):
    lo = 0 if k == 1 else 10 ** (k - 1)
    return ['-DVH_NDIG=%d' % k, '-DNDIG=%d' % k, '-DVH_NLO=%d' % lo, '-DVH_NHI=%d' % min(65535, 10 ** k - 1)]


@prop('C12')
def c12(tier):
    q = tier == 'quick'
    sc = {'PKT_NUM2D': 4, 'PKT_CHUNKLEN': 64, 'PKT_NUMPATH': 2}
    l = []
    for k in (1, 2, 3, 4, 5):
        # lines of one net: 8+(k+1)*(nodes+1) characters; the last node is added where the line is (nearly) full
        m = 69 // (k + 1) - 1
        todo = {1: [(1, 1, 17)], 2: [(99, 0, m + 1)], 3: [(99, 1, m + 1), (3, 2, 2)], 4: [(99, 0, m), (99, 1, m + 1)], 5: [(99, 0, m), (99, 0, m - 1), (99, 1, m + 1)]}[k] if q else [(per, same, cnt) for per in (1, 2, 3, 99) for same in (0, 1, 2) for cnt in
                sorted({2, m - 2, m - 1, m, m + 1, m + 2} if per == 99 else {2, 69 // (2 * k + 2) - 1, 69 // (2 * k + 2), 69 // (2 * k + 2) + 1})]
        for per, same, cnt in todo:
            l.append(H('write_%d_%d_%d_%d' % (k, per, same, cnt), 'c12_seenby.c', defs=['-DMODE=1', '-DCNT=%d' % cnt, '-DPER=%d' % per, '-DSAMENET=%d' % same] + ndig(k), scale=sc, unwind=180 if q else 400, timeout=300 if q else 850, fs_array=2000, checks=False, solver='cadical',
                               bounds='%d fixed nodes with %d-digit numbers, %d per net, then any node; 4 nodes per internal chunk instead of 50' % (cnt - 1, k, per)))
    n = 5 if q else 7
    l.append(H('sort', 'c12_seenby.c', defs=['-DMODE=2', '-DSYM=%d' % n], scale=sc, unwind=12, solver='cadical', bounds='any %d nodes; 4 nodes per internal chunk instead of 50' % n))
    l.append(H('add', 'c12_seenby.c', defs=['-DMODE=4', '-DPRE=3', '-DSYM=%d' % (3 if q else 4)], scale=sc, unwind=12, bounds='3 (4) arbitrary nodes added to 3; 4 nodes per internal chunk instead of 50'))
    for t in (['99/9 9', '9/9 9/9', '99999/99999', '9/9 9 9'] if q else ['99/99 9', '9/9 99/9', '9999/9', '99999/99999', '9/9 9 9', '99/99 99 9/9', '999/999 999 9', '99999/99999 99999', '9/9 9/9 9/9 9/9']):
        l.append(H('read_' + t.replace(' ', '_').replace('/', '-'), 'c12_seenby.c', defs=['-DMODE=5', '-DSLEN=%d' % len(t), '-DTEMPLATE="%s"' % t], scale=sc, unwind=max(10, len(t) + 3), checks=(t == '9/9 99/9'), fs_array=200, bounds='every SEEN-BY line of the form %s with arbitrary digits' % t))
    for k in ((1, 3, 5) if q else (1, 2, 3, 4, 5)):
        for same in (0, 1):
            for pt in (0, 1):
                for ol in ((12, 70 - 2 * k - 1, 70) if q else (12, 40, 50, 70 - 3 * k - 3, 70 - 2 * k - 3, 70 - 2 * k - 2, 70 - 2 * k - 1, 70 - 2 * k, 70 - 2 * k + 1, 70 - k - 1, 70 - k, 70 - k + 1, 70)):
                    if q and (k + same + pt + ol) % 2:
                        continue
                    l.append(H('path_%d_%d_%d_%d' % (k, same, pt, ol), 'c12_seenby.c', defs=['-DMODE=3', '-DOLDLEN=%d' % ol, '-DSAMENET=%d' % same, '-DPOINT=%d' % pt] + ndig(k), scale=sc, unwind=102, fs_array=2000,
                               bounds='own address with any %d-digit node number, a PATH line of %d characters' % (k, ol)))
    return l


@prop('C11')
def c11(tier):
    sc = {'PKT_NUM2D': 8, 'PKT_CHUNKLEN': 64, 'PKT_NUMPATH': 2}
    l = []
    b = '3 links with any addresses (2 zones, points or not) and rights, %d of them in the area, SEEN-BY of %d nodes, mail from %s zone, every flag, every answer of the duplicate check and the filters'
    for unk, ntn, sbn, same in [(1, 3, 0, 1), (0, 3, 2, 1), (0, 3, 0, 1), (0, 3, 2, 0), (0, 1, 2, 1), (0, 0, 0, 1)] if tier == 'quick' else [(u, n, s, z) for u in (0, 1) for n in (0, 1, 2, 3) for s in (0, 1, 2) for z in (0, 1)]:
        for sb in ((0, 1) if not unk else (0,)):
            l.append(H('%s%s_%d_%d_%d' % ('seenby' if sb else 'distribution', '_unknown' if unk else '', ntn, sbn, same), 'c11_echo.c', defs=['-DSB=%d' % sb, '-DMB=%d' % (0 if sb or ntn == 1 else 1), '-DUNKNOWN=%d' % unk, '-DNTN=%d' % ntn, '-DSBN=%d' % sbn, '-DSAMEZONE=%d' % same], scale=sc, unwind=12, checks=False, fs_array=200, solver='cadical',
                       bounds=b % (ntn, sbn, 'our' if same else 'another')))
    l.append(H('memory', 'c11_echo.c', defs=['-DSB=1', '-DMB=0', '-DUNKNOWN=0', '-DNTN=2', '-DSBN=2', '-DSAMEZONE=1'], scale=sc, unwind=12, fs_array=200, bounds='memory safety; ' + b % (2, 2, 'our')))
    return l


NOFP = ['CompareAreas', 'CompareSort', 'DateCompareFE', 'jam_exportfunc', 'msg_exportfunc', 'NodeCompare', 'CompareDate', 'jam_rescanfunc', 'msg_rescanfunc', 'ScanDirFunc']


@prop('C14')
def c14(tier):
    sc = {'PKT_NUM2D': 4, 'PKT_CHUNKLEN': 64, 'PKT_NUMPATH': 2}
    l = []
    for nlst, att, toaf, text in [(1, 0, 0, 1), (0, 0, 1, 1), (1, 1, 0, 1), (0, 0, 0, 0), (0, 0, 0, 1)] if tier == 'quick' else [(a, b, c, d) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]:
        l.append(H('decide_%d%d%d%d' % (nlst, att, toaf, text), 'c14_netmail.c', defs=['-DNODELIST=%d' % nlst, '-DATTACH=%d' % att, '-DTOAF=%d' % toaf, '-DTEXT=%d' % text, '-DTWO=%d' % (text and not nlst), '-DE1=%d' % (13 if toaf else 113), '-DE2=%d' % (113 if toaf else 13), '-DVH_FMTNUM1'], scale=sc, unwind=202, fs_array=500, checks=False, solver='cadical', cut=NOFP,
                   bounds='2 own addresses, 3 areas, 2 routes, every address over a small domain, all flags, any pattern/nodelist/filter answers%s%s%s' % (', with nodelist' if nlst else '', ', file attached' if att else '', ', addressed to the areafix' if toaf else '')))
    return l


@prop('C13')
def c13(tier):
    q = tier == 'quick'
    l = [H('checksum', 'c13_dupe.c', defs=['-DMODE=2', '-DLEN=%d' % (3 if q else 6)], unwind=10, bounds='every text of at most %d characters' % (3 if q else 6)),
         H('ring', 'c13_dupe.c', defs=['-DMODE=3', '-DDSIZE=3', '-DOPS=%d' % (7 if q else 10)], unwind=12, bounds='up to %d entries in a ring of 3' % (7 if q else 10))]
    for dsize, ops in [(2, 3)] if q else [(1, 3), (2, 3), (2, 4), (3, 4)]:
        l.append(H('history_%d_%d' % (dsize, ops), 'c13_dupe.c', defs=['-DMODE=1', '-DDSIZE=%d' % dsize, '-DOPS=%d' % ops, '-DREOPEN=0', '-DVF_SZ=%d' % (4 + 10 * ops), '-DVF_N=2', '-DVF_H=2', '-DVF_NAME=8'],
                   vfs=True, unwind=9, checks=False, solver='cadical', fs_array=64, timeout=240 if q else 800, bounds='every history of %d messages with one-character MSGID and area, %d remembered' % (ops, dsize)))
    for dsize, n0, n1, close, n2 in [(2, 2, 1, 1, 0), (3, 2, 2, 1, 1), (3, 4, 0, 1, 0), (2, 1, 2, 1, 1), (4, 1, 2, 0, 0), (3, 0, 3, 1, 0)] if q else [(d, n, m, e, f) for d in (1, 2, 3, 4, 5) for n in (0, 1, 2, 3, 5) for m in (0, 1, 2, 3, 5) for e in (0, 1) for f in (0, 1, 2) if n + m and (e or not f)]:
        l.append(H('restart_%d_%d_%d_%d_%d' % (dsize, n0, n1, close, n2), 'c13_dupe.c', defs=['-DMODE=4', '-DFAULT=0', '-DDSIZE=%d' % dsize, '-DN0=%d' % n0, '-DN1=%d' % n1, '-DN2=%d' % n2, '-DCLOSE=%d' % close, '-DVF_SZ=%d' % (14 + 10 * n0 + 10 * n1 + 10 * n2), '-DVF_N=2', '-DVF_NAME=8'],
                   vfs=True, unwind=24, checks=False, solver='cadical', fs_array=300, bounds='a database of any %d messages with one-character MSGID and area, %d added%s, %d remembered, then any message' % (n0, n1, ', restart, %d more' % n2 if close else '', dsize)))
    for f in (1, 2):
        for dsize, n0, n1 in [(2, 2, 1), (3, 1, 1)] if q else [(d, n, m) for d in (2, 3, 4) for n in (0, 1, 2, 4) for m in (1, 2)]:
            l.append(H('%s_%d_%d_%d' % ('failure' if f == 1 else 'crash', dsize, n0, n1), 'c13_dupe.c', defs=['-DMODE=4', '-DFAULT=%d' % f, '-DDSIZE=%d' % dsize, '-DN0=%d' % n0, '-DN1=%d' % n1, '-DN2=0', '-DCLOSE=1', '-DVFS_BUFFERED', '-DVF_SZ=%d' % (14 + 10 * n0 + 10 * n1), '-DVF_N=2', '-DVF_NAME=8'],
                   vfs=True, unwind=24, checks=False, solver='cadical', fs_array=300, bounds='a database of any %d messages, %d added, %d remembered; %s while it is stored' % (n0, n1, dsize, 'any disk operation failing, once or from then on' if f == 1 else 'the process ending before any disk operation')))
    return l


def body(s):
    return '-DBODY="%s"' % s


@prop('C08')
def c08(tier):
    q = tier == 'quick'
    l = []
    n = 6 if q else 10
    l.append(H('string', 'c08_readpkt.c', defs=['-DMODE=3', '-DCR=0', '-DFSIZE=%d' % n, '-DMAX=4'], unwind=n + 3, bounds='any file of at most %d bytes, room for 4' % n))
    l.append(H('line', 'c08_readpkt.c', defs=['-DMODE=3', '-DCR=1', '-DFSIZE=%d' % n, '-DMAX=5'], unwind=n + 3, bounds='any file of at most %d bytes, room for 5' % n))
    m1 = '\\2\\0\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1d\\0t\\0f\\0s\\0ab\\rc\\0'          # 14+8+5 bytes
    m2 = '\\2\\0\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1D\\0T\\0F\\0S\\0x\\ny\\0'             # 14+8+4 bytes
    lg = '\\2\\0\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1\\1d\\0' + 'T' * 35 + '\\0f\\0s\\0a\\0'         # To of the largest size, 14+42+2
    def st(nm, b, ln, p, txt):
        l.append(H('%s_%d_%d' % (nm, ln, max(p, 0)), 'c08_readpkt.c', defs=['-DMODE=2', '-DFSIZE=%d' % (ln + 30), '-DLEN=%d' % ln, '-DP=%d' % p, body(b)], unwind=max(60, ln), fs_array=400, checks=False, solver='cadical', timeout=240 if q else 800,
                   unwindset=VSN, bounds='%s: %d bytes, %s; interrupts and failures at any message' % (txt, ln, 'byte %d arbitrary' % p if p >= 0 else 'no arbitrary byte')))
    one, two = m1 + '\\0\\0', m1 + m2 + '\\0\\0'
    for ln in ([0, 57, 58, 59, 60, 71, 72, 75, 79, 80, 82, 84, 85, 86] if q else range(0, 87)):
        st('one', one, ln, -1, 'packet with one message, cut')
    for p in ([58, 59, 85, 86]):
        st('one', one, 87, p, 'packet with one message')
    for ln, p in ([(113, 112), (113, 111), (113, 85), (113, 86), (87, -1), (100, -1), (110, -1), (111, -1), (112, -1)] if q else [(ln, -1) for ln in range(87, 113)] + [(113, p) for p in (58, 59, 85, 86, 111, 112)]):
        st('two', two, ln, p, 'packet with two messages')
    for k in (35, 36, 37):
        b = lg.replace('T' * 35, 'T' * k) + '\\0\\0'
        st('long%d' % k, b, 118 + k - 35, -1, 'packet with a header string of %d characters' % k)
    for k in (196, 197, 198, 199, 200):
        b = m1.replace('ab', 'a' * k) + '\\0\\0'
        st('text%d' % k, b, 85 + k, -1, 'packet with a line of %d characters' % (k + 1))
    return l


@prop('C10')
def c10(tier):
    l = []
    for echo, b in ((1, 'd\\0t\\0f\\0s\\0AREA:X\\rhi\\r'), (0, 'd\\0t\\0f\\0s\\0hi\\r')):
        l.append(H('header_%s' % ('echo' if echo else 'net'), 'c08_readpkt.c', defs=['-DMODE=1', '-DFSIZE=110', '-DECHO=%d' % echo, body(b), '-DVH_FMTNUM1'], unwind=120 if echo else 60, fs_array=300, checks=False, solver='cadical',
                   bounds='any packet header and message header with one %s, 2 own addresses and 2 known nodes with any address, flags and passwords of up to 3 characters' % ('echomail' if echo else 'netmail')))
    return l


@prop('C17')
def c17(tier):
    l = []
    for i, nm, z in ((0, 'dir', 1), (1, 'dir_bundle', 1), (2, 'bundle', 1), (3, 'packet', 1), (2, 'empty_bundle', 0), (1, 'dir_empty_bundle', 0)):
        l.append(H('toss_' + nm, 'c17_toss.c', defs=['-DBUNDLE=%d' % i, '-DBSIZE=%d' % z], unwind=24, unwindset=['strncpy.0:210'] + VSN, checks=False, fs_array=300, cut=NOFP, bounds='two packets and a bundle of two packets, every outcome of reading, unpacking, moving aside, closing and archiving, interrupts'))
    return l


@prop('C18')
def c18(tier):
    q = tier == 'quick'
    sc = {'SIZE_PKTHEADER': 4, 'COPYBUFSIZE': 8}
    V = ['-DVF_N=14', '-DVF_SZ=64', '-DVF_NAME=44', '-DVFS_BUFFERED', '-DVF_LINE=100']
    kw = dict(vfs=True, checks=False, solver='cadical', fs_array=300, scale=sc, cut=NOFP, unwind=66, unwindset=["strncpy.0:210"] + VSN)
    ft = {0: 'no fault', 1: 'any disk operation failing, once or from then on', 2: 'process ending before any disk operation'}
    l = []
    for t, e, old in [('Normal', '.out', 0), ('Normal', '.out', 1), ('Hold', '.hut', 1), ('Crash', '.cut', 0), ('Direct', '.dut', 1)]:
        for f in (0, 1, 2):
            if q and t != 'Normal' and f:
                continue
            l.append(H('netmail_%s_%d_%d' % (t.lower(), old, f), 'c18_outbound.c', defs=V + ['-DMODE=1', '-DFAULT=%d' % f, '-DOLD=%d' % old, '-DTYPE="%s"' % t, '-DEXT="%s"' % e], bounds='a netmail packet with arbitrary text, %smail already waiting, %s; packet header of 4 bytes, copied 8 bytes at a time' % ('' if old else 'no ', ft[f]), **kw))
    for pri, e, old, bf in [(2, '.flo', 0, 0), (2, '.flo', 1, 1), (4, '.clo', 1, 0), (1, '.hlo', 0, 1), (3, '.dlo', 1, 0)]:
        for f in (0, 1, 2):
            if q and pri != 2 and f:
                continue
            l.append(H('packed_%d_%d_%d' % (pri, old, f), 'c18_outbound.c', defs=V + ['-DMODE=2', '-DVFS_SYSTEM_HOOK', '-DKNOWN=1', '-DBEFORE=%d' % bf, '-DFAULT=%d' % f, '-DOLD=%d' % old, '-DPRI=%d' % pri, '-DEXT="%s"' % e], bounds='an echomail packet with arbitrary text, any result of the packer, %s' % ft[f], **kw))
    for known, pri, e, old in [(1, 4, '.clo', 1), (0, 2, '.flo', 0), (1, 2, '.flo', 1)]:
        for f in (0, 1, 2):
            if q and known and f and pri == 4:
                continue
            l.append(H('unpacked_%d_%d_%d_%d' % (known, pri, old, f), 'c18_outbound.c', defs=V + ['-DMODE=3', '-DKNOWN=%d' % known, '-DBEFORE=0', '-DFAULT=%d' % f, '-DOLD=%d' % old, '-DPRI=%d' % pri, '-DEXT="%s"' % e], bounds='an echomail packet with arbitrary text sent unpacked to a %s node, %s' % ('known' if known else 'no longer known', ft[f]), **kw))
    for pt in (0, 1):
        for d1, d2, sl in [(0, 0, 0), (1, 1, 1), (1, 2, 0), (0, 2, 1)] if q else [(a, b, c) for a in (0, 1) for b in (0, 1, 2) for c in (0, 1)]:
            l.append(H('name_%d_%d%d%d' % (pt, d1, d2, sl), 'c18_outbound.c', defs=V + ['-DMODE=4', '-DPT=%d' % pt, '-DD1=%d' % d1, '-DD2=%d' % d2, '-DSLASH=%d' % sl], bounds='every node with a zone up to 4095', **kw))
    for orph in (0, 1):
        for pri, e, fm, crlf, old, listed in [(2, '.flo', 2, 0, '', 0), (4, '.clo', 1, 1, '^p/other.mo0\\n', 0), (1, '.hlo', 0, 0, '~p/x\\n#P/0000ABCD.MO0\\r\\n', 1), (3, '.dlo', 2, 0, 'p/0000abcd.mo\\n^p/0000abcd.mo00\\n', 0), (0, '.flo', 2, 1, '^p/0000abcd.mo0\\n', 1)]:
            l.append(H('flow_%d_%d_%d' % (orph, pri, fm), 'c18_outbound.c', defs=V + ['-DMODE=6', '-DFAULT=0', '-DORPHAN=%d' % orph, '-DPRI=%d' % pri, '-DEXT="%s"' % e, '-DFMODE=%d' % fm, '-DCRLF=%d' % crlf, '-DOLDTXT="%s"' % old, '-DLISTED=%d' % listed], bounds='flow file with fixed entries', **kw))
    l.append(H('append_retry', 'c18_outbound.c', defs=V + ['-DMODE=9', '-DFAULT=0'], bounds='a netmail packet appended to waiting mail, any disk operation failing once, then tried again', **kw))
    for n, (last, other, exist, days) in enumerate([('0000abcd.mo3', '', ['0000abcd.mo3'], (1, 2)), ('0000abcd.MO3', '', ['0000ABCD.mo3', '0000abcd.mo4', '0000abce.tu0'], (1, 2)), ('0000abcd.sa9', '0000abce.su0', [], (0, 6)), ('0000abcd.sa9', '', ['0000abcd.sa9', '0000abcd.su0'], (6,)), ('', '', [], (4,)), ('', '0006c180.mo1', ['0006c181.mo1'], (2,)), ('0000abcd.mo9', '', ['0000abcd.mo9', '0000abcd.mo0'], (1,)), ('0000abcd.we0', '', ['0000abcd.we1'], (3, 4))]):
        for day in days[:1] if q and n > 2 else days:
            l.append(H('bundle_%d_%d' % (n, day), 'c18_outbound.c', defs=V + ['-DMODE=5', '-DDAY=%d' % day, '-DLAST="%s"' % last, '-DOTHER="%s"' % other, '-DEXIST=' + (','.join('"%s"' % e for e in exist) or '""')] + ndig(1), bounds='last bundle %s, existing bundles %s of any size, any limit, day %d' % (last or 'none', exist, day), **kw))
    for f in (0, 1):
        l.append(H('run_%d' % f, 'c18_outbound.c', defs=V + ['-DMODE=8', '-DFAULT=%d' % f], bounds='one new and one old packet, bundles, an orphan; any outcome of storing, %s' % ft[f], **kw))
    for i, t in enumerate(['Echomail', 'Hold', 'Normal', 'Direct', 'Crash']):
        f = 1 if not q or i in (0, 2) else 0
        l.append(H('finish_%s' % t.lower(), 'c18_outbound.c', defs=V + ['-DMODE=7', '-DFAULT=%d' % f, '-DTYPE=%d' % i, '-DTNAME="%s"' % t], bounds='packet of 6 arbitrary bytes, %s' % ft[f], **kw))
    return l


@prop('C09')
def c09(tier):
    q = tier == 'quick'
    kw = dict(unwind=100, fs_array=400, checks=False, solver='cadical', cut=NOFP, unwindset=VSN, scale={'PKT_NUM2D': 4, 'PKT_CHUNKLEN': 64, 'PKT_NUMPATH': 4})
    l = []
    for lt, lf, ls, l0, l1, pw in [(3, 0, 5, 7, 2, 4), (35, 35, 71, 0, 3, 8), (0, 1, 0, 5, 0, 0)] if q else [(a, b, c, d, e, f) for a, b, c in ((3, 0, 5), (35, 35, 71), (0, 1, 0)) for d, e in ((7, 2), (0, 3), (5, 0), (40, 60)) for f in (0, 1, 7, 8)]:
        D = ['-DFSIZE=400', '-DLT=%d' % lt, '-DLF=%d' % lf, '-DLS=%d' % ls, '-DL0=%d' % l0, '-DL1=%d' % l1, '-DPW=%d' % pw]
        nm = '%d_%d_%d_%d_%d_%d' % (lt, lf, ls, l0, l1, pw)
        b = 'any addresses, flags, attributes; names of %d and %d, subject of %d, text of %d+%d, password of %d arbitrary characters' % (lt, lf, ls, l0, l1, pw)
        l.append(H('echomail_' + nm, 'c09_pktwrite.c', defs=D + ['-DMODE=1', '-DFAULT=0'], bounds=b, **kw))
        l.append(H('netmail_' + nm, 'c09_pktwrite.c', defs=D + ['-DMODE=2', '-DFAULT=0'], bounds=b, **kw))
    D = ['-DFSIZE=400', '-DLT=3', '-DLF=2', '-DLS=5', '-DL0=7', '-DL1=2', '-DPW=3']
    l.append(H('echomail_fault', 'c09_pktwrite.c', defs=D + ['-DMODE=1', '-DFAULT=1'], bounds='any write, or creating the packet, failing', **kw))
    l.append(H('netmail_fault', 'c09_pktwrite.c', defs=D + ['-DMODE=2', '-DFAULT=1'], bounds='any write, or creating the packet, failing', **kw))
    for e in (0, 1):
        l.append(H('choice_%s' % ('echo' if e else 'net'), 'c09_pktwrite.c', defs=D + ['-DMODE=3', '-DECHO=%d' % e], bounds='two packets being written with any destination, sender, type; any limit up to 100', **kw))
    return l


@prop('C16')
def c16(tier):
    q = tier == 'quick'
    sc = {'PKT_NUM2D': 4, 'PKT_CHUNKLEN': 64, 'PKT_NUMPATH': 2}
    l = []
    KINDS = ['', 'K_ADD', 'K_REMOVE', 'K_UPDATE', 'K_PAUSE', 'K_RESUME', 'K_PWD', 'K_PACK', 'K_LIST', 'K_NONE']

    def af(nm, kind, cmd, tag, wild=0, links=0b0110, rescan=0, rmax=0, pk=2, sub=(2, 2, ''), sublist=0, me=0, reach=3, types=(2, 2), nomatch=0):
        l.append(H(nm, 'c16_areafix.c', defs=['-DKIND=%d' % KINDS.index(kind), '-DME=%d' % me, '-DREACH=%d' % reach, '-DTYPE0=%d' % types[0], '-DTYPE1=%d' % types[1], '-DNOMATCH=%d' % nomatch, '-DCMD="%s"' % cmd, '-DTAG="%s"' % tag, '-DWILD=%d' % wild, '-DLINKS=%d' % links, '-DRESCAN=%d' % rescan, '-DRMAX=%d' % rmax, '-DPKRES=%d' % pk, '-DPWL=%d' % sub[0], '-DSUBL=%d' % sub[1], '-DSUBTAIL="%s"' % sub[2], '-DSUBLIST=%d' % sublist],
                   scale=sc, unwind=24, unwindset=['strncpy.0:210'] + VSN, checks=False, fs_array=200, cut=NOFP + ['filter_evalfunc'], solver='cadical', bounds='command %r; two nodes, two areas with any type, flags, group, rights, bans; links %s; any sender, passwords of %d and %d characters' % (cmd, format(links, '04b'), sub[0], sub[1])))
    for links in ((0b0110, 0b0000) if q else range(16)):
        s = format(links, '04b')
        af('add_' + s, 'K_ADD', 'AB.C\\r', 'AB.C', links=links)
        af('addwild_' + s, 'K_ADD', '+A*\\r', 'A*', wild=1, links=links)
        if not q:
            for ty in ((2, 5), (4, 2), (1, 3)):
                af('add_%s_%d%d' % (s, ty[0], ty[1]), 'K_ADD', 'AB.C\\r', 'AB.C', links=links, types=ty, reach=0)
    for links in ((0b1001, 0b0111, 0b1111) if q else range(16)):
        s = format(links, '04b')
        af('remove_' + s, 'K_REMOVE', '-AB.C\\r', 'AB.C', links=links)
        if not q or links == 15:
            af('removewild_' + s, 'K_REMOVE', '- A*\\r' if 0 else '-A*\\r', 'A*', wild=1, links=links)
    for links in ((0b0110,) if q else range(16)):
        s = format(links, '04b')
        af('update_' + s, 'K_UPDATE', '=AB, r=12\\r', 'AB', rescan=1, rmax=12, links=links)
        af('addrescan_' + s, 'K_ADD', ' AB , R=7\\r', 'AB', rescan=1, rmax=7, links=links)
    af('other_areas_add', 'K_ADD', 'AB.C\\r', 'AB.C', links=0, types=(2, 5))
    af('other_areas_remove', 'K_REMOVE', '-AB.C\\r', 'AB.C', links=15, types=(3, 2))
    af('other_node', 'K_ADD', 'AB.C\\r', 'AB.C', me=1, links=0b0010)
    for i in (2, 3, 4, 5):
        af('stranger_%d' % i, 'K_REMOVE' if i & 1 else 'K_ADD', '-AB\\r' if i & 1 else 'AB\\r', 'AB', me=i, links=15 if i & 1 else 0)
    af('rescanall', 'K_ADD', '%RESCAN\\rAB\\r', 'AB', rescan=1)
    af('pause', 'K_PAUSE', '%pause\\r', '')
    af('resume', 'K_RESUME', '%Resume\\r', '')
    af('pwd', 'K_PWD', '%PWD xyz\\r', 'xyz')
    for i, (t, k) in enumerate([('ZIP', 1), ('none', 0), ('lha', 2), ('?', 2)]):
        af('packer_%d' % i, 'K_PACK', '%%COMPRESS %s\\r' % t, '', pk=k)
    af('list', 'K_LIST', '%LIST\\r', '')
    af('unknown', 'K_NONE', '%FOO\\r\\r\\1KLUDGE\\r', '')
    af('tearline', 'K_NONE', '--- x\\rAB\\r-AB\\r', '-- x', nomatch=1)
    af('sublist', 'K_NONE', '\\r', '', sub=(2, 2, ' -q'), sublist=1)
    af('password_short', 'K_ADD', 'AB\\r', 'AB', sub=(3, 2, ''))
    af('password_long', 'K_ADD', 'AB\\r', 'AB', sub=(2, 3, ''))
    l.append(H('lists', 'c16_areafix.c', defs=['-DKIND=20'], unwind=12, unwindset=VSN, checks=False, fs_array=200, cut=NOFP, bounds='three areas and two area lists with any type, group, links; any node'))
    l.append(H('forward', 'c16_areafix.c', defs=['-DKIND=21'], unwind=24, unwindset=VSN, checks=False, fs_array=200, cut=NOFP, bounds='two area lists of two areas with any flags and groups'))
    for n in (98, 99, 100, 101):
        af('longline_%d' % n, 'K_REMOVE', '-' + 'B' * min(98, n - 1) + '-' * (n - 99) + '\\r', '', nomatch=1, reach=0)
        l[-1].defs += ['-DNOTAG']
        l[-1].checks = True
        l[-1].scale = dict(sc, PKT_CHUNKLEN=160)
        l[-1].unwind = 170
    af('password_none', 'K_REMOVE', '-AB\\r', 'AB', sub=(3, 0, ''), links=15)
    return l


@prop('C20')
def c20(tier):
    q = tier == 'quick'
    U = ['jamlib/*.c']
    l = [H('checksum_%d' % n, 'c20_jam.c', defs=['-DMODE=5', '-DVH_OWN_FILES', '-DSUBS=1', '-DLEN=%d' % n], unwind=10, fs_array=300, bounds='every text of %d bytes' % n) for n in ((1, 2) if q else (1, 2, 3, 4))]
    for then in (0, 1, 2, 3):
        for a1, a2, at, b1, b2, bt in [(1, 2, 3, 2, 0, 1), (0, 3, 0, 3, 1, 4)][:2 if not q or then == 0 else 1] if q else [(1, 2, 3, 2, 0, 1), (0, 3, 0, 3, 1, 4), (4, 4, 8, 5, 0, 0), (2, 1, 0, 1, 2, 0)]:
            l.append(H('%s_%d%d%d%d%d%d' % (('add', 'delete', 'change', 'empty')[then], a1, a2, at, b1, b2, bt), 'c20_jam.c',
                       defs=['-DMODE=1', '-DVH_OWN_FILES', '-DTHEN=%d' % then, '-DA1=%d' % a1, '-DA2=%d' % a2, '-DAT=%d' % at, '-DB1=%d' % b1, '-DB2=%d' % b2, '-DBT=%d' % bt, '-DSUBS=32'], unwind=80, fs_array=300, unwindset=['strlen.0:8'],
                       bounds='two messages with arbitrary headers, subfields of any type with %d,%d and %d,%d and texts of %d and %d arbitrary bytes' % (a1, a2, b1, b2, at, bt)))
    for k in range(24):
        for w in ((k % 2,) if q else (0, 1)):
            l.append(H('failure_%d%s' % (k, 'on' if w else ''), 'c20_jam.c', defs=['-DMODE=2', '-DVH_OWN_FILES', '-DSUBS=32', '-DFAILAT=%d' % k, '-DLASTING=%d' % w], unwind=80, fs_array=300, unwindset=['strlen.0:8'], bounds='one message there, one added; file operation %d fails%s' % (k, ' and all after it' if w else '')))
    for n, o in [(0, 0), (2, 0), (2, 1)]:
        l.append(H('lastread_%d%d' % (n, o), 'c20_jam.c', defs=['-DMODE=3', '-DVH_OWN_FILES', '-DSUBS=1', '-DNREC=%d' % n, '-DOTHER=%d' % o], unwind=80, fs_array=300, bounds='%d users with arbitrary records' % n))
    for n in (3, 8, 9, 17) if q else (1, 3, 7, 8, 9, 12, 16, 17, 18, 20, 24):
        l.append(H('damaged_%d' % n, 'c20_jam.c', defs=['-DMODE=4', '-DVH_OWN_FILES', '-DSUBS=32', '-DCUT=%d' % n], unwind=80, fs_array=300, unwindset=['JAM_ReadMsgHeader.0:%d' % (n // 8 + 2)], bounds='every content of %d bytes of subfields' % n))
    return l


@prop('C21')
def c21(tier):
    q = tier == 'quick'
    l = []
    sc = {'PKT_CHUNKLEN': 160, 'PKT_NUM2D': 4, 'PKT_NUMPATH': 4}
    kw = dict(scale=sc, unwind=120, fs_array=400, checks=False, cut=[f for f in NOFP if not f.startswith('jam_')] + ['HandleMessage', 'HandleRescan'], unwindset=['strncpy.0:210'] + VSN)

    def imp(name, text, echo=1, att=0, frm='A?', to='B?', subj='Hello', split=999, seenby=0, npath=1, **k):
        l.append(H('import_' + name, 'c21_jammsg.c', defs=['-DMODE=1', body(text), '-DECHO=%d' % echo, '-DATT=%d' % att, '-DFROM="%s"' % frm, '-DTO="%s"' % to, '-DSUBJ="%s"' % subj, '-DSPLIT=%d' % split, '-DSEENBY=%d' % seenby, '-DNPATH=%d' % npath], bounds='text %r (?: byte 0xf6), any first letters of the names, any cost%s' % (text, ', netmail' if not echo else ''), **dict(kw, **k)))
    imp('echo', '\\1MSGID: 2:1/2 ab?\\r\\1PID: x?\\r?ext\\r\\nmore \\1a\\r\\1CHRS: L?\\r--- ?\\r', seenby=1, npath=2, checks=True)
    imp('net', '\\1INTL 1:2/3 4:5/6\\r\\1FMPT 3\\r\\1TOPT 2\\r\\1REPLY: ?y\\r\\1FLAGS: DIR X?A kfs\\rte?t\\r\\1Via ?\\r', echo=0, att=1, npath=0)
    imp('attach', 'x?\\r', echo=0, att=16, subj='a.zip, b.z', npath=0)
    imp('request', '', echo=0, att=2048, subj='a b', npath=0, to='')
    imp('open_end', '?\\r\\1Vi?', frm='', checks=True)
    imp('lone', 'a\\r\\1', checks=True)
    imp('lone_pid', '\\1PID:', checks=True)
    imp('lone_msgid', 'x\\r\\1MSGID:', subj='', checks=True)
    imp('two', '\\1MSGID: a?\\r\\1FLAGS: ?\\rtext?\\r\\1FLAGS: DIR\\r', split=21, echo=0)
    if not q:
        imp('flags50', '\\1FLAGS:a' + ' a' * 48 + ' ?\\r', echo=0, checks=True, timeout=600)
    for e in (0, 1):
        l.append(H('import_attributes_%d' % e, 'c21_jammsg.c', defs=['-DMODE=2', '-DECHO=%d' % e, '-DFROM=""', '-DTO=""', '-DSUBJ="a"', '-DSPLIT=0', '-DSEENBY=0', '-DNPATH=0'], bounds='all attributes; lock, write and flush fail or not', **kw))

    def exp(name, text, net=1, rescan=0, attr=1, forceintl=0, oaddr='2:201/7.8', oz=2, second=0, slen=5, flg=0, file=0, orig=0, mode=3, base=1, hres='0', **k):
        l.append(H('export_' + name, 'c21_jammsg.c', defs=['-DMODE=%d' % mode, '-DTEXT="%s"' % text, '-DNET=%d' % net, '-DRESCAN=%d' % rescan, '-DATTR=%dU' % attr, '-DFORCEINTL=%d' % forceintl, '-DOADDR="%s"' % oaddr, '-DOZ=%d' % oz, '-DSECOND=%d' % second, '-DSLEN=%d' % slen, '-DFLG=%d' % flg, '-DFILE_=%d' % file, '-DORIG=%d' % orig, '-DBASE=%d' % base, '-DHRES=%s' % hres], bounds='message with text %r (?: any byte in netmail, 0xf6 in echomail), any cost, dates and links, %s' % (text, 'all attributes and configurations, lock, read, write and the handler fail or not' if mode == 4 else 'attributes 0x%x' % attr), **dict(kw, **k)))
    exp('net', 'te?t\\rmore', checks=True)
    exp('net_flags', 'x?\\r', attr=1 | 0x40 | 0x400 | 0x8000 | 0x100, flg=1, second=1)
    exp('net_flags2', '', attr=1 | 0x200 | 0x4000 | 0x20000 | 0x400000, file=1)
    exp('net_samezone', 'x', oaddr='3:4/7', oz=3, slen=40)
    exp('net_forceintl', 'x', oaddr='3:4/7', oz=3, forceintl=1, slen=0)
    exp('echo', '?ello\\r * Origin: here? (2:3/4.5)\\r', net=0, orig=1, base=17)
    exp('echo_badorigin', 'a\\r * Origin: here (x)\\r', net=0, checks=True)
    exp('rescan', 'x?\\r', net=0, rescan=1, attr=0, base=5)
    exp('long', 'x', slen=199, checks=True)
    exp('longer', 'x', slen=205, checks=True)
    for net in (0, 1):
        for rs in (0, 1):
            exp('attributes_%d%d' % (net, rs), 'x' if net else '', net=net, rescan=rs, mode=4)
    for n in ('JAM_NO_MESSAGE', 'JAM_IO_ERROR'):
        exp(n, 'x', hres=n, mode=4)
    return l


@prop('C22')
def c22(tier):
    q = tier == 'quick'
    l = []
    kw = dict(cut=[f for f in NOFP if not f.startswith('jam_')] + ['HandleMessage', 'HandleRescan'])

    def add(name, mode, n, old, base, quick, unwind=6, checks=False, links=1, **k):
        l.append(H(name, 'c22_jamlink.c', defs=['-DMODE=%d' % mode, '-DN=%d' % n, '-DOLDNUM=%d' % old, '-DBASE=%du' % base, '-DQUICK=%d' % quick, '-DLINKS=%d' % links], unwind=unwind, checks=checks, bounds='%d messages, %d of them old, numbered from %d, any checksums, identifications of up to 2 bytes and header fields, %s' % (n, old, base, ['', 'any links of an intact base' if links else 'no links yet', 'any links that do not form rings', 'a ring of links'][mode]), **dict(kw, **k)))
    for quick in (0, 1):
        add('one_new_%d' % quick, 1, 3, 2, 1, quick)
        add('two_%d' % quick, 1, 2, 0, 9, quick, checks=True)
        if quick or not q:
            add('all_new_%d' % quick, 1, 3, 0, 1, quick, links=0, timeout=240 if q else 600)
        add('broken_%d' % quick, 2, 2, 1, [4294967000, 3][quick], quick, checks=True)
    add('nothing_new', 1, 3, 3, 1, 1)
    add('ring', 3, 4, 3, 1, 0, unwind=1010)
    if not q:
        for quick in (0, 1):
            add('two_new_%d' % quick, 1, 3, 1, 7, quick, timeout=880)
            add('broken_three_%d' % quick, 2, 3, 2, 3, quick, timeout=880)
        add('relink', 1, 3, 0, 1, 1, timeout=880)
    return l


@prop('C28')
def c28(tier):
    q = tier == 'quick'
    l = []
    for d in (1, 2, 3, 6, 12) if q else (1, 2, 3, 4, 5, 6, 7, 8, 12, 16):
        n = 4 if q else 6
        l.append(H('path_%d' % d, 'c28_paths.c', defs=['-DMODE=1', '-DD=%d' % d, '-DP=%d' % n, '-DF=%d' % n], unwind=66, bounds='all directories and names of up to %d characters, buffer of %d bytes' % (n, d)))
        l.append(H('copy_%d' % d, 'c28_paths.c', defs=['-DMODE=3', '-DD=%d' % d, '-DF=%d' % (n + 2)], unwind=66, bounds='all strings of up to %d characters, buffer of %d bytes' % (n + 2, d)))
    l.append(H('part', 'c28_paths.c', defs=['-DMODE=2', '-DF=%d' % (8 if q else 20)], unwind=66, bounds='all strings of up to %d characters' % (8 if q else 20)))
    for d in (2, 6) if q else (1, 2, 3, 4, 6, 8):
        n = 3
        for f2 in (0, 65):
            l.append(H('packer_%d_%d' % (d, 1 if f2 else 0), 'c28_paths.c', defs=['-DMODE=4', '-DD=%d' % d, '-DF=%d' % n, '-DF2=%d' % f2], unwind=25, timeout=240 if q else 800, bounds='all commands of up to %d characters, archive name of 3 characters, packet name of %d, buffer of %d bytes' % (n, 1 if f2 else 0, d)))
        l.append(H('filter_%d' % d, 'c28_paths.c', defs=['-DMODE=5', '-DD=%d' % d, '-DF=%d' % n], unwind=25, timeout=240 if q else 800, bounds='all commands of up to %d characters, values of 0 to 3 characters, buffer of %d bytes' % (n, d)))
    for m, nm in ((4, 'packer'), (5, 'filter')):
        l.append(H(nm + '_two', 'c28_paths.c', defs=['-DMODE=%d' % m, '-DD=6', '-DF=5', '-DF2=65', '-DTPL="%\\?%\\??"'], unwind=25, timeout=240 if q else 800, bounds='all commands %?%??, buffer of 6 bytes'))
    return l


@prop('C29')
def c29(tier):
    q = tier == 'quick'
    l = []
    for n in (0, 3, 4, 5, 6, 7, 8, 11, 12, 13) if q else range(0, 17):
        l.append(H('names_%d' % n, 'c29_files.c', defs=['-DMODE=1', '-DL=%d' % n], unwind=20, bounds='all file names of %d bytes' % n))
    for n in (0, 1, 2, 3):
        l.append(H('order_%d' % n, 'c29_files.c', defs=['-DMODE=2', '-DNF_=%d' % n], unwind=8, bounds='%d files with any dates and names of up to 2 characters' % n))
    for i, (a, b, fl) in enumerate((('PK', '$1f$8B', 4), ('??-lh', '$60$eA', 7), ('Rar!', '', 3), ('$00', 'a?$FFb', 0), ('?' * 75 + 'abcd', 'x' * 79, 80), ('x' * 79, '?' * 78 + 'q', 85), ('x' * 79, 'y', 60))):
        l.append(H('packer_%d' % i, 'c29_files.c', defs=['-DMODE=3', '-DFL=%d' % fl, '-DR1="%s"' % a.replace('?', '\\?'), '-DR2="%s"' % b.replace('?', '\\?')], unwind=92, bounds='packers %r and %r, any file of %d bytes' % (a, b, fl)))
    for fl in (2, 5):
        n = 3 if q else 5
        l.append(H('recog_%d' % fl, 'c29_files.c', defs=['-DMODE=3', '-DFL=%d' % fl, '-DRL=%d' % n], unwind=12, bounds='any two packers with up to %d characters, any file of %d bytes' % (n, fl)))
    l.append(H('hex', 'c29_files.c', defs=['-DMODE=4', '-DL=9'], unwind=18, bounds='all strings of up to 9 characters'))
    for inb in ('in', 'in/', ''):
        for ex in ((0, 1) if q else (0, 1, 3)):
            l.append(H('bad_%d_%s' % (ex, {'in': 'plain', 'in/': 'slash', '': 'none'}[inb]), 'c29_files.c', defs=['-DMODE=5', '-DINB="%s"' % inb, '-DNL=12', '-DNEX=%d' % ex], unwind=42, bounds='any file name of 12 letters, %d names taken, moving fails or not' % ex))
    return l
