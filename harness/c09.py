"""C09: the shared string table split over continuation records."""
import struct
from . import biff as B

PROP = 'C09'
BOUNDS = ['tables of 3 strings of 0 to 3 symbolic characters (8-bit, 16-bit, surrogate pairs), 0 to 2 rich-text runs '
          'and 0 to 3 phonetic bytes, all bytes symbolic',
          'every choice of up to 2 (thorough: 4) split points among: before each character, before each run, '
          'before each phonetic byte, before each following string; every choice of compression after a '
          'split inside characters (a character that needs 16 bits keeps 16 bits)',
          'long tables split where each record of 8224 bytes is full: strings of 254 to 40000 characters with switches of '
          'compression, 255 to 9000 runs, 255 to 70000 phonetic bytes, 700 strings in records of 60 bytes, 66000 strings; '
          'the characters on both sides of every split symbolic',
          'all strings referenced from cells, in both orders; formatting_info on and off']
ASSUMES = ['Characters are well-formed UTF-16; a split never falls inside a string header, a character unit or a '
           'formatting run, and no continuation record is empty.']
ISO = {'after': '(rich|last|plain)-k0-fi1', 'beside': '(rich|plain)-k0-fi1', 'ole': '(rich|last|plain|pho|pairs)-k[01]-fi1'}
REACH = ['nosplit', 'char', 'run', 'pho', 'between', 'switch', 'pair', 'long']
OPTS = {'max_steps': 6000000}
# (characters, runs, phonetic bytes) of each string; record capacity; compression of the segments in turn
LONG = {
    'len': ([(254, None, None), (255, None, None), (256, None, None), (257, 2, 3), (9000, 1, None), (3, None, None)], 8224, '01'),
    'wide': ([(5000, None, 5), (40000, 1, None), (1, None, None)], 8224, '1'),
    'narrow': ([(8211, None, None), (32767, None, None), (2, None, None)], 8224, '0'),
    'flip': ([(30000, 3, None), (30001, None, 9), (4, None, None)], 8224, '101'),
    'runs': ([(5, 255, None), (6, 256, None), (7, 9000, 2), (1, 1, 1)], 8224, '0'),
    'pho': ([(5, 1, 255), (6, None, 256), (7, 2, 70000), (1, 1, 1)], 8224, '1'),
    'many': ([(i % 4, None if i % 5 else i % 3, None if i % 7 else i % 4) for i in range(700)], 60, '01'),
    'count': ([(1, None, None)] * 66000, 8224, '0'),
}

TABLES = {
    'plain': [('cc', None, None), ('b', None, None), ('ccc', None, None)],
    'rich': [('cc', 2, None), ('bb', 1, None), ('c', None, None)],
    'pho': [('cc', None, 3), ('b', None, 2), ('c', None, None)],
    'both': [('c', 2, 2), ('bc', 1, 3), ('c', None, 1)],
    'zero': [('', None, None), ('', 1, 2), ('c', 0, 0)],
    'pairs': [('S', None, None), ('cSb', 1, None), ('b', None, None)],
    'last': [('c', None, None), ('cc', None, None), ('cb', 2, 3)],
}


def cases(tier):
    out = []
    thorough = tier != 'quick'
    for nm in TABLES:
        for fi in (0, 1):
            if not fi and nm in ('zero', 'both') and not thorough:
                continue
            for k in (0, 1, 2) if not thorough else (0, 1, 2, 3):
                out.append({'name': '%s-k%d-fi%d' % (nm, k, fi), 'table': nm, 'k': k, 'fi': fi, 'weight': 1 + 4 ** k})
    if thorough:
        for nm in ('both', 'pho', 'pairs'):
            out.append({'name': '%s-k4-fi1' % nm, 'table': nm, 'k': 4, 'fi': 1, 'weight': 500})
    for nm in LONG:
        for fi in (0, 1):
            if thorough or fi != (nm in ('len', 'many', 'count')) or nm in ('runs', 'len') and fi:
                out.append({'name': 'long-%s-fi%d' % (nm, fi), 'long': nm, 'fi': fi, 'weight': 60})
    return out


def long_table(sx, name):
    """(records, texts, runs) of a table too large for one record, split where each record is full."""
    spec, cap, comp = LONG[name]
    recs, cur, room = [], [struct.pack('<II', len(spec), len(spec))], cap - 8
    nsym = [0]
    exps, runs = [], {}

    def put(b, n):
        nonlocal room
        cur.append(b)
        room -= n

    def brk():
        nonlocal cur, room
        recs.append(sx.cat(*cur))
        cur, room = [], cap

    few = name in ('many', 'count')
    seg = 0
    for i, (cn, rich, pho) in enumerate(spec):
        hl = 3 + (2 if rich is not None else 0) + (4 if pho is not None else 0)
        if room < hl + (2 if cn else 0):
            brk()
        wide = int(comp[seg % len(comp)])
        seg += 1
        put(struct.pack('<HB', cn, wide | (8 if rich is not None else 0) | (4 if pho is not None else 0)) +
            (struct.pack('<H', rich) if rich is not None else b'') +
            (struct.pack('<i', pho) if pho is not None else b''), hl)
        text, left = [], cn
        while left:
            if room < 1 + wide:
                brk()
                wide = int(comp[seg % len(comp)])
                seg += 1
                put(bytes([wide]), 1)
            n = min(left, room >> wide)
            us = [0x100 + (k * 7 + i) % 0x5000 if wide else 0x20 + (k * 11 + i) % 0xD0 for k in range(n)]
            if not few or i in (0, 1, 255, 256, len(spec) - 1):
                for k in sorted({0, n - 1}):
                    u = sx.int('u%d' % nsym[0], 0x20, 0xD7FF if wide else 0xFF)
                    nsym[0] += 1
                    us[k] = u
            put(_units(sx, us, wide), n << wide)
            text += us
            left -= n
        exps.append(sx.mkstr(text))
        rs = []
        for k in range(rich or 0):
            if room < 4:
                brk()
            if k in (0, 1, (rich or 0) - 1) and not few:
                p = (sx.u16('p%d_%d' % (i, k)), sx.u16('f%d_%d' % (i, k)))
            else:
                p = (k, (k * 3 + i) % 500)
            put(sx.pack('<HH', *p), 4)
            rs.append(p)
        if rs:
            runs[i] = rs
        left = pho or 0
        while left:
            if not room:
                brk()
            n = min(left, room)
            put(bytes((k * 5 + 1) % 256 for k in range(n)), n)
            left -= n
    brk()
    return recs, exps, runs


def _units(sx, us, wide):
    out, run = [], []
    for u in us + [None]:
        if type(u) is int:
            run.append(u)
            continue
        if run:
            out.append(struct.pack('<%d%s' % (len(run), 'H' if wide else 'B'), *run))
            run = []
        if u is not None:
            out.append(sx.pack('<H', u) if wide else sx.mkbytes([u]))
    return sx.cat(*out)


def long_strings(sx, X, case):
    sx.reach('long')
    recs, exps, runs = long_table(sx, case['long'])
    out = [B.rec(sx, 0xFC if j == 0 else 0x3C, r) for j, r in enumerate(recs)]
    n = len(exps)
    picks = list(range(n)) if n <= 300 else [0, 1, 255, 256, 299, n - 1]
    if n > 65536:
        picks += [65535, 65536]
    cells = [B.rec(sx, 0xFD, struct.pack('<HHHI', k >> 7, k & 127, 0, i)) for k, i in enumerate(picks)]
    wb = B.workbook(sx, [cells], B.std_globals(sx, 80) + out)
    st, bk = sx.attempt(B.open_wb, sx, X, wb, formatting_info=bool(case['fi']))
    sx.check(st == 'ok', 'the workbook opens')
    if st != 'ok':
        return
    sh = bk.sheet_by_index(0)
    got = [sh.cell_value(k >> 7, k & 127) for k in range(len(picks))]
    want = [exps[i] for i in picks]
    sx.check_same([len(g) for g in got], [len(w) for w in want], 'length of the shared strings')
    sx.check_same(got, want, 'shared strings')
    rm = {(k >> 7, k & 127): runs[i] for k, i in enumerate(picks) if case['fi'] and i in runs}
    sx.check_same(dict(sh.rich_text_runlist_map), rm, 'rich-text runs')


def harness(sx, X, case):
    if case.get('long'):
        return long_strings(sx, X, case)
    spec = TABLES[case['table']]
    # atoms: (kind, string index, payload)
    atoms, exps, runs = [], [], {}
    for i, (shape, rich, pho) in enumerate(spec):
        units, exp = B.chars8(sx, 's%d_' % i, shape)
        exps.append(exp)
        wide = []
        for s in shape:
            wide += [1, 1] if s == 'S' else [1 if s == 'b' else 0]
        atoms.append(['head', i, (len(units), rich, pho)])
        for j, u in enumerate(units):
            half = shape and 'S' in shape and wide[j] and _second_half(shape, j)
            atoms.append(['pairchar' if half else 'char', i, (u, wide[j])])
        if rich is not None:
            rs = [(sx.u16('s%d_p%d' % (i, j)), sx.u16('s%d_f%d' % (i, j))) for j in range(rich)]
            if rs:
                runs[i] = rs
            for p, f in rs:
                atoms.append(['run', i, sx.pack('<HH', p, f)])
        for j in range(pho or 0):
            atoms.append(['pho', i, sx.bytes('s%d_q%d' % (i, j), 1)])
    n = len(atoms)
    splits = []
    lo = 1
    for j in range(case['k']):
        if lo > n - 1:
            sx.assume(False)
        at = sx.fork(sx.int('at%d' % j, lo, n - 1))
        splits.append(at)
        lo = at + 1
    sx.reach('nosplit') if not splits else None
    # group the characters of one string between splits into segments sharing a compression
    recs = []
    cur = [struct.pack('<II', 3, len(spec))]
    k = 0
    while k < n:
        if k in splits:
            recs.append(sx.cat(*cur))
            cur = []
        kind, i, p = atoms[k]
        if kind == 'head':
            if k in splits:
                sx.reach('between')
            seg = _segment(atoms, k + 1, splits, False)
            wide = _choose(sx, atoms, seg, k)
            cn, rich, pho = p
            cur.append(sx.cat(struct.pack('<HB', cn, wide | (8 if rich is not None else 0) |
                                          (4 if pho is not None else 0)),
                              struct.pack('<H', rich) if rich is not None else b'',
                              struct.pack('<i', pho) if pho is not None else b''))
        elif kind in ('char', 'pairchar'):
            if k in splits:
                sx.reach('pair' if kind == 'pairchar' else 'char')
                seg = _segment(atoms, k, splits, True)
                w2 = _choose(sx, atoms, seg, k)
                if w2 != wide:
                    sx.reach('switch')
                wide = w2
                cur.append(bytes([wide]))
            u = p[0]
            cur.append(sx.pack('<H', u) if wide else sx.mkbytes([u]))
        else:
            if k in splits:
                sx.reach(kind)
            cur.append(p)
        k += 1
    recs.append(sx.cat(*cur))
    out = [B.rec(sx, 0xFC if j == 0 else 0x3C, r) for j, r in enumerate(recs)]
    cells = [B.rec(sx, 0xFD, struct.pack('<HHHI', 0, i, 0, i)) for i in range(len(spec))]
    cells += [B.rec(sx, 0xFD, struct.pack('<HHHI', 1, i, 0, len(spec) - 1 - i)) for i in range(len(spec))]
    wb = B.workbook(sx, [cells], B.std_globals(sx, 80) + out)
    st, bk = sx.attempt(B.open_wb, sx, X, wb, formatting_info=bool(case['fi']))
    sx.check(st == 'ok', 'the workbook opens')
    if st != 'ok':
        return
    sh = bk.sheet_by_index(0)
    sx.check_same(sh.row_values(0), exps, 'shared strings')
    sx.check_same(sh.row_values(1), exps[::-1], 'shared strings')
    sx.check_same(sh.row_types(0), [1] * len(exps), 'cell types')
    want = {}
    if case['fi']:
        for i, rs in runs.items():
            want[0, i] = rs
            want[1, len(spec) - 1 - i] = rs
    sx.check_same(dict(sh.rich_text_runlist_map), want, 'rich-text runs')
    sx.observe('v', sh.row_values(0))


def _second_half(shape, j):
    pos = 0
    for s in shape:
        if s == 'S':
            if j == pos + 1:
                return True
            pos += 2
        else:
            pos += 1
    return False


def _segment(atoms, k, splits, started):
    """Characters from atom k up to the end of the string's characters or the next split."""
    out = []
    while k < len(atoms) and atoms[k][0] in ('char', 'pairchar') and (started and not out or k not in splits):
        out.append(k)
        k += 1
    return out


def _choose(sx, atoms, seg, k):
    """Compression of a segment: forced when a character needs 16 bits."""
    if any(atoms[j][2][1] for j in seg):
        return 1
    return sx.fork(sx.int('w%d' % k, 0, 1))
