"""C06: the grid as the last write to each address, padded to its dimensions."""
import struct
from . import biff as B

PROP = 'C06'
BOUNDS = ['every history of up to 4 (thorough: 5) cell records (NUMBER, two-cell MULRK, BOOLERR, and with '
          'formatting_info BLANK and two-cell MULBLANK) at every combination of addresses in a 3x3 '
          '(3 writes), 2x3 (4 writes) or 2x2 (thorough, 5 writes) window',
          'every pair of writes with rows in {0, 1, 256} and columns in {0, 128, 255} (thorough: '
          '5 rows to 400, 5 columns)',
          'one write at each row limit-1..65535 and column 255..65535 (refused beyond the limit), alone '
          'and after a write at (0,0)',
          'BIFF8 and BIFF7, formatting_info on/off, ragged_rows on/off, any DIMENSIONS record first']
ASSUMES = ['Cell values are symbolic doubles; XF indexes name existing XF records.',
           'A DIMENSIONS record, if any, precedes the cell records, as the format requires.']
ISO = {'after': 'empty-80-fi0-r[01]|limits-80-fi1-r0', 'beside': 'empty-80-fi[01]-r[01]', 'ole': 'hist-nnn-80-fi0-r0|pair-80-.*'}
REACH = ['history', 'pair', 'refused', 'limit', 'empty']
FMTS = (0, 14, 0x31)


def cases(tier):
    out = []
    thorough = tier != 'quick'
    for biff in (80, 70):
        for fi in (0, 1):
            for rag in (0, 1):
                def add(name, **kw):
                    d = dict(biff=biff, fi=fi, rag=rag, **kw)
                    d['name'] = '%s-%d-fi%d-r%d' % (name, biff, fi, rag)
                    out.append(d)
                add('limits', k='limit')
                add('empty', k='hist', seq='', nr=1, nc=1)
                if biff == 70 and not thorough and (fi or rag):
                    continue
                add('pair', k='pair', weight=4, rows=(0, 1, 255, 256, 400) if thorough else (0, 1, 256),
                    cols=(0, 127, 128, 254, 255) if thorough else (0, 128, 255))
                add('hist-nnn', k='hist', seq='nnn', nr=3, nc=3, weight=8)
                if biff == 70 and not thorough:
                    continue
                add('hist-mnn', k='hist', seq='mnn', nr=2, nc=3, weight=4)
                add('hist-nmn', k='hist', seq='nmn', nr=2, nc=3, weight=4)
                add('hist-nnm', k='hist', seq='nnm', nr=2, nc=3, weight=4)
                add('hist-nen', k='hist', seq='nen', nr=2, nc=3, weight=4)
                add('hist-nnnn', k='hist', seq='nnnn', nr=2, nc=3, weight=9)
                if fi:
                    for s in ('nbn', 'bnb', 'nMn', 'Mnn'):
                        add('hist-' + s, k='hist', seq=s, nr=2, nc=3, weight=4)
                if thorough:
                    add('hist-mnmn', k='hist', seq='mnmn', nr=2, nc=3, weight=10)
                    add('hist-3x3-nnnn', k='hist', seq='nnnn', nr=3, nc=3, weight=30)
                    add('hist-nnnnn', k='hist', seq='nnnnn', nr=2, nc=2, weight=10)
                    add('hist-mmn', k='hist', seq='mmn', nr=3, nc=3, weight=9)
    return out


def write(sx, kind, i, r, c, exp):
    """One record; updates the expected cells."""
    xf = i % 3
    ct = 3 if xf == 1 else 2
    adr = sx.pack('<HHH', r, c, xf)
    if kind == 'n':
        d = sx.double('d%d' % i)
        exp[r, c] = (ct, d, xf)
        return B.rec(sx, 0x203, adr, sx.pack('<Q', sx.float_bits(d)))
    if kind == 'e':
        v = sx.u8('e%d' % i)
        exp[r, c] = (5, v, xf)
        return B.rec(sx, 0x205, adr, sx.cat(v, 1))
    if kind == 'b':
        exp[r, c] = (6, '', xf)
        return B.rec(sx, 0x201, adr)
    if kind == 'm':
        body = []
        for j in range(2):
            u = sx.int('rk%d_%d' % (i, j), 0, (1 << 29) - 1)
            exp[r, c + j] = (ct, float(u), xf)
            body.append(sx.pack('<HI', xf, (u << 2) | 2))
        return B.rec(sx, 0xBD, sx.pack('<HH', r, c), *(body + [sx.pack('<H', c + 1)]))
    if kind == 'M':
        for j in range(2):
            exp[r, c + j] = (6, '', xf)
        return B.rec(sx, 0xBE, sx.pack('<HHHHH', r, c, xf, xf, c + 1))


def harness(sx, X, case):
    biff, fi, rag = case['biff'], case['fi'], case['rag']
    globs = B.std_globals(sx, biff, FMTS)
    exp = {}
    recs = []
    if case['name'].startswith('hist-nnn'):
        dims = (sx.pack('<IIHHH', sx.u32('dim0'), sx.u32('dim1'), sx.u16('dim2'), sx.u16('dim3'), 0) if biff == 80
                else sx.pack('<HHHHH', sx.u16('dim0'), sx.u16('dim1'), sx.u16('dim2'), sx.u16('dim3'), 0))
        recs.append(B.rec(sx, 0x200, dims))
    kw = dict(formatting_info=bool(fi), ragged_rows=bool(rag))
    maxr = 65536 if biff == 80 else 16384
    if case['k'] == 'limit':
        sx.set_steps(5000000)
        pre = sx.fork(sx.int('pre', 0, 1))
        if pre:
            recs.append(write(sx, 'n', 0, 0, 0, exp))
        which = sx.fork(sx.int('which', 0, 4))
        if which == 0:
            r, c = 3, sx.int('c', 256, 65535)
        elif which == 1:
            if biff == 80:
                r, c = 0, sx.int('c', 256, 65535)
            else:
                r, c = sx.int('r', maxr, 65535), 2
        elif which == 2:
            r, c = sx.u16('r'), sx.u16('c')
            sx.assume(sx.Or(r >= maxr, c >= 256))
        if which < 3:
            sx.reach('refused')
            recs.append(write(sx, 'n', 1, r, c, {}))
            st, bk = sx.attempt(B.open_wb, sx, X, B.workbook(sx, [recs], globs, biff=biff), **kw)
            sx.check(st == 'exc', 'an address beyond the limits is refused')
            return
        sx.reach('limit')
        r, c = (maxr - 1, 0) if which == 3 else (2, 255)
        recs.append(write(sx, 'n', 1, r, c, exp))
    elif case['k'] == 'pair':
        sx.set_steps(5000000)
        sx.reach('pair')
        for i in range(2):
            rs, cs = case['rows'], case['cols']
            r = rs[sx.fork(sx.int('r%d' % i, 0, len(rs) - 1))]
            c = cs[sx.fork(sx.int('c%d' % i, 0, len(cs) - 1))]
            recs.append(write(sx, 'n', i, r, c, exp))
    else:
        sx.reach('history' if case['seq'] else 'empty')
        for i, kd in enumerate(case['seq']):
            r = sx.fork(sx.int('r%d' % i, 0, case['nr'] - 1))
            c = sx.fork(sx.int('c%d' % i, 0, case['nc'] - 1))
            recs.append(write(sx, kd, i, r, c, exp))
    bk = B.open_wb(sx, X, B.workbook(sx, [recs], globs, biff=biff), **kw)
    sh = bk.sheet_by_index(0)
    nr = 1 + max([p[0] for p in exp] or [-1])
    nc = 1 + max([p[1] for p in exp] or [-1])
    sx.check_same(sh.nrows, nr, 'row count')
    sx.check_same(sh.ncols, nc, 'column count')
    used = set(p[0] for p in exp)
    lasts = {}
    for p in exp:
        lasts[p[0]] = max(lasts.get(p[0], -1), p[1])
    for rr in range(nr):
        last = lasts.get(rr, -1)
        width = last + 1 if rag else nc
        sx.check_same(sh.row_len(rr), width, 'row length')
        if 4 <= rr < nr - 2 and rr not in used:
            continue
        for cc in range(width):
            if 4 <= cc < nc - 3 and (rr, cc) not in exp:
                continue
            ct, v, x = exp.get((rr, cc), (0, '', 15))
            cell = sh.cell(rr, cc)
            sx.check_same(cell.ctype, ct, 'type of a cell')
            sx.check_same(cell.value, v, 'value of a cell')
            sx.check_same(cell.xf_index, x if fi else None, 'format index of a cell')
