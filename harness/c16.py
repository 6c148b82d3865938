"""C16: format index hierarchy, column widths, ROW/COLINFO records."""
import struct
from . import biff as B
from .c15 import build, xfs

PROP = 'C16'
BOUNDS = ['cells: 3x3 area with 1 to 3 cells of arbitrary own format index, 2 ROW records for any rows 0..2 with arbitrary '
          'option bits and format index, 0 to 2 COLINFO records (one for any columns within 0..2) of arbitrary format; '
          'every cell and padding position queried; BIFF8, 7, 4, 3; BIFF2 with and without XF records: 2x3 area, 1 to 3 '
          'cells, ROW with or without default attributes for each row, COLUMNDEFAULT for any of 3 columns',
          'ROW and COLINFO (and BIFF2 ROW, COLWIDTH, COLUMNDEFAULT) fields: all bit patterns; row 0..3, 16383, 65535 '
          '(records outside the sheet ignored); DEFAULTROWHEIGHT of 4 and 2 bytes',
          'widths: every combination of COLINFO, STANDARDWIDTH, DEFCOLWIDTH, GCW presence and value (all 256 GCW bits), '
          '12 columns from 0 to 255 including all edges, BIFF8, 7, 5, 4, 3; BIFF2 with default widths only']
ASSUMES = ['Format indexes of cells are at most 32767 (the sheet stores them in 16 signed bits).',
           'Explicit BIFF2 column widths (COLWIDTH) are checked in colinfo_map only: the documented hierarchy for '
           'computed_column_width starts at BIFF3.']
ISO = {'after': '(hier-80-0-0|row-.*|col-80|drh-80-4|width-80-0|b2-.*)', 'beside': '(row-80-.*|col-80|drh-80-.*|width-80-0|hier-80-0-0)', 'ole': '(hier-80-0-0|row-80-.*|col-80|drh-80-4)'}
REACH = ['hier', 'hier2', 'row', 'col', 'width', 'badcol', 'badrow', 'b2', 'drh']


def cases(tier):
    out = []
    th = tier != 'quick'
    for bv in (80, 70, 40, 30):
        for own in range(0, 4):
            for ncol in (0, 1, 2):
                if not th and (bv in (40, 30) and (own != 1 or ncol != 1) or bv == 70 and own != 2):
                    continue
                out.append({'name': 'hier-%d-%d-%d' % (bv, own, ncol), 'k': 'hier', 'bv': bv, 'own': own, 'ncol': ncol,
                            'weight': 30 * ncol + 5})
        for hi in (0, 1):
            out.append({'name': 'row-%d-%d' % (bv, hi), 'k': 'row', 'bv': bv, 'hi': hi})
        out.append({'name': 'col-%d' % bv, 'k': 'col', 'bv': bv, 'weight': 20})
        out.append({'name': 'badcol-%d' % bv, 'k': 'badcol', 'bv': bv})
        for ln in (4, 2, 6):
            out.append({'name': 'drh-%d-%d' % (bv, ln), 'k': 'drh', 'bv': bv, 'ln': ln})
    for bv in (80, 70, 50, 40, 30, 20):
        for p in range(16):
            if bv in (80, 30, 20) and p & 8 or bv == 20 and p & 1:
                continue
            out.append({'name': 'width-%d-%d' % (bv, p), 'k': 'width', 'bv': bv, 'p': p})
    for what in ('row', 'rowxf', 'rowattr', 'colwidth', 'coldef'):
        out.append({'name': 'b2-' + what, 'k': 'b2', 'what': what, 'bv': 20})
    for bv in (20, 21):
        for own in range(3):
            out.append({'name': 'hier-%d-%d' % (bv, own), 'k': 'hier2', 'bv': bv, 'own': own})
    return out


def sheetwb(sx, bv, recs):
    pre = [B.font8(sx) if bv == 80 else B.font7(sx)] * 5 if bv >= 50 else []
    if bv >= 50:
        return B.workbook(sx, [recs], pre + xfs(sx, bv, 16), biff=bv)
    fm = [B.rec(sx, 0x1E if bv < 40 else 0x41E, b'' if bv < 40 else b'\0\0', b'\x07General')]
    return B.single(sx, bv, fm + (xfs(sx, bv, 16) if bv > 20 else []) + [B.dim(sx, bv, 0, 0)] + recs)


def rowrec(sx, row, b1, b2):
    return B.rec(sx, 0x208, sx.pack('<HHHHHHI', row, 0, 0, b1, 0, 0, b2))


def bits(v, off, w):
    return (v >> off) & ((1 << w) - 1)


def rowwant(b1, b2, sx):
    d = bits(b2, 7, 1)
    return dict(height=bits(b1, 0, 15), has_default_height=bits(b1, 15, 1), outline_level=bits(b2, 0, 3),
                outline_group_starts_ends=bits(b2, 4, 1), hidden=bits(b2, 5, 1), height_mismatch=bits(b2, 6, 1),
                has_default_xf_index=d, xf_index=sx.ite(d == 1, bits(b2, 16, 12), -1),
                additional_space_above=bits(b2, 28, 1), additional_space_below=bits(b2, 29, 1))


def harness(sx, X, case):
    k, bv = case['k'], case['bv']
    if k == 'hier':
        return hier(sx, X, case)
    if k == 'hier2':
        return hier2(sx, X, case)
    if k == 'width':
        return width(sx, X, case)
    if k == 'b2':
        return b2(sx, X, case)
    recs = []
    if k == 'row':
        sx.reach('row')
        want = {}
        rows = (0, 1, 3) if not case['hi'] else (2, 16383, 16384, 65535)
        for i in range(2):
            r = sx.fork(sx.int('r%d' % i, 0, len(rows) - 1))
            r = rows[r]
            b1, b2_ = sx.u16('h%d' % i), sx.u32('f%d' % i)
            recs.append(rowrec(sx, r, b1, b2_))
            if r < (65536 if bv == 80 else 16384):
                want[r] = rowwant(b1, b2_, sx)
            else:
                sx.reach('badrow')
        bk = B.open_wb(sx, X, sheetwb(sx, bv, recs), formatting_info=True)
        rm = bk.sheet_by_index(0).rowinfo_map
        sx.check_same(sorted(rm.keys()), sorted(want), 'rows with information')
        for r in want:
            for a in sorted(want[r]):
                sx.check_same(getattr(rm[r], a), want[r][a], 'row ' + a)
        return
    if k in ('col', 'badcol'):
        want = {}
        for i in range(2):
            w, x, fl = sx.u16('w%d' % i), sx.u16('x%d' % i), sx.u16('g%d' % i)
            if k == 'col':
                ends = (0, 1, 2, 255, 256)
                lo, hi = ends[sx.fork(sx.int('lo%d' % i, 0, 4))], ends[sx.fork(sx.int('hi%d' % i, 0, 4))]
                if lo == 0 and hi > 2:
                    return
                sx.assume(lo <= hi)
                sx.reach('col')
            else:
                sx.reach('badcol')
                lo, hi = sx.u16('lo%d' % i), sx.u16('hi%d' % i)
                sx.assume(sx.Or(lo > hi, hi > 256))
            recs.append(B.rec(sx, 0x7D, sx.pack('<HHHHHH', lo, hi, w, x, fl, 0)))
            if k == 'col':
                for c in range(lo, min(hi, 255) + 1):
                    want[c] = dict(width=w, xf_index=x, hidden=bits(fl, 0, 1), bit1_flag=bits(fl, 1, 1),
                                   outline_level=bits(fl, 8, 3), collapsed=bits(fl, 12, 1))
        bk = B.open_wb(sx, X, sheetwb(sx, bv, recs), formatting_info=True)
        cm = bk.sheet_by_index(0).colinfo_map
        sx.check_same(sorted(cm.keys()), sorted(want), 'columns with information')
        for c in want:
            if c < 4 or c > 250:
                for a in sorted(want[c]):
                    sx.check_same(getattr(cm[c], a), want[c][a], 'column ' + a)
        return
    sx.reach('drh')
    ln = case['ln']
    f, h = sx.u16('f'), sx.u16('h')
    body = {4: sx.pack('<HH', f, h), 2: sx.pack('<H', h), 6: sx.pack('<HHH', f, h, 0)}[ln]
    bk = B.open_wb(sx, X, sheetwb(sx, bv, [B.rec(sx, 0x225, body)]), formatting_info=True)
    sh = bk.sheet_by_index(0)
    sx.check_same(sh.default_row_height, None if ln == 6 else h, 'default row height')
    for i, a in enumerate(('default_row_height_mismatch', 'default_row_hidden', 'default_additional_space_above',
                           'default_additional_space_below')):
        sx.check_same(getattr(sh, a), bits(f, i, 1) if ln == 4 else 0, a)


def hier(sx, X, case):
    bv, own, ncol = case['bv'], case['own'], case['ncol']
    sx.reach('hier')
    cells = [(0, 0), (1, 1), (2, 2)][:own] or []
    recs, rows, cols, mine = [], {}, {}, {}
    for i in range(2):
        r = sx.fork(sx.int('r%d' % i, 0, 2))
        b2_ = sx.u32('f%d' % i)
        recs.append(rowrec(sx, r, 255, b2_))
        rows[r] = sx.ite(bits(b2_, 7, 1) == 1, bits(b2_, 16, 12), -1)
    for i in range(ncol):
        if i == 0 and ncol == 2:
            lo, hi = 0, 1
        else:
            lo, hi = sx.fork(sx.int('lo%d' % i, 0, 2)), sx.fork(sx.int('hi%d' % i, 0, 2))
        sx.assume(lo <= hi)
        x = sx.u16('x%d' % i)
        recs.append(B.rec(sx, 0x7D, sx.pack('<HHHHHH', lo, hi, 2560, x, 0, 0)))
        for c in range(lo, hi + 1):
            cols[c] = x
    for i, (r, c) in enumerate(cells):
        x = sx.int('own%d' % i, 0, 32767)
        recs.append(B.rec(sx, 0x201, sx.pack('<HHH', r, c, x)))
        mine[r, c] = x
    # fixes the extent without owning (0, *) or column 0..1
    recs.append(B.rec(sx, 0x201, struct.pack('<HHH', 2, 2, 7)) if own < 3 else b'')
    if own < 3:
        mine[2, 2] = 7
    bk = B.open_wb(sx, X, sheetwb(sx, bv, recs), formatting_info=True)
    sh = bk.sheet_by_index(0)
    sx.check_same((sh.nrows, sh.ncols), (3, 3), 'extent')
    for r in range(3):
        for c in range(3):
            if (r, c) in mine:
                w = mine[r, c]
            else:
                w = cols.get(c, 15)
                if r in rows:
                    w = sx.ite(rows[r] >= 0, rows[r], w)
            sx.check_same(sh.cell_xf_index(r, c), w, 'cell_xf_index')
            sx.check_same(sh.cell(r, c).xf_index, w, 'Cell.xf_index')


def hier2(sx, X, case):
    """BIFF2: own attributes, the row's default, the column's default, else 15."""
    bv, own = case['bv'], case['own']
    sx.reach('hier2')

    def attrs(nm):
        if bv == 21:
            x = sx.int(nm, 0, 62)
            return sx.cat(x, sx.u8(nm + 'p'), sx.u8(nm + 'q')), x
        f = {'c': 1, 'r': 2}.get(nm[0], 0) if nm != 'own0' else sx.fork(sx.int(nm, 0, 2))
        return bytes([0x40, f + 64 * f, f]), f
    recs, rows, cols, mine = [], {}, {}, {}
    lo, hi = sx.fork(sx.int('lo', 0, 1)), sx.fork(sx.int('hi', 1, 3))
    if lo < hi:
        body = []
        for c in range(lo, hi):
            a, cols[c] = attrs('col%d' % c)
            body.append(a)
        recs.append(B.rec(sx, 0x20, struct.pack('<HH', lo, hi), *body))
    for r in range(2):
        kind = sx.fork(sx.int('rk%d' % r, 0, 2))
        if kind == 0:
            continue
        if kind == 1:
            recs.append(B.rec(sx, 8, sx.pack('<HHHHHBBB', r, 0, 3, 255, 0, 0, 0, 0)))
        elif bv == 20:
            a, rows[r] = attrs('row%d' % r)
            # with or without the number of an XF record, of which there are none
            x = b'\0\0' if sx.fork(sx.int('rx%d' % r, 0, 1)) else b''
            recs.append(B.rec(sx, 8, sx.pack('<HHHHHBH', r, 0, 3, 255, 0, 1, 0), a, x))
        else:
            rows[r] = sx.int('row%d' % r, 0, 62)
            recs.append(B.rec(sx, 8, sx.pack('<HHHHHBHBBBH', r, 0, 3, 255, 0, 1, 0, sx.u8('ra%d' % r), 1, 0, rows[r])))
    for r, c in [(0, 0), (1, 1)][:own]:
        a, mine[r, c] = attrs('own%d' % r)
        recs.append(B.rec(sx, 1, struct.pack('<HH', r, c), a))
    a, mine[1, 2] = attrs('last')
    recs.append(B.rec(sx, 1, struct.pack('<HH', 1, 2), a))
    fm = [B.rec(sx, 0x1E, bytes([len(f)]) + f) for f in (b'General', b'0', b'0.00')]
    xr = [B.rec(sx, 0x43, bytes(4))] * 63 if bv == 21 else []
    bk = B.open_wb(sx, X, B.single(sx, 20, fm + xr + [B.dim(sx, 20, 2, 3)] + recs), formatting_info=True)
    sh = bk.sheet_by_index(0)
    sx.check_same((sh.nrows, sh.ncols), (2, 3), 'extent')
    for r in range(2):
        for c in range(3):
            w = mine.get((r, c), rows.get(r, cols.get(c)))
            got = sh.cell_xf_index(r, c)
            sx.check_same(sh.cell(r, c).xf_index, got, 'Cell.xf_index')
            if w is None or bv == 21:
                sx.check_same(got, 15 if w is None else w, 'cell_xf_index')
            else:
                x = bk.xf_list[sx.fork(got)]
                sx.check_same((x.format_key, x.font_index, x.alignment.hor_align), (w, w, w), 'format of the cell')


def width(sx, X, case):
    bv, p = case['bv'], case['p']
    sx.reach('width')
    recs = []
    lo, hi, cw = 2, 200, sx.u16('cw')
    sw, dw = sx.u16('sw'), sx.u16('dw')
    gcw = None
    if p & 1:
        recs.append(B.rec(sx, 0x7D, sx.pack('<HHHHHH', lo, hi, cw, 15, 0, 0)))
    if p & 2:
        recs.append(B.rec(sx, 0x99, sx.pack('<H', sw)))
    if p & 4:
        recs.append(B.rec(sx, 0x55, sx.pack('<H', dw)))
    if p & 8:
        gcw = sx.bytes('gcw', 32)
        recs.append(B.rec(sx, 0xAB, b'\x20\0', gcw))
    bk = B.open_wb(sx, X, sheetwb(sx, bv, recs), formatting_info=True)
    sh = bk.sheet_by_index(0)
    dflt = dw * 256 if p & 4 else 2048
    cols = (0, 1, 2, 7, 8, 31, 32, 100, 199, 200, 201, 255)
    if gcw is not None:
        cols = [cols[sx.fork(sx.int('ci', 0, 11))]]
    for col in cols:
        ci = cw if p & 1 and lo <= col <= hi else None
        if bv == 80:
            w = ci if ci is not None else (sw if p & 2 else dflt)
        elif bv >= 40:
            bit = (sx.items(gcw)[col // 8] >> (col % 8)) & 1 if gcw is not None else 0
            w = sx.ite(bit == 1, sw if p & 2 else dflt, ci if ci is not None else dflt)
        else:
            w = ci if ci is not None else dflt
        sx.check_same(sh.computed_column_width(col), w, 'computed column width')
    sx.check_same(sh.standardwidth, sw if p & 2 else None, 'standardwidth')
    sx.check_same(sh.defcolwidth, dw if p & 4 else None, 'defcolwidth')


def b2(sx, X, case):
    what = case['what']
    sx.reach('b2')
    recs = []
    if what == 'row':
        want = {}
        for i in range(2):
            r = sx.fork(sx.int('r%d' % i, 0, 1))
            h = sx.u16('h%d' % i)
            recs.append(B.rec(sx, 0x08, sx.pack('<HHHHHBBB', r, 0, 0, h, 0, 0, 0, 0)))
            want[r] = (bits(h, 0, 15), bits(h, 15, 1), 0, -1)
        bk = B.open_wb(sx, X, sheetwb(sx, 20, recs), formatting_info=True)
        rm = bk.sheet_by_index(0).rowinfo_map
        sx.check_same(sorted(rm.keys()), sorted(want), 'rows with information')
        for r in want:
            x = rm[r]
            sx.check_same((x.height, x.has_default_height, x.has_default_xf_index, x.xf_index), want[r], 'BIFF2 row')
        return
    if what == 'rowxf':
        # with XF records: the row names its XF
        h, x = sx.u16('h'), sx.u16('x')
        sx.assume(x != 63)
        recs.append(B.rec(sx, 0x08, sx.pack('<HHHHHBHBBBH', 1, 0, 0, h, 0, 1, 0, 0, 0, 0, x)))
        pre = [B.rec(sx, 0x43, bytes(4))] * 16
        bk = B.open_wb(sx, X, B.single(sx, 20, [B.rec(sx, 0x1E, b'\x07General')] + pre + [B.dim(sx, 20, 0, 0)] + recs),
                       formatting_info=True)
        ri = bk.sheet_by_index(0).rowinfo_map[1]
        sx.check_same((ri.height, ri.has_default_height, ri.has_default_xf_index, ri.xf_index),
                      (bits(h, 0, 15), bits(h, 15, 1), 1, x), 'BIFF2 row with XF')
        return
    attr = sx.bytes('attr', 3)
    its = sx.items(attr)
    sx.assume(its[0] & 0x3F == 0)
    fk = sx.fork(its[1] & 0x3F)
    sx.assume(fk < 2)

    def xfok(xf):
        sx.check_same((xf.font_index, xf.format_key, xf.protection.cell_locked, xf.alignment.hor_align),
                      (its[1] >> 6, fk, bits(its[0], 6, 1), bits(its[2], 0, 3)), 'XF of the default attributes')
    if what == 'rowattr':
        recs.append(B.rec(sx, 0x08, sx.pack('<HHHHHBH', 1, 0, 0, 300, 0, 1, 0), attr))
        bk = B.open_wb(sx, X, sheetwb(sx, 20, recs), formatting_info=True)
        ri = bk.sheet_by_index(0).rowinfo_map[1]
        sx.check_same(ri.has_default_xf_index, 1, 'default XF flag')
        xfok(bk.xf_list[ri.xf_index])
        return
    if what == 'colwidth':
        want = {}
        for i in range(2):
            lo, hi, w = sx.fork(sx.int('lo%d' % i, 0, 2)), sx.fork(sx.int('hi%d' % i, 0, 2)), sx.u16('w%d' % i)
            recs.append(B.rec(sx, 0x24, sx.pack('<BBH', lo, hi, w)))
            for c in range(lo, hi + 1):
                want[c] = w
        bk = B.open_wb(sx, X, sheetwb(sx, 20, recs), formatting_info=True)
        cm = bk.sheet_by_index(0).colinfo_map
        sx.check_same(sorted(cm.keys()), sorted(want), 'columns with information')
        for c in want:
            sx.check_same(cm[c].width, want[c], 'BIFF2 column width')
        return
    lo = sx.fork(sx.int('lo', 0, 1))
    w = sx.u16('w')
    recs.append(B.rec(sx, 0x24, sx.pack('<BBH', 1, 1, w)))
    recs.append(B.rec(sx, 0x20, sx.pack('<HH', lo, lo + 2), b'\x40\0\0', attr))
    bk = B.open_wb(sx, X, sheetwb(sx, 20, recs), formatting_info=True)
    cm = bk.sheet_by_index(0).colinfo_map
    sx.check_same(sorted(cm.keys()), sorted({1, lo, lo + 1}), 'columns with information')
    sx.check_same(cm[1].width, w, 'width kept')
    xfok(bk.xf_list[cm[lo + 1].xf_index])
    x0 = bk.xf_list[cm[lo].xf_index]
    sx.check_same((x0.font_index, x0.format_key, x0.protection.cell_locked), (0, 0, 1), 'first column default')
