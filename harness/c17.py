"""C17: merged cells, label ranges, page breaks."""
import struct
from . import biff as B

PROP = 'C17'
BOUNDS = ['merged ranges: up to 3 records of 0 to 3 (and 300 to 1027, six of them arbitrary) ranges with arbitrary bounds within the full sheet; their '
          'effect on the extent with 1 or 2 arbitrary ranges within 4 x 4 and 0 or 1 cell anywhere in 4 x 4, ragged or '
          'not; BIFF8, and BIFF7 files carrying the record',
          'label ranges: up to 2 records of 0 to 3 (and up to 500) row and column ranges, all bit patterns',
          'page breaks: up to 2 records each of 0 to 4, 256 or 1026 breaks, all bit patterns, BIFF8, 7, 5, 4 and 3']
ASSUMES = ['Merged ranges lie within the sheet size of the version.']
ISO = {'after': '(merged-80-[12]|labels-256-3|breaks-80-.*|dims-80-1-0-0)', 'beside': '(merged-80-[12]|labels-256-3|breaks-(80|70)-.*|dims-80-1-0-0)', 'ole': '(merged-80-[12]|labels-256-3|breaks-80-.*)'}
REACH = ['merged', 'dims', 'labels', 'breaks', 'nofmt']
OPTS = {'max_steps': 3000000}


def cases(tier):
    out = []
    th = tier != 'quick'
    shapes = [(1,), (2,), (0, 1), (2, 1), (3, 0, 1)] + ([(4, 4), (1, 1, 1, 1)] if th else [])
    for bv in (80, 70):
        for s in shapes:
            out.append({'name': 'merged-%d-%s' % (bv, '.'.join(map(str, s))), 'k': 'merged', 'bv': bv, 's': s,
                        'weight': 8})
        for n in (1, 2):
            for cell in (0, 1):
                for rag in (0, 1):
                    out.append({'name': 'dims-%d-%d-%d-%d' % (bv, n, cell, rag), 'k': 'dims', 'bv': bv, 'n': n,
                                'cell': cell, 'rag': rag, 'weight': 10 ** n})
    for bv in (80, 70):
        for s in ((300,), (1027,), (1026, 1027, 5)):
            out.append({'name': 'merged-%d-%s' % (bv, '.'.join(map(str, s))), 'k': 'merged', 'bv': bv, 's': s,
                        'weight': 20})
        for a, b in ((256, 3), (4, 300), (500, 500)):
            if bv == 80:
                out.append({'name': 'labels-%d-%d' % (a, b), 'k': 'labels', 'bv': 80, 'a': a, 'b': b, 'weight': 20})
    for bv in (80, 70, 50, 40, 30):
        for a in (256, 1026):
            out.append({'name': 'breaks-%d-%d' % (bv, a), 'k': 'breaks', 'bv': bv, 'a': a, 'weight': 20})
    for a in range(4):
        for b in range(4):
            out.append({'name': 'labels-%d-%d' % (a, b), 'k': 'labels', 'bv': 80, 'a': a, 'b': b})
    for bv in (80, 70, 50, 40, 30):
        for a in range(0, 5):
            out.append({'name': 'breaks-%d-%d' % (bv, a), 'k': 'breaks', 'bv': bv, 'a': a})
    return out


def rng(sx, nm, rmax, cmax):
    r1, r2 = sx.int(nm + 'r', 0, rmax), sx.int(nm + 's', 0, rmax)
    c1, c2 = sx.int(nm + 'c', 0, cmax), sx.int(nm + 'd', 0, cmax)
    return r1, r2, c1, c2


def lst(sx, nm, n, rmax, cmax, want, ordered=True):
    out = [struct.pack('<H', n)]
    for i in range(n):
        if ordered and n > 20 and i not in (0, 1, 255, 256, n - 2, n - 1):
            r1, r2, c1, c2 = i, i + i % 7, i % 250, i % 250 + i % 5
        else:
            r1, r2, c1, c2 = rng(sx, '%s%d' % (nm, i), rmax, cmax)
        if ordered:
            sx.assume(r1 <= r2)
            sx.assume(c1 <= c2)
        out.append(sx.pack('<HHHH', r1, r2, c1, c2))
        want.append((r1, r2 + 1, c1, c2 + 1))
    return sx.cat(*out)


def sheet(sx, X, bv, recs, **kw):
    s = B.workbook(sx, [recs], biff=bv) if bv >= 50 else B.single(sx, bv, [B.dim(sx, bv, 0, 0)] + recs)
    return B.open_wb(sx, X, s, **kw).sheet_by_index(0)


def harness(sx, X, case):
    k, bv = case['k'], case['bv']
    if k == 'merged':
        sx.reach('merged')
        m = 65536 if bv == 80 else 16384
        want = [(0, m, 0, 256)]
        recs = [B.rec(sx, 0xE5, struct.pack('<HHHHH', 1, 0, m - 1, 0, 255))]
        for i, n in enumerate(case['s']):
            recs.append(B.rec(sx, 0xE5, lst(sx, 'm%d_' % i, n, m - 1, 255, want)))
        sh = sheet(sx, X, bv, recs, formatting_info=True, ragged_rows=True)
        sx.check_same(list(sh.merged_cells), want, 'merged ranges')
        sx.check_same((sh.nrows, sh.ncols), (m, 256), 'extent')
        return
    if k == 'dims':
        sx.reach('dims')
        want, recs = [], []
        nr = nc = 0
        if case['cell']:
            r, c = sx.fork(sx.int('r', 0, 3)), sx.fork(sx.int('c', 0, 3))
            recs.append(B.rec(sx, 0x205, struct.pack('<HHHBB', r, c, 0, 1, 0)))
            nr, nc = r + 1, c + 1
        recs.append(B.rec(sx, 0xE5, lst(sx, 'm', case['n'], 3, 3, want)))
        sh = sheet(sx, X, bv, recs, formatting_info=True, ragged_rows=bool(case['rag']))
        sx.check_same(list(sh.merged_cells), want, 'merged ranges')
        for w in want:
            nr = sx.ite(w[1] > nr, w[1], nr)
            nc = sx.ite(w[3] > nc, w[3], nc)
        sx.check_same((sh.nrows, sh.ncols), (nr, nc), 'extent includes the merged ranges')
        for i in range(sh.nrows):
            ln = sh.row_len(i)
            if not case['rag']:
                sx.check_same(ln, sh.ncols, 'row length')
            for j in range(ln):
                here = case['cell'] and (i, j) == (r, c)
                sx.check_same(sh.cell_type(i, j), 4 if here else 0, 'cell type')
                sx.check_same(sh.cell_value(i, j), 1 if here else '', 'cell value')
        return
    if k == 'labels':
        sx.reach('labels')
        wr, wc, recs = [], [], []
        for i in range(2):
            recs.append(B.rec(sx, 0x15F, lst(sx, 'r%d_' % i, case['a'] if i == 0 else 1, 65535, 65535, wr, False),
                              lst(sx, 'c%d_' % i, case['b'], 65535, 65535, wc, False)))
        sh = sheet(sx, X, bv, recs)
        sx.check_same(list(sh.row_label_ranges), wr, 'row label ranges')
        sx.check_same(list(sh.col_label_ranges), wc, 'column label ranges')
        return
    sx.reach('breaks')
    wh, wv, recs = [], [], []
    for rc, want, nm, end in ((0x1B, wh, 'h', 255), (0x1A, wv, 'v', 65535)):
        for i in range(2):
            n = case['a'] if (i == 0) == (nm == 'h') else 1
            out = [struct.pack('<H', n)]
            for j in range(n):
                a = sx.u16('%s%d_%d' % (nm, i, j))
                if bv == 80:
                    b, c = sx.u16('%s%d_%db' % (nm, i, j)), sx.u16('%s%d_%dc' % (nm, i, j))
                    out.append(sx.pack('<HHH', a, b, c))
                    want.append((a, b, c))
                else:
                    out.append(sx.pack('<H', a))
                    want.append((a, 0, end))
            recs.append(B.rec(sx, rc, *out))
    sh = sheet(sx, X, bv, recs, formatting_info=True)
    sx.check_same([tuple(b) for b in sh.horizontal_page_breaks], wh, 'horizontal page breaks')
    sx.check_same([tuple(b) for b in sh.vertical_page_breaks], wv, 'vertical page breaks')
    sx.reach('nofmt')
    sh = sheet(sx, X, bv, recs)
    sx.check_same((list(sh.horizontal_page_breaks), list(sh.vertical_page_breaks)), ([], []),
                  'no page breaks without formatting information')
