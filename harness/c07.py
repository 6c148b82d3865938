"""C07: accessors and slices agree with the cells of the sheet."""
import struct
from . import biff as B

PROP = 'C07'
BOUNDS = ['sheets of 0 to 3 rows by 0 to 4 columns (ragged: every combination of row lengths 0..3, 3 rows; '
          'row slices of ragged sheets 2 rows in the quick tier), '
          'with text, numbers, dates, errors, blanks and padding; row and column default formats present',
          'every row and column index -n..n-1; slice starts and ends every integer in -1000..1000 or omitted',
          'sheets of 2x256, 259x3 and 300x2 cells: about 15 chosen indexes and 9 chosen slice bounds each']
ASSUMES = ['Column accessors of a ragged sheet are only asked for columns that every row in the slice has.']
REACH = ['cell', 'row', 'col', 'rslice', 'cslice', 'iter', 'ragged', 'big']
FMTS = (0, 14, 0x31)
LIM = 1000


def cases(tier):
    out = []
    shapes = [(1, 1), (2, 3), (3, 2), (3, 4), (1, 3), (3, 1)]
    for fi in (0, 1):
        for nr, nc in shapes:
            for what in ('cell', 'row', 'col', 'rslice', 'cslice'):
                if fi and what in ('rslice', 'cslice') and (nr, nc) not in ((2, 3), (3, 2)) and tier == 'quick':
                    continue
                out.append({'name': '%s-%dx%d-fi%d' % (what, nr, nc, fi), 'nr': nr, 'nc': nc, 'fi': fi,
                            'what': what, 'weight': nr * nc})
        out.append({'name': 'iter-0x0-fi%d' % fi, 'nr': 0, 'nc': 0, 'fi': fi, 'what': 'row'})
        for what in ('cell', 'row', 'rslice', 'cslice'):
            for l0 in range(4):
                if what == 'cslice' and not l0 or tier == 'quick' and fi and l0 in (1, 2):
                    continue
                out.append({'name': 'ragged-%s-%d-fi%d' % (what, l0, fi), 'fi': fi, 'what': what, 'l0': l0,
                            'nr': 2 if what == 'rslice' and tier == 'quick' else 3, 'nc': 3, 'rag': 1,
                            'weight': 9})
    for nr, nc in ((2, 256), (300, 2), (259, 3)):
        for fi in (0, 1):
            for what in ('cell', 'row', 'col', 'rslice', 'cslice'):
                if what == 'row' and fi or what == 'rslice' and nc < 9 or what == 'cslice' and nr != 300:
                    continue
                out.append({'name': 'big-%s-%dx%d-fi%d' % (what, nr, nc, fi), 'nr': nr, 'nc': nc, 'fi': fi, 'what': what,
                            'big': 1, 'weight': 40, 'opts': {'max_steps': 6000000}})
    return out


def pick(sx, case, nm, lo, hi):
    """An index of lo..hi; in a large sheet one of about a dozen of them."""
    if not case.get('big') or hi - lo < 10 and 'slice' not in case['what']:
        return sx.int(nm, lo, hi)
    if 'slice' in case['what']:
        return (lo, hi)[sx.fork(sx.int(nm, 0, 1))]
    v = [x for x in (lo, lo + 1, -257, -256, -255, -2, -1, 0, 1, 2, 127, 254, 255, 256, 257, hi - 1, hi) if lo <= x <= hi]
    v = sorted(set(v))
    return v[sx.fork(sx.int(nm, 0, len(v) - 1))]


def harness(sx, X, case):
    nr, nc, fi, what = case['nr'], case['nc'], case['fi'], case['what']
    rag = case.get('rag', 0)
    lens = [nc] * nr
    if rag:
        sx.reach('ragged')
        lens = [case['l0']] + ([sx.fork(sx.int('l1', 0, 3))] if nr == 3 else []) + [sx.fork(sx.int('l2', 1, 3))]
        if what == 'cslice' and nr == 3:
            sx.assume(lens[1] >= 1)
    if case.get('big'):
        sx.reach('big')
    recs = [B.rec(sx, 0x7D, struct.pack('<HHHHHH', 1, 1, 2560, 2, 0, 0)),
            B.rec(sx, 0x208, struct.pack('<HHHHHHi', nr - 1 if nr else 0, 0, 4, 300, 0, 0, 0x80 | (1 << 16)))]
    model = [[(0, '') for _ in range(n)] for n in lens]
    k = 0
    for r in range(nr):
        for c in range(lens[r]):
            k += 1
            if not rag and (r, c) in ((0, 0), (nr - 1, nc - 1)) and nr * nc > 2:
                # leave padding in two corners unless it would shrink the sheet
                if (r, c) == (0, 0) or (nr > 1 and nc > 1):
                    continue
            adr = struct.pack('<HHH', r, c, k % 3)
            kind = k % 4
            if kind == 0:
                recs.append(B.rec(sx, 0x204, adr, B.ustr(sx, 't%d' % k)))
                model[r][c] = (1, 't%d' % k)
            elif kind == 1:
                d = sx.double('d%d' % k)
                recs.append(B.rec(sx, 0x203, adr, sx.pack('<Q', sx.float_bits(d))))
                model[r][c] = (3 if k % 3 == 1 else 2, d)
            elif kind == 2:
                recs.append(B.rec(sx, 0x205, adr, bytes([k & 255, 1])))
                model[r][c] = (5, k & 255)
            elif fi:
                recs.append(B.rec(sx, 0x201, adr))
                model[r][c] = (6, '')
            else:
                recs.append(B.rec(sx, 0x205, adr, bytes([1, 0])))
                model[r][c] = (4, 1)
    bk = B.open_wb(sx, X, B.workbook(sx, [recs], B.std_globals(sx, 80, FMTS)),
                   formatting_info=bool(fi), ragged_rows=bool(rag))
    sh = bk.sheet_by_index(0)
    sx.check_same(sh.nrows, nr, 'nrows')
    sx.check_same(sh.ncols, max(lens or [0]), 'ncols')

    def xfx(r, c):
        """The format index as the base accessor gives it for non-negative indexes."""
        return sh.cell_xf_index(r, c) if fi else None

    def cells_are(got, exp, label):
        """got: list of Cell; exp: list of (r, c)."""
        sx.check(len(got) == len(exp), label + ': length')
        if len(got) != len(exp):
            return
        for cell, (r, c) in zip(got, exp):
            t, v = model[r][c]
            sx.check_same(cell.ctype, t, label + ': type')
            sx.check_same(cell.value, v, label + ': value')
            sx.check_same(cell.xf_index, xfx(r, c), label + ': format index')

    def vals_are(got, exp, label, k):
        sx.check_same(list(got), [model[r][c][k] for r, c in exp], label)

    if what == 'row' and not nr:
        sx.check_same(list(sh.get_rows()), [], 'iteration over an empty sheet')
        sx.check_same(list(sh), [], 'iteration over an empty sheet')
        return
    if what in ('cell', 'row', 'rslice'):
        R = sx.fork(pick(sx, case, 'R', -nr, nr - 1))
        r = R % nr
    if what == 'cell':
        sx.reach('cell')
        sx.assume(lens[r] > 0)
        C = sx.fork(pick(sx, case, 'C', -lens[r], lens[r] - 1))
        c = C % lens[r]
        t, v = model[r][c]
        sx.check_same(sh.cell_value(R, C), v, 'cell_value')
        sx.check_same(sh.cell_type(R, C), t, 'cell_type')
        cells_are([sh.cell(R, C)], [(r, c)], 'cell')
        cells_are([sh[R, C]], [(r, c)], 'sheet[row, col]')
        cells_are([sh[R][C]], [(r, c)], 'sheet[row][col]')
        if fi:
            sx.check_same(sh.cell_xf_index(R, C), xfx(r, c), 'cell_xf_index of a negative index')
            own = {(a, b) for a in range(nr) for b in range(lens[a]) if model[a][b][0]}
            if (r, c) in own:
                want = sum(lens[:r], c + 1) % 3
            else:
                want = 1 if r == nr - 1 else (2 if c == 1 else 15)
            sx.check_same(xfx(r, c), want, 'cell_xf_index')
    elif what == 'row':
        sx.reach('row')
        exp = [(r, c) for c in range(lens[r])]
        cells_are(sh.row(R), exp, 'row')
        cells_are(sh[R], exp, 'sheet[row]')
        cells_are(sh.row_slice(R), exp, 'row_slice without bounds')
        vals_are(sh.row_values(R), exp, 'row_values', 1)
        vals_are(sh.row_types(R), exp, 'row_types', 0)
        sx.check_same(sh.row_len(R), lens[r], 'row_len')
        sx.reach('iter')
        rows = list(sh.get_rows())
        sx.check(len(rows) == nr, 'iteration: number of rows')
        for i, row in enumerate(rows):
            cells_are(row, [(i, c) for c in range(lens[i])], 'get_rows')
        for i, row in enumerate(sh):
            cells_are(row, [(i, c) for c in range(lens[i])], 'iteration')
    elif what in ('rslice', 'cslice'):
        if case.get('big'):
            m = nc if what == 'rslice' else nr
            v = (-m - 1, 1 - m, -1, 0, 255, 256, m - 1, m + 1, None)
            lo = v[sx.fork(sx.int('lo', 0, len(v) - 1))]
            hi = v[sx.fork(sx.int('hi', 0, len(v) - 1))]
        else:
            lo = sx.int('lo', -LIM, LIM)
            hi = sx.int('hi', -LIM, LIM)
        kw = {}
        omit = sx.fork(sx.int('omit', 0, 3)) if not case.get('big') else (lo is None) + 2 * (hi is None)
        omit_lo, omit_hi = bool(omit & 1), bool(omit & 2)
        if what == 'rslice':
            sx.reach('rslice')
            a, b, first, idx = 'start_colx', 'end_colx', R, [(r, c) for c in range(lens[r])]
            fs = sh.row_slice, sh.row_values, sh.row_types
        else:
            sx.reach('cslice')
            width = min(lens)
            # negative columns of ragged rows count from each row's own end
            C = sx.fork(pick(sx, case, 'C', 0 if rag else -width, width - 1))
            c = C % width
            a, b, first, idx = 'start_rowx', 'end_rowx', C, [(i, c) for i in range(nr)]
            fs = sh.col_slice, sh.col_values, sh.col_types
        if not omit_lo:
            kw[a] = lo
        if not omit_hi:
            kw[b] = hi
        n = len(idx)

        def edge(x):
            return sx.fork(sx.ite(x < 0, sx.ite(x < -n, 0, x + n), sx.ite(x > n, n, x)))
        exp = idx[0 if omit_lo else edge(lo):n if omit_hi else edge(hi)]
        cells_are(fs[0](first, **kw), exp, what + ' of cells')
        vals_are(fs[1](first, **kw), exp, what + ' of values', 1)
        vals_are(fs[2](first, **kw), exp, what + ' of types', 0)
        if what == 'cslice' and not rag:
            cells_are(sh.col(first, **kw), exp, 'col')
        sx.observe('n', len(exp))
    elif what == 'col':
        sx.reach('col')
        C = sx.fork(pick(sx, case, 'C', -nc, nc - 1))
        exp = [(i, C % nc) for i in range(nr)]
        cells_are(sh.col(C), exp, 'col')
        cells_are(sh.col_slice(C), exp, 'col_slice without bounds')
        vals_are(sh.col_values(C), exp, 'col_values', 1)
        vals_are(sh.col_types(C), exp, 'col_types', 0)
