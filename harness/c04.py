"""C04: RK / MULRK numbers."""
from . import biff as B

PROP = 'C04'
BOUNDS = ['one RK record at each of 5 addresses, all 2**32 RK bit patterns, 3 XFs (general, date, '
          'text), formatting_info on and off',
          'one MULRK record with 1 to 3 (thorough: 5) cells, every RK pattern and every one of 3 XFs '
          'per cell, first column 0, 1, 252 and 253; BIFF8 and BIFF7']
ASSUMES = ['The XF index of each cell refers to an XF record present in the workbook.']
REACH = ['rk', 'mulrk']
FMTS = (0, 14, 0x31)
CT = (2, 3, 2)


def cases(tier):
    out = []
    for biff in (80, 70):
        for fi in (0, 1):
            for r, c in ((0, 0), (1, 2), (0, 255), (16383, 1), (3, 0)):
                if r == 16383 and fi:
                    continue
                out.append({'name': 'rk-%d-%d-%d-%d' % (biff, fi, r, c), 'k': 'rk', 'biff': biff,
                            'fi': fi, 'r': r, 'c': c})
            for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
                for c in (0, 1, 253 if n <= 3 else 251):
                    if tier == 'quick' and n == 3 and (fi or biff == 70):
                        continue
                    out.append({'name': 'mulrk-%d-%d-%d-%d' % (biff, fi, n, c), 'k': 'mulrk',
                                'biff': biff, 'fi': fi, 'r': 1, 'c': c, 'n': n, 'weight': n})
    return out


def oracle(sx, u):
    """The double denoted by a 32-bit RK pattern."""
    if u & 2:
        i = u >> 2
        i = sx.ite(i >= 1 << 29, i - (1 << 30), i)
        v = float(i)
    else:
        v = sx.float_of_bits((u & 0xFFFFFFFC) << 32)
    if u & 1:
        v = v / 100.0
    return v


def harness(sx, X, case):
    biff, fi = case['biff'], case['fi']
    n = case.get('n', 1)
    cells = {}
    r, c = case['r'], case['c']
    body = []
    for k in range(n):
        xf = sx.int('xf%d' % k, 0, 2)
        u = sx.u32('rk%d' % k)
        v = oracle(sx, u)
        ct = sx.ite(xf == 1, 3, 2)
        cells[(r, c + k)] = (ct, v, xf if fi else None)
        body.append((xf, u))
    if case['k'] == 'rk':
        xf, u = body[0]
        recs = [B.rec(sx, 0x27E, sx.pack('<HHHI', r, c, xf, u))]
        sx.reach('rk')
    else:
        recs = [B.rec(sx, 0xBD, sx.pack('<HH', r, c), *([sx.pack('<HI', xf, u) for xf, u in body] +
                                                         [sx.pack('<H', c + n - 1)]))]
        sx.reach('mulrk')
    wb = B.workbook(sx, [recs], B.std_globals(sx, biff, FMTS), biff=biff)
    bk = B.open_wb(sx, X, wb, formatting_info=bool(fi))
    sh = bk.sheet_by_index(0)
    sx.check_same(sh.nrows, r + 1, 'nrows')
    sx.check_same(sh.ncols, c + n, 'ncols')
    rows = [r] if r > 100 else range(r + 1)
    for rr in rows:
        for cc in range(sh.ncols):
            cell = sh.cell(rr, cc)
            if (rr, cc) in cells:
                ct, v, xf = cells[(rr, cc)]
                sx.check_same(cell.value, v, 'value of the RK cell')
                sx.check_same(cell.ctype, ct, 'type of the RK cell')
                if fi:
                    sx.check_same(cell.xf_index, xf, 'xf index of the RK cell')
                sx.observe('v', cell.value)
            elif cc < 4 or cc > 250:
                sx.check_same((cell.ctype, cell.value), (0, ''), 'other cells stay empty')
