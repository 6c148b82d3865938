"""C13: a numeric cell is a date exactly when its number format is a date format."""
import struct
from . import biff as B

PROP = 'C13'
DATES = [(14, 22), (27, 36), (45, 47), (50, 58), (71, 81)]
TMPL = ['yy??m', 'm?d?yy', 'h:mm?A', '"?h"0?', 'd\\?0?', '[?]h?', '0[?h]?', '_?d*?0', '#?h?;?', '[h?:m]?',
        '??"d"?', 'Genera?', '?.00E+00', '0?"?"?d', 'yd?mh?00', '[$-?]d?m']
BOUNDS = ['stored format strings of 0 to 4 (thorough: 6) arbitrary 8-bit characters, 0 to 3 (thorough: 4) arbitrary '
          '16-bit ones, and the %d skeletons %s with every "?" an arbitrary 8-bit character (thorough: also 16-bit)'
          % (len(TMPL), ' '.join(TMPL)),
          'format keys 0..65535, with and without a stored string, up to two FORMAT records (possibly with the same '
          'key), 3 XFs; 300 FORMAT records and 600 XFs; NUMBER, RK, MULRK and numeric FORMULA cells; BIFF8, BIFF7, and BIFF4, 3 and 2 single sheets '
          '(there the format number is the position of the FORMAT record)']
ASSUMES = ['FORMAT records precede the XF records (as Excel writes them); an ambiguous string, i.e. as many date '
           'letters as digit placeholders, is not a date.']
ISO = {'after': 'std-.*|two-80-1|legacy-[234].|many-80-164', 'ole': 'std-80|two-80-1'}
REACH = ['free', 'tmpl', 'std', 'stored', 'two', 'many', 'legacy', 'date', 'number']


def cases(tier):
    out = []
    th = tier != 'quick'
    for n in range(0, 7 if th else 5):
        out.append({'name': 'free-8-%d' % n, 'k': 'free', 't': '?' * n, 'wide': 0, 'weight': 6 ** n})
    for n in range(1, 5 if th else 4):
        out.append({'name': 'free-16-%d' % n, 'k': 'free', 't': '?' * n, 'wide': 1, 'weight': 6 ** n})
    for i, t in enumerate(TMPL):
        for w in (0, 1) if th else (0,):
            out.append({'name': 'tmpl-%d-%d' % (i, w), 'k': 'tmpl', 't': t, 'wide': w, 'weight': 100})
    for bv in (80, 70):
        out.append({'name': 'std-%d' % bv, 'k': 'std', 'bv': bv, 'weight': 50})
        for s in ('yy', '0.0', 'General', '@', '"yy"0', ''):
            for sk in (1, 14, 22, 27, 49, 58, 63, 81, 163, 164, 65535) if s == 'yy' and bv == 80 or th else (2, 15):
                out.append({'name': 'stored-%d-%s-%d' % (bv, s, sk), 'k': 'stored', 'bv': bv, 's': s, 'sk': sk,
                            'weight': 50})
        for sk in (1, 30, 200):
            out.append({'name': 'two-%d-%d' % (bv, sk), 'k': 'two', 'bv': bv, 'sk': sk, 'weight': 50})
    out.append({'name': 'legacy-70', 'k': 'free', 't': '???', 'wide': 0, 'bv': 70, 'weight': 50})
    for bv in (80, 70):
        for lo in (164, 65236):
            out.append({'name': 'many-%d-%d' % (bv, lo), 'k': 'many', 'bv': bv, 'lo': lo, 'weight': 50})
    for bv in (45, 40, 30, 21, 20):
        out.append({'name': 'legacy-%d' % bv, 'k': 'legacy', 'bv': bv, 'weight': 50})
    return out


def isdate(sx, cs):
    """The documented classification of a stored format string, without forks."""
    n = len(cs)
    state = 0                       # 0 plain, 1 in quotes, 2 after an escape
    keep = []
    for c in cs:
        esc = sx.Or(c == 0x5C, c == 0x5F, c == 0x2A)
        q = c == 0x22
        plain = state == 0
        keep.append(sx.And(plain, sx.Not(q), sx.Not(esc)))
        state = sx.ite(plain, sx.ite(q, 1, sx.ite(esc, 2, 0)), sx.ite(state == 1, sx.ite(q, 0, 1), 0))
    inb = False
    dates = digits = 0
    for i, c in enumerate(cs):
        later = sx.Or(False, *[sx.And(keep[j], cs[j] == 0x5D) for j in range(i + 1, n)])
        opens = sx.And(keep[i], sx.Not(inb), c == 0x5B, later)
        skip = sx.Or(inb, opens, sx.Not(keep[i]))
        closes = sx.And(keep[i], inb, c == 0x5D)
        d = sx.Or(False, *[c == ord(x) for x in 'ymdhsYMDHS'])
        g = sx.Or(*[c == ord(x) for x in '0#?'])
        dates = dates + sx.ite(sx.And(d, sx.Not(skip)), 1, 0)
        digits = digits + sx.ite(sx.And(g, sx.Not(skip)), 1, 0)
        inb = sx.And(sx.Or(inb, opens), sx.Not(closes))
    return dates > digits


def fmtrec(sx, bv, key, body, n):
    if bv >= 80:
        return B.rec(sx, 0x41E, sx.pack('<H', key), body)
    if bv >= 50:
        return B.rec(sx, 0x41E, sx.pack('<H', key), body)
    if bv >= 40:
        return B.rec(sx, 0x41E, b'\0\0', body)
    return B.rec(sx, 0x1E, body)


def strbody(sx, bv, cs, wide=0):
    if bv >= 80:
        return sx.cat(struct.pack('<HB', len(cs), wide), B.raw8(sx, cs, wide))
    return sx.cat(len(cs), sx.mkbytes(cs))


def numcells(sx, xf):
    """All ways to store a number; addresses (0, 0..4)."""
    rk = struct.pack('<i', 5 << 2 | 2)
    return [B.rec(sx, 0x203, sx.pack('<HHH', 0, 0, xf), struct.pack('<d', 5.0)),
            B.rec(sx, 0x27E, sx.pack('<HHH', 0, 1, xf), rk),
            B.rec(sx, 0xBD, struct.pack('<HH', 0, 2), sx.pack('<H', xf), rk, sx.pack('<H', xf), rk,
                  struct.pack('<H', 3)),
            B.rec(sx, 0x06, sx.pack('<HHH', 0, 4, xf), struct.pack('<d', 5.0), struct.pack('<HIH', 0, 0, 3),
                  b'\x1e\x05\x00')]


def std(sx, key):
    return sx.Or(*[sx.And(key >= lo, key <= hi) for lo, hi in DATES])


def verify(sx, X, bk, exp, n=5):
    sh = bk.sheet_by_index(0)
    sx.check_same(sh.nrows, 1, 'rows')
    want = sx.ite(exp, 3, 2)
    for c in range(n):
        sx.check_same(sh.cell_type(0, c), want, 'cell type is date exactly for a date format')
        sx.check_same(sh.cell_value(0, c), 5.0, 'value')
    sx.observe('types', sh.row_types(0))
    if sh.cell_type(0, 0) == 3:
        sx.reach('date')
    else:
        sx.reach('number')


def harness(sx, X, case):
    k, bv = case['k'], case.get('bv', 80)
    fonts = [B.font8(sx) if bv == 80 else B.font7(sx) for _ in range(5)]
    xf = B.xf8 if bv == 80 else B.xf7
    if k in ('free', 'tmpl'):
        sx.reach(k)
        wide = case['wide']
        cs = []
        for i, ch in enumerate(case['t']):
            if ch == '?':
                c = sx.u16('c%d' % i) if wide else sx.u8('c%d' % i)
                if wide:
                    sx.assume(sx.Or(c < 0xD800, c >= 0xE000))
                elif bv < 80:
                    sx.assume(sx.Or(c < 0x80, c >= 0xA0))
                cs.append(c)
            else:
                cs.append(ord(ch))
        globs = fonts + [fmtrec(sx, bv, 164, strbody(sx, bv, cs, wide), len(cs)), xf(sx, fmt=0), xf(sx, fmt=164)]
        bk = B.open_wb(sx, X, B.workbook(sx, [numcells(sx, 1)], globs, biff=bv))
        sx.check_same(bk.format_map[164].format_str, sx.mkstr(cs), 'format string')
        verify(sx, X, bk, isdate(sx, cs))
        return
    if k == 'std':
        sx.reach(k)
        key = sx.u16('key')
        globs = fonts + [xf(sx, fmt=0), xf(sx, fmt=key), xf(sx, fmt=0)]
        x = sx.int('x', 0, 2)
        bk = B.open_wb(sx, X, B.workbook(sx, [numcells(sx, x)], globs, biff=bv))
        verify(sx, X, bk, sx.And(x == 1, std(sx, key)))
        return
    if k == 'stored':
        sx.reach(k)
        key, skey = sx.u16('key'), case['sk']
        s = case['s']
        cs = [ord(c) for c in s]
        globs = fonts + [fmtrec(sx, bv, skey, strbody(sx, bv, cs), len(cs)), xf(sx, fmt=0), xf(sx, fmt=key)]
        bk = B.open_wb(sx, X, B.workbook(sx, [numcells(sx, 1)], globs, biff=bv))
        verify(sx, X, bk, sx.ite(key == skey, s == 'yy', std(sx, key)))
        return
    if k == 'two':
        sx.reach(k)
        key = sx.u8('key')
        a, b = [sx.fork(sx.ite(sx.bool(n), case['sk'], 14)) for n in 'ab']
        globs = fonts + [fmtrec(sx, bv, a, strbody(sx, bv, [ord('d')]), 1),
                         fmtrec(sx, bv, b, strbody(sx, bv, [ord('0')]), 1), xf(sx, fmt=0), xf(sx, fmt=key)]
        bk = B.open_wb(sx, X, B.workbook(sx, [numcells(sx, 1)], globs, biff=bv))
        verify(sx, X, bk, sx.ite(key == b, False, sx.Or(key == a, std(sx, key))))
        return
    if k == 'many':
        # 300 formats with consecutive numbers, every third a date; 600 XFs, one of them with an arbitrary format
        sx.reach(k)
        lo, nf, nx = case['lo'], 300, 600
        fmts = [fmtrec(sx, bv, lo + i, strbody(sx, bv, [ord('d' if i % 3 == 1 else '0')]), 1) for i in range(nf)]
        key = (0, 22, lo - 1, lo, lo + 1, lo + 91, lo + 92, lo + 255, lo + 256, lo + 298, lo + 299,
               (lo + 300) % 65536)[sx.fork(sx.int('key', 0, 11))]
        pos = (1, 255, 256, 599)[sx.fork(sx.int('pos', 0, 3))]
        xfl = [xf(sx, fmt=0)] * nx
        xfl[pos] = xf(sx, fmt=key)
        x = (pos, 2, pos % 256 or 3, pos - 1)[sx.fork(sx.int('x', 0, 3))]
        bk = B.open_wb(sx, X, B.workbook(sx, [numcells(sx, x)], fonts + fmts + xfl, biff=bv))
        exp = sx.ite(sx.And(key >= lo, key < lo + nf), (key - lo) % 3 == 1, std(sx, key))
        verify(sx, X, bk, sx.And(x == pos, exp))
        return
    # BIFF2..4: the number of a format is its position
    sx.reach(k)
    strs = [[0x30], [0x22, sx.u8('c0'), 0x22, 0x6D], [sx.u8('c2')], [ord('y')]]
    for c in strs[1][1:2] + strs[2]:
        sx.assume(c < 0x80)
    key = sx.fork(sx.int('key', 0, 3))
    exp = sx.Or(*[sx.And(key == i, isdate(sx, s)) for i, s in enumerate(strs)])
    fmts = [fmtrec(sx, bv, i, strbody(sx, bv, s), len(s)) for i, s in enumerate(strs)]
    if bv >= 40:
        xfs = [B.rec(sx, 0x443, bytes(12))] * 15 + [B.rec(sx, 0x443, sx.cat(0, key, bytes(10)))]
        num = B.rec(sx, 0x203, struct.pack('<HHHd', 0, 0, 15, 5.0))
    elif bv == 30:
        xfs = [B.rec(sx, 0x243, bytes(12))] * 15 + [B.rec(sx, 0x243, sx.cat(0, key, bytes(10)))]
        num = B.rec(sx, 0x203, struct.pack('<HHHd', 0, 0, 15, 5.0))
    elif bv == 21:
        xfs = [B.rec(sx, 0x43, bytes(4))] * 15 + [B.rec(sx, 0x43, sx.cat(0, 0, key + 64, 0))]
        num = B.rec(sx, 0x03, struct.pack('<HH', 0, 0), b'\x0f\0\0', struct.pack('<d', 5.0))
    else:
        xfs = []
        num = B.rec(sx, 0x03, struct.pack('<HH', 0, 0), sx.cat(0, key, 0), struct.pack('<d', 5.0))
    s = B.single(sx, bv, fmts + xfs + [B.dim(sx, bv, 1, 1), num])
    bk = B.open_wb(sx, X, s)
    verify(sx, X, bk, exp, 1)
