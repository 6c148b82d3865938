"""C10: string results of formulas, with continuation records."""
import struct
from . import biff as B

PROP = 'C10'
BOUNDS = ['strings of 0 to 4 (thorough: 6) symbolic characters in 1 to 3 (thorough: 4) STRING/CONTINUE records, every '
          'distribution of the characters over the records (empty pieces included), each record compressed or '
          '16-bit; surrogate pairs within and across records; zero length without options byte',
          'BIFF7/BIFF5 text in cp1252 (as from the codepage) and in cp932 (by override) over 1 to 3 records; '
          'BIFF3/BIFF4 worksheets (two-byte length) and BIFF2 worksheets (one-byte length)',
          'a shared-formula, array or data-table record (16 symbolic bytes) between the formula and its string',
          'strings of 255, 256, 257 and 600 characters, first two and last symbolic, whole or split in two',
          'refusals: 1 to 3 characters too many (first record or continuation), a missing continuation followed by '
          'every other record type, or by the end of the stream']
ASSUMES = ['Characters are well-formed in their encoding.']
REACH = ['biff8', 'legacy', 'cp932', 'noopt', 'toomany', 'missing', 'biff2', 'biff3', 'biff4', 'mid', 'long']


def parts(n, k):
    """All ways to write n as k ordered non-negative parts."""
    if k == 1:
        return [(n,)]
    return [(i,) + r for i in range(n + 1) for r in parts(n - i, k - 1)]


def cases(tier):
    out = []
    th = tier != 'quick'
    for n in range(0, 7 if th else 4):
        for k in range(1, 5 if th else 4):
            out.append({'name': 'biff8-%d-%d' % (n, k), 'k': 'biff8', 'n': n, 'recs': k, 'weight': n * k})
            if n < 5:
                for bv in (70, 50, 40, 30, 21):
                    out.append({'name': 'legacy-%d-%d-%d' % (bv, n, k), 'k': 'legacy', 'n': n, 'recs': k, 'bv': bv})
    for k in (1, 2, 3):
        for sh in ('S', 'Sb', 'cS', 'SS'):
            out.append({'name': 'pair-%s-%d' % (sh, k), 'k': 'pair', 'shape': sh, 'recs': k})
    for k in (1, 2, 3):
        out.append({'name': 'cp932-%d' % k, 'k': 'cp932', 'recs': k})
    out.append({'name': 'noopt', 'k': 'noopt'})
    for bv in (80, 70, 50, 40, 30, 21):
        for mid in (0x4BC, 0x221, 0x21, 0x236, 0x37, 0x36):
            out.append({'name': 'mid-%d-%03x' % (bv, mid), 'k': 'mid', 'bv': bv, 'mid': mid, 'n': 2, 'recs': 2})
    for bv in (80, 70, 40):
        for n in (255, 256, 257, 600):
            out.append({'name': 'long-%d-%d' % (bv, n), 'k': 'long', 'bv': bv, 'n': n})
    out.append({'name': 'long-21-255', 'k': 'long', 'bv': 21, 'n': 255})
    for bv in (80, 70):
        for n in (0, 1, 2):
            for more in (1, 2, 3):
                for k in (1, 2):
                    out.append({'name': 'toomany-%d-%d-%d-%d' % (bv, n, more, k), 'k': 'toomany', 'bv': bv, 'n': n,
                                'more': more, 'recs': k})
        for n, got in ((1, 0), (2, 1), (3, 1)):
            for end in (0, 1):
                out.append({'name': 'missing-%d-%d-%d-%d' % (bv, n, got, end), 'k': 'missing', 'bv': bv, 'n': n,
                            'got': got, 'end': end})
    return out


def single_sheet(sx, bv, recs):
    """A BIFF2..4 worksheet stream."""
    pre = []
    if bv == 21:
        pre = [B.rec(sx, 0x43, bytes(4)) for _ in range(16)]
    else:
        pre = [B.rec(sx, 0x443 if bv == 40 else 0x243, bytes(12)) for _ in range(16)]
    return sx.cat(B.bof(sx, 20 if bv == 21 else bv, 0x10), B.codepage(sx, 1252), *(pre + recs + [B.EOF]))


def build(sx, bv, recs):
    if bv in (40, 30, 21):
        return single_sheet(sx, bv, recs)
    return B.workbook(sx, [recs], B.std_globals(sx, bv), biff=bv)


def formula(sx, bv):
    res = b'\0\0\0\0\0\0\xff\xff'
    if bv == 21:
        return B.rec(sx, 0x06, struct.pack('<HH', 1, 1), b'\0\0\0', res, b'\0\x03', b'\x1e\x01\x00')
    if bv in (40, 30):
        return B.rec(sx, 0x406 if bv == 40 else 0x206, struct.pack('<HHH', 1, 1, 0), res, struct.pack('<HH', 0, 3), b'\x1e\x01\x00')
    return B.rec(sx, 0x06, struct.pack('<HHH', 1, 1, 0), res, struct.pack('<HIH', 0, 0, 3), b'\x1e\x01\x00')


def strrec(sx, bv, n, *body):
    return B.rec(sx, 0x07 if bv == 21 else 0x207, struct.pack('<B' if bv == 21 else '<H', n), *body)


def after(sx, bv):
    """A boolean cell after the string, to see that reading resumes at the right place."""
    if bv == 21:
        return B.rec(sx, 0x05, struct.pack('<HH', 2, 0), b'\0\0\0', b'\x01\x00')
    return B.rec(sx, 0x205, struct.pack('<HHH', 2, 0, 0), b'\x01\x00')


def harness(sx, X, case):
    k = case['k']
    bv = case.get('bv', 80)
    kw = {}
    exp = None
    recs = [formula(sx, bv)]
    if k in ('biff8', 'pair'):
        sx.reach('biff8')
        if k == 'pair':
            units, exp = B.chars8(sx, 't', case['shape'])
            need = []
            for s in case['shape']:
                need += [1, 1] if s == 'S' else [1 if s == 'b' else 0]
        else:
            units = None
        n = len(units) if units else case['n']
        ps = parts(n, case['recs'])
        p = ps[sx.fork(sx.int('p', 0, len(ps) - 1))]
        at = 0
        cs = []
        for j, m in enumerate(p):
            if units:
                w = 1 if any(need[at:at + m]) else sx.fork(sx.int('w%d' % j, 0, 1))
                us = units[at:at + m]
            else:
                w = sx.fork(sx.int('w%d' % j, 0, 1))
                us = [sx.u16('c%d' % (at + i)) if w else sx.u8('c%d' % (at + i)) for i in range(m)]
                if w:
                    for u in us:
                        sx.assume(sx.Or(u < 0xD800, u >= 0xE000))
                cs += us
            at += m
            hi = sx.int('g%d' % j, 0, 127) * 2      # the other bits of the options byte
            body = sx.cat(w + hi if j else w, B.raw8(sx, us, w))
            recs.append(strrec(sx, bv, n, body) if j == 0 else B.rec(sx, 0x3C, body))
            if at == n:
                break           # a reader stops here; anything after would be a stray record
        if not units:
            exp = sx.mkstr(cs)
    elif k == 'long':
        # Most characters fixed, one symbolic at each end; split at a fixed place.
        sx.reach('long')
        n = case['n']
        w = 1 if bv == 80 else 0
        cs = [65 + i % 26 for i in range(n)]
        for i in (0, 1, n - 1):
            cs[i] = sx.int('c%d' % i, 0x20, 0x7F if bv < 80 else 0xD7FF)
        exp = sx.mkstr(cs)
        opt = lambda w: bytes([w]) if bv == 80 else b''
        split = sx.fork(sx.int('split', 0, 2))
        if split == 0:
            recs.append(strrec(sx, bv, n, opt(w), B.raw8(sx, cs, w)))
        else:
            at = (1, n - 1)[split - 1]
            recs.append(strrec(sx, bv, n, opt(w), B.raw8(sx, cs[:at], w)))
            recs.append(B.rec(sx, 0x3C, opt(w), B.raw8(sx, cs[at:], w)))
    elif k in ('legacy', 'cp932', 'mid'):
        if k == 'cp932':
            sx.reach('cp932')
            bv = 70
            raw = u'A\u3042\u65e5z\uff71'.encode('cp932')
            kw['encoding_override'] = 'cp932'
            exp = raw.decode('cp932')
            cs = list(raw)
        else:
            sx.reach({40: 'biff4', 30: 'biff3', 21: 'biff2'}.get(bv, 'legacy'))
            if k == 'mid':
                # the record holding a shared formula, array formula or data table comes before the STRING
                sx.reach('mid')
                recs.append(B.rec(sx, case['mid'], sx.bytes('mid', 16)))
            cs = [sx.u8('c%d' % i) for i in range(case['n'])]
            for c in cs:
                sx.assume(sx.Or(c < 0x80, c >= 0xA0))
            exp = sx.mkstr(cs)
        n = len(cs)
        ps = parts(n, case['recs'])
        p = ps[sx.fork(sx.int('p', 0, len(ps) - 1))]
        at = 0
        for j, m in enumerate(p):
            body = sx.mkbytes(cs[at:at + m])
            if bv == 80:
                body = sx.cat(b'\0', body)
            at += m
            recs.append(strrec(sx, bv, n, body) if j == 0 else B.rec(sx, 0x3C, body))
            if at == n:
                break
    elif k == 'noopt':
        sx.reach('noopt')
        recs.append(strrec(sx, bv, 0))
        exp = ''
    else:
        n = case['n']
        if k == 'toomany':
            sx.reach('toomany')
            got = n + case['more']
        else:
            sx.reach('missing')
            got = case['got']
        cs = [sx.int('c%d' % i, 0, 127) for i in range(got)]
        w = sx.fork(sx.int('w', 0, 1)) if bv == 80 else 0
        first = cs if k == 'missing' or case['recs'] == 1 else cs[:max(n - 1, 0)]
        rest = cs[len(first):]
        opt = bytes([w]) if bv == 80 else b''
        recs.append(strrec(sx, bv, n, opt, B.raw8(sx, first, w)))
        if rest:
            if len(first) == n:         # complete: the continuation is not part of the string
                sx.assume(False)
            w2 = sx.fork(sx.int('w2', 0, 1)) if bv == 80 else 0
            recs.append(B.rec(sx, 0x3C, bytes([w2]) if bv == 80 else b'', B.raw8(sx, rest, w2)))
        if k == 'missing':
            if case['end']:
                wb = build(sx, bv, recs)
                wb = wb[:len(wb) - 4]
            else:
                code = sx.u16('code')
                sx.assume(code != 0x3C)
                recs.append(sx.cat(sx.pack('<H', code), b'\x08\x00', sx.bytes('d', 8)))
                wb = build(sx, bv, recs)
        else:
            wb = build(sx, bv, recs)
        st, r = sx.attempt(B.open_wb, sx, X, wb, **kw)
        sx.check(st == 'exc', 'an inconsistent string result is refused')
        return
    recs.append(after(sx, bv))
    wb = build(sx, bv, recs)
    st, bk = sx.attempt(B.open_wb, sx, X, wb, **kw)
    sx.check(st == 'ok', 'the workbook opens')
    if st != 'ok':
        return
    sh = bk.sheet_by_index(0)
    sx.check_same(sh.cell_type(1, 1), 1, 'cell type')
    sx.check_same(sh.cell_value(1, 1), exp, 'text of the formula result')
    sx.check_same((sh.cell_type(2, 0), sh.cell_value(2, 0)), (4, 1), 'cell after the string')
    sx.check_same((sh.nrows, sh.ncols), (3, 2), 'dimensions')
    sx.observe('v', sh.cell_value(1, 1))
