"""C37: date system and country settings."""
import struct
from . import biff as B

PROP = 'C37'
BOUNDS = ['versions 8, 7, 5, 4W, 4, 3, 2; one or two sheets; no DATEMODE or one, of 2, 3 or 4 bytes, 0 or 1, first, in the middle or last '
          'in the globals (in the sheet for 2 to 4, in globals or sheet for 4W); no COUNTRY or one, any two 16-bit codes, of 4 or 6 bytes, '
          'in the globals, in the first, the last or all worksheets',
          'with and without formatting info, on demand (all sheets loaded) or at once; a date cell of any 64-bit content in each file']
ASSUMES = ['DATEMODE holds 0 or 1 (anything else is refused by an assertion).', 'All COUNTRY records of a file are alike.',
           'A BIFF5 or later worksheet has no DATEMODE of its own.']
ISO = {'after': 'set-.*-0', 'ole': 'set-(80|70)-.*-0'}
REACH = ['1900', '1904', 'absent', 'country', 'no country', 'in sheet', 'in globals', 'on demand']


def cases(tier):
    out = []
    th = tier != 'quick'
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for where in ((0,) if bv >= 50 else (0, 1) if bv == 45 else (1,)):
            for n in (1, 2) if bv >= 45 else (1,):
                for kw in ({}, {'formatting_info': True}, {'on_demand': True}):
                    if not th and kw and n != 2 - (bv < 45):
                        continue
                    for od in (0, 1):
                        out.append({'name': 'set-%d-%d-%d-%d%s' % (bv, where, n, od, ''.join(k[0] for k in kw)), 'bv': bv,
                                    'where': where, 'n': n, 'kw': kw, 'od': od})
    return out


def harness(sx, X, case):
    bv, n, kw = case['bv'], case['n'], case['kw']
    dlen = sx.fork(sx.int('dlen', 0, 3))            # 0: none
    pos = sx.fork(sx.int('dpos', 0, 2)) if dlen else 0
    dm, drec = 0, b''
    if dlen:
        dm = sx.int('dm', 0, 1)
        drec = B.rec(sx, 0x22, sx.pack('<H', dm), sx.bytes('dx', dlen - 1))
    else:
        sx.reach('absent')
    cl = 4 + 2 * case['od']
    cw = sx.fork(sx.int('cwhere', 0, 4))            # none, globals, first, last, all sheets
    cc = (0, 0)
    crec = b''
    if cw:
        cc = (sx.u16('c0'), sx.u16('c1'))
        crec = B.rec(sx, 0x8C, sx.pack('<HH', *cc), bytes(cl - 4))
        sx.reach('country')
    else:
        sx.reach('no country')
    if cw == 1 and bv < 45 or cw in (3, 4) and n == 1:
        return
    if cw:
        sx.reach('in globals' if cw == 1 else 'in sheet')
    v = sx.double('v')

    def place(recs, r):
        recs = list(recs)
        recs.insert((0, len(recs) // 2, len(recs))[pos], r)
        return recs
    sheets = []
    for i in range(n):
        if bv >= 30:
            cells = [B.rec(sx, 0x203, struct.pack('<HHH', 1, 1, 0), sx.pack('<Q', sx.float_bits(v)))]
        else:
            cells = [B.rec(sx, 3, struct.pack('<HH', 1, 1), b'\0\0\0', sx.pack('<Q', sx.float_bits(v)))]
        head = []
        if bv < 50:
            if bv >= 40:
                head.append(B.rec(sx, 0x41E, b'\0\0', b'\x06d/m/yy'))
                head.append(B.rec(sx, 0x443, bytes([0, 0, 1, 0, 0x20, 0xFC]) + bytes(6)))
            else:
                head.append(B.rec(sx, 0x1E, b'\x06d/m/yy'))
                head.append(B.rec(sx, 0x243, bytes([0, 0, 1, 0xFC]) + bytes(8)) if bv == 30 else B.rec(sx, 0x43, bytes(4)))
            head.append(B.dim(sx, bv, 2, 2))
        recs = head + cells
        if case['where']:
            recs = place(recs, drec)
        if cw == 2 and i == 0 or cw == 3 and i == n - 1 or cw == 4:
            recs.insert(0 if i else len(recs), crec)
        sheets.append(recs)
    if bv < 45:
        data = B.single(sx, bv, sheets[0], cp=None)
    elif bv == 45:
        globs = [B.codepage(sx, 1252)] + ([crec] if cw == 1 else [])
        if not case['where']:
            globs = place(globs, drec)
        pre = sx.cat(B.bof(sx, 45, 5), *globs)
        bodies = [sx.cat(B.bof(sx, 40, 0x10), *(s + [B.EOF])) for s in sheets]
        nm = [b'S%d' % i for i in range(n)]
        bs = b''.join(struct.pack('<HHB', 0x85, 3, 2) + x for x in nm)
        at = len(pre) + 8 + len(bs)
        parts = [pre, B.rec(sx, 0x8E, struct.pack('<i', at)), bs]
        for x, b in zip(nm, bodies):
            parts += [B.rec(sx, 0x8F, struct.pack('<i', len(b)), b'\2' + x), b]
        data = sx.cat(*(parts + [B.EOF]))
    else:
        globs = B.std_globals(sx, bv, fmts=(14,)) + ([crec] if cw == 1 else [])
        data = B.workbook(sx, sheets, place(globs, drec), biff=bv)
    bk = B.open_wb(sx, X, data, **kw)
    if kw.get('on_demand'):
        sx.reach('on demand')
    for i in range(n):
        sh = bk.sheet_by_index(i)
        sx.check_same((sh.cell_type(1, 1), sh.cell_value(1, 1)), (3, v), 'date cell')
    if sx.fork(dm):
        sx.reach('1904')
    elif dlen:
        sx.reach('1900')
    sx.check_same(bk.datemode, dm, 'date system')
    sx.check_same(tuple(bk.countries), cc, 'country codes')
    sx.check_same(bk.nsheets, n, 'number of sheets')
