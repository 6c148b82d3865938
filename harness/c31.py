"""C31: encrypted workbooks are refused."""
import struct
from . import biff as B
from . import ole

PROP = 'C31'
BOUNDS = ['encryption records of 0 to 12, 16, 54 and 200 bytes of arbitrary content (verbose logging: 0 to 6 arbitrary bytes, '
          'longer ones with 4 arbitrary bytes), before every record of the global part (or of the worksheet of an '
          'Excel 2, 3, 4, 4W file) and after the last one, of every version',
          'all combinations (quick tier: four, for most lengths) of formatting info, on-demand, ragged rows and corruption tolerance; verbosity 0 to 3 '
          '(a book log line may be written first); bare streams and compound files']
ASSUMES = ['In BIFF5 and later the record belongs to the global part (the format has it nowhere else).']
REACH = ['globals', 'single', '4w', 'ole', 'verbose', 'xor', 'std']


def cases(tier):
    out = []
    th = tier != 'quick'
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for where in ('g', 's') if bv == 45 else ('g',):
            for ln in list(range(0, 13)) + [16, 54, 200]:
                out.append({'name': 'any-%d%s-%d' % (bv, where, ln), 'bv': bv, 'ln': ln, 'sym': ln, 'v': 0, 'where': where,
                            'all': th or ln in (4, 6)})
            for v in (1, 2, 3):
                for ln in (0, 1, 2, 3, 4, 5, 6, 8, 54):
                    sym = ln if ln <= (6 if th else 5 if v == 2 and bv == 80 else 2) else 2
                    out.append({'name': 'verb%d-%d%s-%d' % (v, bv, where, ln), 'bv': bv, 'ln': ln, 'v': v, 'where': where,
                                'sym': sym, 'weight': 3 ** sym})
    for bv in (80, 70, 50):
        out.append({'name': 'ole-%d' % bv, 'bv': bv, 'ln': 6, 'sym': 6, 'v': 0, 'where': 'g', 'ole': 1, 'all': 1})
    return out


def harness(sx, X, case):
    bv, ln = case['bv'], case['ln']
    data = sx.cat(sx.bytes('d', case['sym']), bytes([7]) * (ln - case['sym']))
    v = case['v']
    if v >= 2:
        sx.reach('verbose')
    its = sx.items(data)
    kw = {'verbosity': v}
    if v == 0:
        sel = sx.fork(sx.int('opts', 0, 15 if case['all'] else 3))
        for j, o in enumerate(('formatting_info', 'on_demand', 'ragged_rows', 'ignore_workbook_corruption')):
            kw[o] = bool(sel >> j & 1) if case['all'] else bool(sel % 3 == 0) if j < 2 else sel >= 2
    fp = B.rec(sx, 0x2F, data)
    if bv >= 50:
        sx.reach('globals')
        g = [B.rec(sx, 0xE1, b'\xb0\4')] if bv == 80 else []
        if bv == 80:
            g.append(B.rec(sx, 0x5C, B.ustr(sx, 'me'), b'  '))
        else:
            g.append(B.rec(sx, 0x5C, b'\2me', b'  '))
        g.append(B.codepage(sx, 1200 if bv == 80 else 1252))
        g += B.std_globals(sx, bv, (0, 14))
        g.append(B.rec(sx, 0x22, b'\0\0'))
        if bv == 80:
            g.append(B.fmt8(sx, 164, '0.0'))
        g.append(B.boundsheet(sx, 0, 'A', biff=bv))
        g.append(B.boundsheet(sx, 0, 'B', biff=bv))
        if bv == 80:
            g.append(B.rec(sx, 0xFC, struct.pack('<ii', 1, 1), B.ustr(sx, 'x')))
        at = sx.fork(sx.int('at', 0, len(g))) if case['sym'] < 4 or not v else 3
        total = len(B.bof(sx, bv, 5)) + sum(len(x) for x in g) + len(fp) + 4
        for i, r in enumerate(g):
            if r[:2] == b'\x85\0':
                g[i] = B.boundsheet(sx, total, 'A' if r[-1:] == b'A' else 'B', biff=bv)
        g.insert(at, fp)
        sheet = sx.cat(B.bof(sx, bv, 0x10), B.rec(sx, 0x203, struct.pack('<HHHd', 0, 0, 0, 1.0)), B.EOF)
        st = sx.cat(B.bof(sx, bv, 5), *(g + [B.EOF, sheet]))
        if case.get('ole'):
            sx.reach('ole')
            st = ole.wrap(sx, st, 'Workbook' if bv == 80 else 'Book')
    else:
        sx.reach('4w' if bv == 45 else 'single')
        if bv == 21:
            cell = B.rec(sx, 3, struct.pack('<HH3sd', 0, 0, b'', 1.0))
        else:
            cell = B.rec(sx, 0x203, struct.pack('<HHHd', 0, 0, 0, 1.0))
        g = [B.rec(sx, 0x5C, b'\2me', b'  '), B.codepage(sx, 1252), B.rec(sx, 0x22, b'\0\0'), cell]
        if case['where'] == 'g' and bv == 45:
            bs = [B.rec(sx, 0x8E, struct.pack('<i', 0)), B.rec(sx, 0x85, b'\1S')]
            g = g[:3] + bs
            at = sx.fork(sx.int('at', 0, len(g)))
            g.insert(at, fp)
            sheet = sx.cat(B.bof(sx, 40, 0x10), cell, B.EOF)
            st = sx.cat(B.bof(sx, 45, 5), *(g + [B.rec(sx, 0x8F, struct.pack('<i', len(sheet)), b'\1S'), sheet, B.EOF]))
        else:
            at = sx.fork(sx.int('at', 0, len(g)))
            g.insert(at, fp)
            sheet = sx.cat(B.bof(sx, {21: 20, 45: 40}.get(bv, bv), 0x10), *(g + [B.EOF]))
            st = sheet
            if bv == 45:
                st = sx.cat(B.bof(sx, 45, 5), B.rec(sx, 0x8E, struct.pack('<i', 0)), B.rec(sx, 0x85, b'\1S'),
                            B.rec(sx, 0x8F, struct.pack('<i', len(sheet)), b'\1S'), sheet, B.EOF)
    if len(its) >= 2 and v >= 2 and bv == 80:
        k = its[0] + its[1] * 256
        if bool(k == 0):
            sx.reach('xor')
        elif bool(k == 1):
            sx.reach('std')
    sx.expect('encrypted file is refused with XLRDError', X.xlrd.XLRDError, B.open_wb, sx, X, st, **kw)
