"""C32: records of unknown type, and embedded charts, are skipped."""
import struct
from . import biff as B
from . import rich

PROP = 'C32'
BOUNDS = ['a record of every type outside the documented set, with 0, 1, 8 and 20 arbitrary bytes (or 8224 fixed ones), '
          'at every record boundary of the global part and of the first worksheet of a workbook that has every kind of '
          'record (about 20 global and 40 worksheet records); versions 8, 7, 5, 4W, 4, 3, 2; with and without '
          'formatting info',
          'an embedded chart (BOF of arbitrary version and type) holding 0 to 3 records of arbitrary type and content '
          'at every boundary of a worksheet, versions 8, 7, 5']
ASSUMES = ['Record pairs that the format keeps together (FORMULA and STRING, SST/TXO and CONTINUE) are not separated.']
REACH = ['global', 'sheet', 'chart', 'big', 'known excluded']
OPTS = {'max_steps': 400000}

KNOWN = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0A, 0x17, 0x18, 0x1A, 0x1B, 0x1C, 0x1E, 0x20, 0x22,
         0x23, 0x24, 0x2F, 0x31, 0x3C, 0x3E, 0x41, 0x42, 0x43, 0x44, 0x45, 0x55, 0x56, 0x5C, 0x5D, 0x7D, 0x85, 0x8C, 0x8E,
         0x8F, 0x92, 0x99, 0xA0, 0xAB, 0xBD, 0xBE, 0xD6, 0xE0, 0xE5, 0xEC, 0xFC, 0xFD, 0x15F, 0x1AE, 0x1B0, 0x1B1, 0x1B6,
         0x1B8, 0x200, 0x201, 0x203, 0x204, 0x205, 0x206, 0x207, 0x208, 0x209, 0x221, 0x225, 0x231, 0x23E, 0x243, 0x27E,
         0x293, 0x406, 0x409, 0x41E, 0x443, 0x4BC, 0x800, 0x809, 0x872}


def cases(tier):
    out = []
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for fi in (0, 1):
            for where in ('g', 's') if bv >= 45 else ('s',):
                for n in (0, 1, 8, 20, 'big'):
                    if tier == 'quick' and (n in (0, 1, 'big') and fi or n == 20 and not fi or bv == 50 and n != 8):
                        continue
                    out.append({'name': 'rec-%d-%d%s-%s' % (bv, fi, where, n), 'k': 'rec', 'bv': bv, 'fi': fi,
                                'where': where, 'n': n, 'weight': 3})
            if bv >= 50:
                for n in (0, 1, 2, 3):
                    if tier == 'quick' and bv == 50 and n != 2:
                        continue
                    out.append({'name': 'chart-%d-%d-%d' % (bv, fi, n), 'k': 'chart', 'bv': bv, 'fi': fi, 'n': n, 'weight': 3})
    return out


def harness(sx, X, case):
    bv, fi = case['bv'], case['fi']
    g = rich.globs(sx, bv)
    s = rich.cells(sx, bv)
    other = [B.rec(sx, 0x203, struct.pack('<HHHd', 0, 0, 0, 3.0))] if bv >= 30 else []
    kw = {'formatting_info': bool(fi)}
    base = B.open_wb(sx, X, rich.assemble(sx, bv, rich.strip(g), [rich.strip(s), other]), **kw)
    want = rich.snapshot(base)
    if case['k'] == 'rec':
        op = sx.u16('op')
        sx.reach('known excluded')
        sx.assume(sx.And(*[op != k for k in sorted(KNOWN)]))
        n = case['n']
        if n == 'big':
            sx.reach('big')
            body, n = bytes(range(32)) * 257, 8224
        else:
            body = sx.bytes('d', n)
        new = [sx.cat(sx.pack('<HH', op, n), body)]
    else:
        sx.reach('chart')
        new = [B.rec(sx, 0x809, sx.pack('<HH', sx.u16('ver'), sx.u16('typ')), bytes(4 if bv < 80 else 12))]
        for i in range(case['n']):
            op = sx.u16('op%d' % i)
            sx.assume(op != 0x0A)
            m = (8, 0, 14)[i]
            new.append(sx.cat(sx.pack('<HH', op, m), sx.bytes('d%d' % i, m)))
        new.append(B.EOF)
    new = sx.cat(*new)
    g2, s2 = list(g), list(s)
    if case.get('where') == 'g':
        sx.reach('global')
        pl = rich.places(g)
        g2.insert(pl[sx.fork(sx.int('at', 0, len(pl) - 1))], new)
    else:
        sx.reach('sheet')
        pl = rich.places(s)
        s2.insert(pl[sx.fork(sx.int('at', 0, len(pl) - 1))], new)
    bk = B.open_wb(sx, X, rich.assemble(sx, bv, rich.strip(g2), [rich.strip(s2), other]), **kw)
    got = rich.snapshot(bk)
    sx.check_same(len(got), len(want), 'number of sheets')
    for (n1, a), (n2, b) in zip(want, got):
        for x, y in zip(a, b):
            sx.check_same(y, x, n1 + ' ' + str(x[0]))
        sx.check_same(len(b), len(a), n1)
