"""C38: named cell styles."""
import struct
from . import biff as B
from .c15 import xfs, stdfonts

PROP = 'C38'
BOUNDS = ['versions 8, 7, 5, 4W, 4 and 3, with and without formatting info; in 4W the records in the globals or in the sheet',
          '1 to 3 STYLE records (thorough: 4), each independently built-in (any of the 10 kinds; outline level 0 to 6, and every level 0 to 254 with '
          'one record), user-defined (names of 1 to 2 characters, thorough: 3, 8-bit or, in BIFF8, 16-bit) or the all-zero form of '
          '"Normal"; every value of the 16-bit flags and XF index, so that names may coincide',
          'user-defined names of 64, 127, 128 and 255 characters (the first and last symbolic); 300 STYLE records']
ASSUMES = ['STYLE records follow the XF records.', 'Built-in style identifiers above 9 have no documented name and are left out.',
           'Symbolic 8-bit characters before BIFF8 are ASCII (other code pages: C08).', 'A user-defined name is not empty, except that a second all-zero record is one with an empty name.']
ISO = {'after': '(st-(80|70|40|30)-0-[bu]|nofmt-80-0)', 'ole': 'st-(80|70)-0-[bu]'}
REACH = ['builtin', 'level', 'user', 'zero', 'same name', 'no formatting', 'long', 'many']
OPTS = {'max_steps': 6000000}
NAMES = ['Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent', 'Comma [0]', 'Currency [0]', 'Hyperlink', 'Followed Hyperlink']


def cases(tier):
    th = tier != 'quick'
    out = []
    for bv in (80, 70, 50, 45, 40, 30):
        for where in (0, 1) if bv == 45 else (0,):
            for kinds in ('b', 'u', 'z', 'bb', 'bu', 'ub', 'uu', 'zb', 'bz', 'zu', 'zz') + (
                    ('bbb', 'uuu', 'bub') if th or bv in (80, 40) else ()) + (('bbbb', 'ubub', 'zuuz') if th else ()):
                out.append({'name': 'st-%d-%d-%s' % (bv, where, kinds), 'bv': bv, 'where': where, 'kinds': kinds,
                            'ln': (3 if th else 2) if len(kinds) == 1 else 1, 'weight': 3 ** len(kinds)})
            out.append({'name': 'nofmt-%d-%d' % (bv, where), 'bv': bv, 'where': where, 'kinds': 'bu', 'ln': 1, 'nofmt': 1})
            for ln in (64, 127, 128, 255):
                out.append({'name': 'long-%d-%d-%d' % (bv, where, ln), 'bv': bv, 'where': where, 'kinds': 'u', 'ln': ln})
            out.append({'name': 'levels-%d-%d' % (bv, where), 'bv': bv, 'where': where, 'kinds': 'l', 'ln': 1, 'weight': 10})
            out.append({'name': 'many-%d-%d' % (bv, where), 'bv': bv, 'where': where, 'kinds': 'b', 'ln': 1, 'many': 299, 'weight': 20})
    return out


def harness(sx, X, case):
    bv = case['bv']
    recs, want = [], []                 # want: (name, built-in flag, XF index) in file order
    for i in range(case.get('many', 0)):
        recs.append(B.rec(sx, 0x293, struct.pack('<H', 16 + i % 200), (b'%c\0\0' % 5 if bv == 80 else b'\5') + b'n%04d' % i))
        want.append(('n%04d' % i, 0, 16 + i % 200))
        sx.reach('many')
    for i, k in enumerate(case['kinds']):
        x = sx.u16('x%d' % i)
        low = x & 0xFFF
        if k == 'z':
            sx.reach('zero')
            recs.append(B.rec(sx, 0x293, bytes(4)))
            if any(n == 'Normal' for n, b, f in want):
                want.append(('', 0, 0))
            else:
                want.append(('Normal', 1, 0))
        elif k in 'bl':
            sx.reach('builtin')
            sx.assume(x >= 0x8000)
            bi = sx.fork(sx.int('id%d' % i, 0, 9) if k == 'b' else sx.int('id%d' % i, 1, 2))
            lev = sx.u8('lev%d' % i)
            name = NAMES[bi]
            recs.append(B.rec(sx, 0x293, sx.pack('<HBB', x, bi, lev)))
            if bi in (1, 2):
                sx.reach('level')
                sx.assume(lev <= (6 if k == 'b' else 254))
                name += str(sx.fork(lev) + 1)
            want.append((name, 1, low))
        else:
            sx.assume(x < 0x8000)
            sx.reach('user')
            ln = case['ln']
            wide = bv == 80 and sx.fork(sx.int('w%d' % i, 0, 1))
            if wide:
                ch = [sx.u16('c%d_%d' % (i, j)) for j in range(ln if ln < 64 else 2)]
                for c in ch:
                    sx.assume(sx.Or(c < 0xD800, c >= 0xE000))
            else:
                ch = [sx.u8('c%d_%d' % (i, j)) for j in range(ln if ln < 64 else 2)]
                if bv < 80:
                    for c in ch:
                        sx.assume(c < 128)
            if ln >= 64:
                sx.reach('long')
                ch = ch[:1] + [0x41 + j % 26 for j in range(ln - 2)] + ch[1:]
            if bv == 80:
                recs.append(B.rec(sx, 0x293, sx.pack('<HHB', x, ln, 1 if wide else 0), B.raw8(sx, ch, wide)))
            else:
                # a one-character name with a zero character would be the all-zero record
                sx.assume(sx.Or(x != 0, ch[0] != 0))
                recs.append(B.rec(sx, 0x293, sx.pack('<HB', x, ln), sx.mkbytes(ch)))
            want.append((sx.mkstr(ch), 0, low))
    kw = {} if case.get('nofmt') else {'formatting_info': True}
    head = stdfonts(sx, min(bv, 40) if bv < 50 else bv) + xfs(sx, bv)
    if bv == 80 or bv >= 50:
        data = B.workbook(sx, [[]], head + recs, biff=bv)
    elif case['where'] or bv < 45:
        data = B.single(sx, bv, head + recs + [B.dim(sx, bv, 0, 0)])
    else:
        sheet = sx.cat(B.bof(sx, 40, 0x10), B.dim(sx, bv, 0, 0), B.EOF)
        pre = sx.cat(B.bof(sx, 45, 5), B.codepage(sx, 1252), *(head + recs))
        bs = struct.pack('<HHB', 0x85, 3, 2) + b'S1'
        data = sx.cat(pre, B.rec(sx, 0x8E, struct.pack('<i', len(pre) + 8 + len(bs))), bs,
                      B.rec(sx, 0x8F, struct.pack('<i', len(sheet)), b'\2S1'), sheet, B.EOF)
    bk = B.open_wb(sx, X, data, **kw)
    sm = bk.style_name_map
    if case.get('nofmt'):
        sx.reach('no formatting')
        sx.check_same(len(sm), 0, 'no styles without formatting info')
        return
    final = []                          # the last record of each name
    for i, (n, b, f) in enumerate(want):
        later = [m for m, _, _ in want[i + 1:]]
        if case.get('many') and i < case['many']:
            later = []
        if any(bool(m == n) for m in later):
            sx.reach('same name')
        else:
            final.append((n, b, f))
    sx.check_same(len(sm), len(final), 'number of style names')
    for n, b, f in final:
        sx.check(n in sm, 'style name listed')
        sx.check_same(tuple(sm[n]), (b, f), 'style flag and XF index')
    sx.observe('styles', sorted(sm.items()) if not case.get('many') else len(sm))
