"""C19: cell comments."""
import struct
from . import biff as B

PROP = 'C19'
SPLITS = [(), ('c',), ('b',), ('cc', 'c'), ('bb', 'b'), ('c', 'bb', 'c'), ('b', 'cc'), ('S', 'c'), ('h', 'l'), ('bh', 'lb'),
          ('c', 'h', 'lS')]
BOUNDS = ['BIFF8: text in up to 3 CONTINUE records of either compression (splits %s: c 8-bit, b 16-bit characters, S a '
          'surrogate pair, h/l its halves in different records), 0 to 4 formatting runs over 1 or 2 records, arbitrary '
          'row, column, options, author of 0 to 2 characters of either width, trailing pad byte or none'
          % ' '.join('+'.join(s) or '(empty)' for s in SPLITS),
          'long texts: records of 255 to 32767 characters, up to 40 records, with up to 3084 runs and authors of up to 256 '
          'characters, first and last of each arbitrary; BIFF3 to BIFF7: up to 16 records of 2048 bytes; 600 comments',
          'up to 3 comments, with arbitrary distinct object identifiers, the NOTE records in any order; other objects '
          'and text boxes in between',
          'BIFF3 to BIFF7: text of 0 to 4 arbitrary codepage 1252 bytes in up to 3 NOTE records, arbitrary cell']
ASSUMES = []
ISO = {'after': '(text-[01]-|match-1-0|old-70-0|old-.*-0)', 'beside': '(text-[01]-|match-1-0|old-[57]0-0)', 'ole': '(text-[01]-|match-1-0|old-70-0)'}
REACH = ['long', 'many', 'text', 'runs', 'match', 'old', 'split pair', 'other']
OPTS = {'max_steps': 6000000}


# (text records: 16-bit, characters), run records, author (16-bit, length)
LONG = (([(0, 255)], (1,), (0, 255)), ([(1, 256)], (255,), (1, 256)), ([(0, 8223), (1, 4111), (0, 8223)], (3, 1028, 256), (0, 54)),
        ([(1, 4111)] * 7, (1028,) * 3, (1, 0)), ([(0, 32767)], (2,), (0, 256)), ([(1, 4111), (0, 8223), (0, 1)], (1027, 2), (1, 255)),
        ([(i & 1, 3 + i) for i in range(40)], (1,) * 30, (0, 1)))


def cases(tier):
    out = []
    th = tier != 'quick'
    for i, s in enumerate(SPLITS):
        for runs in ((), (1,), (2, 2)) if i in (3, 5, 8) or th else ((), (2,)):
            out.append({'name': 'text-%d-%s' % (i, '.'.join(map(str, runs))), 'k': 'text', 's': s, 'runs': runs,
                        'au': ['', 'c', 'b', 'cb'][i % 4], 'pad': i & 1, 'weight': 3})
    for n in (1, 2, 3) if th else (1, 2):
        for other in (0, 1, 2, 4, 5):
            out.append({'name': 'match-%d-%d' % (n, other), 'k': 'match', 'n': n, 'other': other, 'weight': 10 ** n})
    out.append({'name': 'match-3-3', 'k': 'match', 'n': 3, 'other': 3, 'weight': 500})
    for i, l in enumerate(LONG):
        out.append({'name': 'long-%d' % i, 'k': 'long', 's': l[0], 'runs': l[1], 'au': l[2], 'weight': 20})
    out.append({'name': 'many', 'k': 'many', 'n': 600, 'weight': 30})
    for bv in (70, 50, 40, 30):
        for s in ((255,), (256,), (2048, 1), (2048, 2048, 300), (2048,) * 16):
            out.append({'name': 'oldlong-%d-%d.%d' % (bv, len(s), s[-1]), 'k': 'old', 'bv': bv, 's': s, 'weight': 20})
        for s in ((0,), (1,), (3,), (2, 1), (1, 1, 2), (0, 2)):
            out.append({'name': 'old-%d-%s' % (bv, '.'.join(map(str, s))), 'k': 'old', 'bv': bv, 's': s})
    return out


def obj(sx, oid, typ=0x19, sub=True):
    return B.rec(sx, 0x5D, struct.pack('<HHH', 0x15, 18, typ), sx.pack('<H', oid), struct.pack('<H', 0x4011) + bytes(12),
                 struct.pack('<HH', 0x0D, 22) + bytes(22) if sub else b'', bytes(4))


def txo(sx, pieces, nunits, runs, opts=0x0212, rot=0):
    """pieces: (wide, raw); runs: list of lists of (position, font)."""
    nb = 8 * sum(len(r) for r in runs)
    out = [B.rec(sx, 0x1B6, sx.pack('<HH', opts, rot), bytes(6), struct.pack('<HHH', nunits, nb, 0), bytes(2))]
    for w, raw in pieces:
        out.append(B.rec(sx, 0x3C, bytes([w]), raw))
    for r in runs:
        out.append(B.rec(sx, 0x3C, *[sx.cat(sx.pack('<HH', a, b), bytes(4)) for a, b in r]))
    return sx.cat(*out)


def note(sx, r, c, opts, oid, author, pad=b'\0'):
    return B.rec(sx, 0x1C, sx.pack('<HHHH', r, c, opts, oid), author, pad)


def harness(sx, X, case):
    k = case['k']
    if k == 'long':
        return long_text(sx, X, case)
    if k == 'many':
        return many(sx, X, case)
    if k == 'old':
        return old(sx, X, case)
    if k == 'match':
        return match(sx, X, case)
    sx.reach('text')
    pieces, want, n, hi = [], [], 0, None
    for i, s in enumerate(case['s']):
        units, wide = [], any(x in 'bShl' for x in s)
        for j, x in enumerate(s):
            nm = 't%d_%d' % (i, j)
            if x in 'cbS':
                u, e = B.chars8(sx, nm, x)
                units += u
                want += sx.items(e)
            elif x == 'h':
                hi = sx.int(nm, 0, 1023)
                units.append(hi + 0xD800)
            else:
                lo = sx.int(nm, 0, 1023)
                units.append(lo + 0xDC00)
                want.append(0x10000 + hi * 1024 + lo)
                sx.reach('split pair')
        pieces.append((int(wide), B.raw8(sx, units, wide)))
        n += len(units)
    runs, wr = [], []
    for i, m in enumerate(case['runs']):
        sx.reach('runs')
        rr = []
        for j in range(m):
            rr.append((sx.u16('rp%d_%d' % (i, j)), sx.u16('rf%d_%d' % (i, j))))
        runs.append(rr)
        wr += rr
    while wr and wr[-1][0] == n:
        wr = wr[:-1]
    oid = sx.u16('oid')
    r, c, o = sx.u16('r'), sx.u16('c'), sx.u16('o')
    au, araw, _ = B.ustr8(sx, 'au', case['au'])
    recs = [obj(sx, oid), txo(sx, pieces, n, runs), note(sx, r, c, o, oid, araw, b'\0' * case['pad'])]
    sh = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0)
    m = sh.cell_note_map
    sx.check_same(len(m), 1, 'one comment')
    sx.check_same(list(m.keys()), [(r, c)], 'cell of the comment')
    t = list(m.values())[0]
    sx.check_same((t.rowx, t.colx), (r, c), 'row and column')
    sx.check_same(t.author, au, 'author')
    sx.check_same(t.text, sx.mkstr(want), 'text')
    sx.check_same((t.show, t.row_hidden, t.col_hidden), ((o >> 1) & 1, (o >> 7) & 1, (o >> 8) & 1), 'flags')
    sx.check_same([tuple(x) for x in t.rich_text_runlist], wr, 'formatting runs')


def match(sx, X, case):
    sx.reach('match')
    n, other = case['n'], case['other']
    ids, recs, texts = [], [], []
    for i in range(n):
        oid = sx.u16('id%d' % i)
        for x in ids:
            sx.assume(oid != x)
        ids.append(oid)
        t, raw, _ = B.ustr8(sx, 't%d' % i, 'b', noopt=True, known=True)
        texts.append(t)
        if other == 1:
            # a picture without text, and an object of an old kind
            sx.reach('other')
            p = sx.u16('p%d' % i)
            sx.assume(sx.And(*[p != x for x in ids]))
            recs.append(obj(sx, p, 8, False))
            recs.append(B.rec(sx, 0x5D, struct.pack('<HH', 0x16, 2) + bytes(2)))
        elif other == 2:
            # a text box
            p = 0xFFF0 + i
            sx.assume(sx.And(*[x != p for x in ids]))
            recs.append(obj(sx, p, 6, False))
            recs.append(txo(sx, [(1, sx.pack('<H', 0x100 + i))], 1, []))
        elif other == 3 and i == 0:
            # text that belongs to no object
            recs.append(txo(sx, [(0, b'X')], 1, []))
        recs.append(obj(sx, oid))
        recs.append(txo(sx, [(1, raw)], 1, [[(0, i)]]))
        if other == 4:
            # an object of an old kind with a text
            sx.reach('other')
            recs.append(B.rec(sx, 0x5D, struct.pack('<HH', 0x16, 2) + bytes(2)))
            recs.append(txo(sx, [(1, sx.pack('<H', 0x100 + i))], 1, []))
        elif other == 5:
            # a second text that belongs to no object
            recs.append(txo(sx, [(1, sx.pack('<H', 0x100 + i))], 1, []))
    if other == 2:
        for x in ids:
            sx.assume(sx.Or(x < 0xFFF0, x > 0xFFF8))
    left = list(range(n))
    want = {}
    while left:
        j = left.pop(sx.fork(sx.int('ord%d' % len(left), 0, len(left) - 1)))
        recs.append(note(sx, j, 5 - j, 2 * (j & 1), ids[j], B.ustr(sx, 'A%d' % j)))
        want[j, 5 - j] = j
    # a comment whose text object is missing is not invented
    sh = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0)
    m = sh.cell_note_map
    sx.check_same(sorted(m.keys()), sorted(want), 'commented cells')
    for p in sorted(want):
        j = want[p]
        t = m[p]
        sx.check_same((t.text, t.author, t.show), (texts[j], 'A%d' % j, j & 1), 'the comment of a cell')
        sx.check_same([tuple(x) for x in t.rich_text_runlist], [(0, j)], 'its formatting runs')


def old(sx, X, case):
    sx.reach('old')
    bv, s = case['bv'], case['s']
    r, c = sx.u16('r'), sx.u16('c')
    tot = sum(s)
    raw = [sx.bytes('t%d' % i, n) if n < 9 else
           sx.cat(sx.int('t%da' % i, 0, 127), bytes(32 + j % 90 for j in range(n - 2)), sx.int('t%dz' % i, 0, 127))
           for i, n in enumerate(s)]
    bad = (0x81, 0x8D, 0x8F, 0x90, 0x9D)
    want = []
    for x in raw:
        for ch in sx.items(x):
            sx.assume(sx.Or(ch < 0x80, ch >= 0xA0))
            want.append(ch)
    recs = [B.rec(sx, 0x1C, sx.pack('<HHH', r, c, tot), raw[0])]
    for x in raw[1:]:
        recs.append(B.rec(sx, 0x1C, struct.pack('<HHH', 0xFFFF, 0, len(x)), x))
    st = B.workbook(sx, [recs], biff=bv) if bv >= 50 else B.single(sx, bv, [B.dim(sx, bv, 0, 0)] + recs)
    sh = B.open_wb(sx, X, st).sheet_by_index(0)
    m = sh.cell_note_map
    sx.check_same(list(m.keys()), [(r, c)], 'cell of the comment')
    t = list(m.values())[0]
    sx.check_same((t.rowx, t.colx, t.text, t.author), (r, c, sx.mkstr(want), ''), 'comment')


def long_text(sx, X, case):
    sx.reach('long')
    pieces, want = [], []
    for i, (wide, n) in enumerate(case['s']):
        us = [(0x400 if wide else 33) + (j * 7 + i) % 90 for j in range(n)]
        for j in sorted({0, n - 1}):
            us[j] = sx.int('t%d_%d' % (i, j), 1, 0xD7FF if wide else 0xFF)
        want += us
        pieces.append((wide, chars(sx, us, wide)))
    runs, wr = [], []
    for i, m in enumerate(case['runs']):
        rr = [(j, (i + j * 3) % 500) for j in range(m)]
        for j in sorted({0, m - 1}):
            rr[j] = (sx.int('p%d_%d' % (i, j), 0, len(want) - 1), sx.u16('f%d_%d' % (i, j)))
        runs.append(rr)
        wr += rr
    aw, an = case['au']
    au = [(0x400 if aw else 33) + j % 90 for j in range(an)]
    if an:
        au[-1] = sx.int('au', 1, 0xD7FF if aw else 0xFF)
    oid = sx.u16('oid')
    recs = [obj(sx, oid), txo(sx, pieces, len(want), runs),
            note(sx, 3, 4, 0, oid, sx.cat(struct.pack('<HB', an, aw), chars(sx, au, aw)))]
    m = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0).cell_note_map
    sx.check_same(list(m.keys()), [(3, 4)], 'cell of the comment')
    t = m[3, 4]
    sx.check_same(t.author, sx.mkstr(au), 'author')
    sx.check_same(t.text, sx.mkstr(want), 'text')
    sx.check_same([tuple(x) for x in t.rich_text_runlist], wr, 'formatting runs')


def chars(sx, us, wide):
    if len(us) < 3:
        return B.raw8(sx, us, wide)
    return sx.cat(B.raw8(sx, us[:1], wide), struct.pack('<%d%s' % (len(us) - 2, 'H' if wide else 'B'), *us[1:-1]),
                  B.raw8(sx, us[-1:], wide))


def many(sx, X, case):
    """Comments with arbitrary, but ordered, identifiers at both ends and the notes in reverse order."""
    sx.reach('many')
    n = case['n']
    first = sx.int('first', 0, 1000)
    recs, want = [], {}
    for i in range(n):
        recs.append(obj(sx, first + i * 100))
        recs.append(txo(sx, [(0, b'T%d' % i)], len('T%d' % i), [[(0, i)]]))
    for i in reversed(range(n)):
        recs.append(note(sx, i * 100, i % 256, 0, first + i * 100, B.ustr(sx, 'A%d' % i)))
        want[i * 100, i % 256] = ('T%d' % i, 'A%d' % i, [(0, i)])
    m = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0).cell_note_map
    sx.check_same(sorted(m), sorted(want), 'commented cells')
    sx.check_same([(m[p].text, m[p].author, [tuple(x) for x in m[p].rich_text_runlist]) for p in sorted(m)],
                  [want[p] for p in sorted(want)], 'the comments')
