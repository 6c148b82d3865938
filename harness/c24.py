"""C24: names that refer to cells -> Ref3D, Name.cell, Name.area2d."""
import struct
from . import biff as B
from . import c23 as N

PROP = 'C24'
BOUNDS = ['one name with one cell or area reference, token class reference, value or array; row and column fields all 16 (BIFF7/5: 8) '
          'bits arbitrary one at a time (the others below 4, all four relative flags arbitrary throughout), so every absolute, relative and mixed reference',
          'BIFF8: EXTERNSHEET of two entries, one arbitrary in all 48 bits, and an arbitrary 16-bit index to it; internal, '
          'external and add-in SUPBOOKs in three orders; BIFF7/5: arbitrary 16-bit index, first and last sheet',
          'two to four sheets in nine layouts of worksheets, macro, chart and VBA sheets; worksheets of 0x0, 2x3 and 3x2 cells',
          'unions, ranges and non-empty intersections of two references, EXTERNSHEET records of up to 6000 entries with their continuations, names defined through one other name, constants and empty formulas']
ASSUMES = ['A reference through the add-in SUPBOOK says 0xFFFE for both sheets.', 'BIFF7/5: the EXTERNSHEET index is not 0.']
ISO = {'after': 'one-80-ww-ref-20-0-sheet', 'ole': 'one-80-ww-ref-20-0-sheet'}
REACH = ['cell', 'area', 'clipped', 'outside', 'relative', 'external', 'deleted', 'macro', 'bad', 'any', 'addin', 'sheets',
         'refused', 'value class', 'union', 'range', 'isect', 'via', 'other']
OPTS = {'max_steps': 400000}
LAYS = ('ww', 'wm', 'mw', 'wmw', 'wcvw', 'www')
FOCUS = ('sheet', 'ar', 'ac', 'br', 'bc')
SIZES = ((2, 3), (3, 2), (0, 0), (2, 3))


def cases(tier):
    out = []
    for bv in (80, 70, 50):
        for lay in LAYS:
            for area in (0, 1):
                for cls in (0x20, 0x40, 0x60):
                    if tier == 'quick' and (cls > 0x20 and lay != 'wmw' or bv == 50 and lay not in ('wmw', 'ww')):
                        continue
                    for sup in range(3) if bv >= 80 and (cls == 0x20 and lay in ('wmw', 'ww') or tier != 'quick') else (0,):
                        for foc in FOCUS[:None if area else 3]:
                            if tier == 'quick' and area and foc == 'sheet' and (cls != 0x20 or bv == 50 or lay not in ('wmw', 'www')):
                                continue
                            if foc != 'sheet' and (sup or tier == 'quick' and lay != 'wmw'):
                                continue
                            out.append({'name': 'one-%d-%s-%s-%02x-%d-%s' % (bv, lay, 'ref area'.split()[area], cls, sup, foc),
                                        'k': 'one', 'bv': bv, 'lay': lay, 'area': area, 'cls': cls, 'sup': sup, 'foc': foc,
                                        'weight': 4})
        for lay in ('ww', 'wmw'):
            for how in ('union', 'nested', 'range', 'isect', 'via', 'fwd', 'other', 'memfunc'):
                out.append({'name': 'comb-%d-%s-%s' % (bv, lay, how), 'k': 'comb', 'bv': bv, 'lay': lay, 'how': how, 'weight': 3})
        for n in (300, 1370, 1371, 3000, 6000) if bv >= 80 else ():
            out.append({'name': 'comb-%d-wmw-ext%d' % (bv, n), 'k': 'comb', 'bv': bv, 'lay': 'wmw', 'how': 'big', 'n': n, 'weight': 9})
    return out


def body(sx, bv, typ, size):
    if typ != 'w':
        return sx.cat(B.bof(sx, bv, 0x20 if typ == 'c' else 0x40), B.EOF)
    nr, nc = size
    cells = [B.rec(sx, 0x203, struct.pack('<HHHd', r, c, 0, 10 * r + c + 1)) for r in range(nr) for c in range(nc)]
    return sx.cat(B.bof(sx, bv, 0x10), B.dim(sx, bv, nr, nc), *(cells + [B.EOF]))


def book(sx, bv, lay, recs):
    names = ['S%d' % i for i in range(len(lay))]
    sizes, k = [], 0
    for t in lay:
        sizes.append(SIZES[k] if t == 'w' else None)
        k += t == 'w'
    bodies = [body(sx, bv, t, s) for t, s in zip(lay, sizes)]
    recs = sx.cat(*recs)
    head = sx.cat(B.bof(sx, bv, 5), B.codepage(sx, 1200 if bv >= 80 else 1252), *B.std_globals(sx, bv, (0,)))
    pos = len(head) + len(recs) + 4 + sum(len(B.boundsheet(sx, 0, n, biff=bv)) for n in names)
    bs = []
    for n, t, b in zip(names, lay, bodies):
        bs.append(B.boundsheet(sx, pos, n, typ=N.TYPE[t], biff=bv))
        pos += len(b)
    parts = [head] + (bs + [recs] if bv >= 80 else [recs] + bs) + [B.EOF] + bodies
    return sx.cat(*parts), [s for s in sizes if s]


INT = (B.rec, 0x1AE, b'\3\0\1\4')
SUPS = ('I', 'XI', 'AXI')


def supbooks(sx, order):
    out = []
    for k in order:
        if k == 'I':
            out.append(B.rec(sx, 0x1AE, b'\3\0\1\4'))
        elif k == 'A':
            out.append(B.rec(sx, 0x1AE, b'\1\0\1\x3a'))
        else:
            out.append(B.rec(sx, 0x1AE, struct.pack('<HHB', 1, 3, 0) + b'\1ab' + struct.pack('<HB', 2, 0) + b'T1'))
    return out


def local(lay, i):
    return lay[:i].count('w') if lay[i] == 'w' else None


def pick(sx, v, n):
    """concrete value if 0 <= v < n else None"""
    for i in range(n):
        if v == i:
            return i
    return None


def sheets(sx, lay, first, last):
    """(lo, hi) worksheet numbers, or None where the reference is to no worksheet, plus kind."""
    f, l = pick(sx, first, len(lay)), pick(sx, last, len(lay))
    if f is None or l is None or f > l:
        sx.reach('bad')
        return None
    a, b = local(lay, f), local(lay, l)
    if a is None or b is None:
        sx.reach('macro')
        return None
    return a, b + 1


def axis(sx, v, rel, bits):
    """signed value of a relative component"""
    half, full = 1 << (bits - 1), 1 << bits
    return sx.ite(sx.And(rel != 0, v >= half), v - full, v)


def address(sx, bv, tag, foc):
    """-> raw row field, raw column field, row, col, row rel, col rel"""
    if bv >= 80:
        r, c = sx.u16(tag + 'r'), sx.u16(tag + 'c')
        if foc != tag + 'r':
            sx.assume(r < 4)
        if foc != tag + 'c':
            sx.assume((c & 0xFF) < 4)
        rr, cr = (c >> 15) & 1, (c >> 14) & 1
        return r, c, axis(sx, r, rr, 16), axis(sx, c & 0xFF, cr, 8), rr, cr
    r, c = sx.u16(tag + 'r'), sx.u8(tag + 'c')
    if foc != tag + 'r':
        sx.assume((r & 0x3FFF) < 4)
    if foc != tag + 'c':
        sx.assume(c < 4)
    rr, cr = (r >> 15) & 1, (r >> 14) & 1
    return r, c, axis(sx, r & 0x3FFF, rr, 14), axis(sx, c, cr, 8), rr, cr


def token(sx, bv, cls, area, sh, a, b):
    """sh: BIFF8 index; BIFF7 (index, first, last)"""
    op = (0x1B if area else 0x1A) | cls
    if bv >= 80:
        head = sx.pack('<BH', op, sh)
        return sx.cat(head, sx.pack('<HHHH', a[0], b[0], a[1], b[1]) if area else sx.pack('<HH', a[0], a[1]))
    head = sx.pack('<Bh8xhh', op, *sh)
    return sx.cat(head, sx.pack('<HHBB', a[0], b[0], a[1], b[1]) if area else sx.pack('<HB', a[0], a[1]))


def refused(sx, X, o):
    sx.expect('cell is refused', X.xlrd.XLRDError, o.cell)
    sx.expect('area2d is refused', X.xlrd.XLRDError, o.area2d)
    sx.expect('unclipped area2d is refused', X.xlrd.XLRDError, o.area2d, clipped=False)
    sx.reach('refused')


def usable(sx, X, bk, o, sh, sizes, ra, rb, ca, cb):
    nr, nc = sizes[sh]
    # unclipped
    got = o.area2d(clipped=False)
    sx.check(got[0] is bk.sheet_by_index(sh), 'the sheet of the area')
    sx.check_same(tuple(got[1:]), (ra, rb, ca, cb), 'unclipped area')
    got = o.area2d()
    sx.check(got[0] is bk.sheet_by_index(sh), 'the sheet of the clipped area')
    lo = lambda v, n: sx.ite(v < n, v, n)
    def hi(l, v, n):
        v = lo(v, n)
        return sx.ite(v > l, v, l)
    r0, c0 = lo(ra, nr), lo(ca, nc)
    sx.check_same(tuple(got[1:]), (r0, hi(r0, rb, nr), c0, hi(c0, cb, nc)), 'clipped area')
    sx.reach('clipped')
    if not sx.And(rb == ra + 1, cb == ca + 1):
        sx.expect('cell of a larger area is refused', X.xlrd.XLRDError, o.cell)
        sx.reach('area')
        return
    if sx.And(ra < nr, ca < nc):
        c = o.cell()
        sx.check_same(c.ctype, 2, 'cell type')
        sx.check_same(c.value, 10 * sx.fork(ra) + sx.fork(ca) + 1.0, 'cell value')
        sx.reach('cell')
    else:
        k, e = sx.attempt(o.cell)
        sx.check(k == 'exc' and isinstance(e, IndexError), 'cell outside the sheet')
        sx.reach('outside')


def harness(sx, X, case):
    bv, lay = case['bv'], case['lay']
    if case['k'] == 'comb':
        return comb(sx, X, case)
    area, cls = case['area'], case['cls']
    a = address(sx, bv, 'a', case['foc'])
    b = address(sx, bv, 'b', case['foc']) if area else a
    recs = []
    if bv >= 80:
        order = SUPS[case['sup']]
        if case['foc'] == 'sheet':
            sup, first, last, refx = sx.u16('sup'), sx.u16('first'), sx.u16('last'), sx.u16('refx')
        else:
            sup, first, last, refx = order.index('I'), len(lay) - 1, len(lay) - 1, 0
        fixed = (order.index('I'), 0, 0)
        recs = supbooks(sx, order)
        ext = sx.cat(sx.pack('<H', 2), sx.pack('<HHH', sup, first, last), struct.pack('<HHH', *fixed))
        recs.append(B.rec(sx, 0x17, ext))
        tok = token(sx, bv, cls, area, refx, a, b)
        if 'A' in order:
            sx.assume(sx.Or(sup != order.index('A'), sx.And(first == 0xFFFE, last == 0xFFFE)))
    else:
        if case['foc'] == 'sheet':
            refx, first, last = sx.u16('refx'), sx.u16('first'), sx.u16('last')
        else:
            refx, first, last = 0xFFFF, len(lay) - 1, len(lay) - 1
        sg = lambda v: sx.ite(v >= 0x8000, v - 0x10000, v)
        recs = N.externs(sx, lay, range(len(lay)))
        tok = sx.cat(sx.pack('<BH8xHH', (0x1B if area else 0x1A) | cls, refx, first, last),
                     sx.pack('<HHBB', a[0], b[0], a[1], b[1]) if area else sx.pack('<HB', a[0], a[1]))
        sx.assume(refx != 0)
    recs.append(N.name_rec(sx, bv, 0, 0, b'\0ab' if bv >= 80 else b'ab', 2, tok, (0, 0)))
    data, sizes = book(sx, bv, lay, recs)
    bk = B.open_wb(sx, X, data)
    # where does it point?
    where = None
    if bv >= 80:
        if refx == 1:
            where = sheets(sx, lay, 0, 0)
        elif refx != 0:
            sx.reach('bad')
        elif sup != order.index('I'):
            sx.reach('external')
            if 'A' in order and sup == order.index('A'):
                sx.reach('addin')
        elif sx.And(first == 0xFFFE, last == 0xFFFE):
            sx.reach('any')
        elif sx.And(first == 0xFFFF, last == 0xFFFF):
            sx.reach('deleted')
        else:
            where = sheets(sx, lay, first, last)
    elif refx < 0x8000:
        sx.reach('external')
    elif sx.And(first == 0xFFFF, last == 0xFFFF):
        sx.reach('deleted')
    else:
        where = sheets(sx, lay, first, last)
    o = bk.name_obj_list[0]
    r = o.result
    rel = (a[4] | a[5] | b[4] | b[5]) != 0
    if rel:
        sx.reach('relative')
    sx.check_same(r.kind, -2 if rel else -1, 'kind of reference')
    sx.check_same(not not o.any_rel, True if rel else False, 'any_rel')
    if cls != 0x20:
        sx.check(r.value is None, 'no value for a value class reference')
        sx.reach('value class')
        return refused(sx, X, o)
    sx.check_same(len(r.value), 1, 'one reference')
    ref = r.value[0]
    want = (a[2], b[2] + 1, a[3], b[3] + 1)
    sx.check_same(tuple(ref.coords[2:]), want, 'rows and columns')
    sx.check_same((ref.rowxlo, ref.rowxhi, ref.colxlo, ref.colxhi), want, 'row and column attributes')
    sx.check_same(tuple(ref.relflags), (0, 0, a[4], b[4], a[5], b[5]), 'relative flags')
    if where is None:
        sx.check(sx.Not(sx.Or(ref.shtxlo >= 0, ref.shtxhi > 0)), 'no worksheet')
    else:
        sx.check_same(tuple(ref.coords[:2]), where, 'sheets')
        sx.check_same((ref.shtxlo, ref.shtxhi), where, 'sheet attributes')
    if where is None or rel:
        return refused(sx, X, o)
    if where[1] != where[0] + 1:
        sx.reach('sheets')
        return refused(sx, X, o)
    usable(sx, X, bk, o, where[0], sizes, *want)


def comb(sx, X, case):
    bv, lay, how = case['bv'], case['lay'], case['how']
    last = len(lay) - 1
    sh = (1, last, last) if bv >= 80 else (-1 - last, last, last)
    recs = []
    if bv >= 80:
        recs = supbooks(sx, 'XI')
        if how == 'big':
            # entries for another file around the one for the sheet; a full record holds 1370
            n = case['n']
            arg = sorted({0, 255, 256, 1369, 1370, 2739, 2740, n - 1} & set(range(n)))
            arg = arg[sx.fork(sx.int('ent', 0, len(arg) - 1))]
            ents = [struct.pack('<HHH', 0, 0, 0)] * n
            ents[arg] = struct.pack('<HHH', 1, last, last)
            ents = [b''.join(ents[i:i + 1370]) for i in range(0, n, 1370)]
            recs += [B.rec(sx, 0x3C if i else 0x17, (b'' if i else struct.pack('<H', n)) + e) for i, e in enumerate(ents)]
        else:
            recs.append(B.rec(sx, 0x17, struct.pack('<HHHH', 1, 1, last, last)))
    else:
        recs = N.externs(sx, lay, range(len(lay)))
    if how != 'big':
        arg = 0 if bv >= 80 else sh
    r0, c0, r1, c1 = [sx.int(n, 0, m) for n, m in (('r0', 5), ('c0', 4), ('r1', 5), ('c1', 4))]
    t0 = token(sx, bv, 0x20, 0, arg, (r0, c0), (r0, c0))
    t1 = token(sx, bv, 0x20, 0, arg, (r1, c1), (r1, c1))
    area = sx.int('area', 0, 1)
    if area == 1:
        t0 = token(sx, bv, 0x20, 1, arg, (r0, c0), (r1, c1))
    nm = lambda s, f: N.name_rec(sx, bv, 0, 0, (b'\0' if bv >= 80 else b'') + s, len(s), f, (0, 0))
    pad = b'\0\0' if bv >= 80 else b'\0' * 12
    tname = lambda i: b'\x23' + struct.pack('<H', i) + pad
    which = 0
    if how == 'union':
        sx.assume(area == 0)
        recs.append(nm(b'aa', sx.cat(t0, t1, b'\x10')))
    elif how == 'nested':
        sx.assume(area == 0)
        recs.append(nm(b'aa', sx.cat(t0, t1, t0, b'\x10\x10')))
    elif how == 'range':
        sx.assume(area == 0)
        recs.append(nm(b'aa', sx.cat(t0, t1, b'\x11')))
    elif how == 'isect':
        # two areas with a corner at the origin, the second one or both
        t1 = token(sx, bv, 0x20, 1, arg, (0, 0), (r1, c1))
        if area == 1:
            t0 = token(sx, bv, 0x20, 1, arg, (0, 0), (r0, c0))
        else:
            sx.assume(sx.And(r0 <= r1, c0 <= c1))
        recs.append(nm(b'aa', sx.cat(t0, t1, b'\x0f')))
    elif how == 'big':
        recs.append(nm(b'aa', t0))
    elif how == 'via':
        recs += [nm(b'aa', t0), nm(b'bb', tname(1))]
        which = 1
    elif how == 'fwd':
        recs += [nm(b'bb', tname(2)), nm(b'aa', t0)]
    elif how == 'memfunc':
        recs.append(nm(b'aa', sx.cat(b'\x29', struct.pack('<H', len(t0)), t0)))
    else:
        sx.assume(sx.And(area == 0, r0 == 0, r1 == 0, c0 == 0, c1 == 0))
        k = sx.fork(sx.int('other', 0, 6))
        f = (b'', b'\x1e\5\0', b'\x1f' + struct.pack('<d', 2.5), b'\x1d\1', b'\x1c\x17',
             b'\x17\1' + (b'\0' if bv >= 80 else b'') + b'x', b'\x44' + (b'\0\0\0\xc0' if bv >= 80 else b'\0\xc0\0'))[k]
        recs.append(nm(b'aa', f))
    data, sizes = book(sx, bv, lay, recs)
    bk = B.open_wb(sx, X, data)
    o = bk.name_obj_list[which]
    w = local(lay, last)
    if how == 'other':
        sx.reach('other')
        return refused(sx, X, o)
    if how in ('union', 'nested'):
        sx.check_same([tuple(v.coords) for v in o.result.value],
                      ([(w, w + 1, r0, r0 + 1, c0, c0 + 1), (w, w + 1, r1, r1 + 1, c1, c1 + 1)] * 2)[:2 + (how == 'nested')], 'references of a union')
        sx.check_same(o.result.kind, -1, 'kind of a union')
        sx.reach('union')
        return refused(sx, X, o)
    lo = lambda a, b: sx.ite(a < b, a, b)
    hi = lambda a, b: sx.ite(a < b, b, a) + 1
    if how == 'range':
        want = (lo(r0, r1), hi(r0, r1), lo(c0, c1), hi(c0, c1))
        sx.reach('range')
    elif how == 'isect':
        sx.reach('isect')
        top = sx.ite(area == 1, 0, r0), sx.ite(area == 1, 0, c0)
        want = (top[0], lo(r0, r1) + 1, top[1], lo(c0, c1) + 1)
    elif area == 1:
        want = (r0, r1 + 1, c0, c1 + 1)
    else:
        want = (r0, r0 + 1, c0, c0 + 1)
    if how in ('via', 'fwd'):
        sx.reach('via')
    sx.check_same(o.result.kind, -1, 'kind')
    sx.check_same(tuple(o.result.value[0].coords), (w, w + 1) + want, 'coordinates')
    usable(sx, X, bk, o, w, sizes, *want)
