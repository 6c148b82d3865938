"""C33: presentation options never change the data read."""
import struct
from . import biff as B
from . import c28
from . import rich

PROP = 'C33'
P = struct.pack
BOUNDS = ['a workbook with one of everything (versions 8, 7, 5, 4W, 4, 3, 2) under every combination of formatting info, '
          'ragged rows, verbosity 0, 1, 2, 3, 5, on demand, and mapped file / read file / content / OLE2 contiguous / '
          'OLE2 fragmented',
          'a sheet of one cell record of each kind with arbitrary payload, one BLANK or MULBLANK and one NUMBER, in any '
          'order of addresses (rows 0 and 2, columns 0 and 3, or one ROW-described row), under formatting info, ragged '
          'rows and verbosity 0 or 5',
          'one formatting or layout record with arbitrary field values added (CF with any combination of optional blocks '
          'and formulas, CONDFMT, XF, FORMAT type, ROW, COLINFO, DEFCOLWIDTH, STANDARDWIDTH, GCW, DEFAULTROWHEIGHT, '
          'PALETTE, STYLE, FONT, WINDOW2, MERGEDCELLS, LABELRANGES, page breaks, PANE, SCL)']
ASSUMES = ['At most one record per cell address. Formatting records are well formed.',
           'The file system and mmap are modelled.']
REACH = ['fi', 'ragged', 'verbose', 'ondemand', 'ole', 'blank added', 'trailing dropped', 'cf', 'xf']
OPTS = {'max_steps': 3000000}

CELLS = ('number', 'label', 'bool', 'err', 'rk', 'formula', 'fstring', 'mulrk', 'rstring', 'sst')
EXTRA = ('cf', 'condfmt', 'xf', 'row', 'colinfo', 'defcol', 'std', 'gcw', 'defrow', 'palette', 'style', 'font', 'window2',
         'merged', 'labels', 'breaks', 'pane', 'scl')


def cases(tier):
    out = []
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for form in c28.FORMS:
            if form.startswith('ole') and bv < 50:
                continue
            out.append({'name': 'opts-%d-%s' % (bv, form), 'k': 'opts', 'bv': bv, 'form': form, 'weight': 3})
    for bv in (80, 70, 40, 21):
        for t in CELLS:
            if bv < 80 and t == 'sst' or bv < 50 and t in ('mulrk', 'rstring') or bv == 21 and t == 'rk':
                continue
            for verb in (0, 1):
                out.append({'name': 'sym-%d-%s-%d' % (bv, t, verb), 'k': 'sym', 'bv': bv, 't': t, 'verb': verb, 'weight': 3})
    for bv in (80, 70):
        for t in EXTRA:
            if bv == 70 and t in ('cf', 'condfmt', 'merged', 'labels'):
                continue
            out.append({'name': 'extra-%d-%s' % (bv, t), 'k': 'extra', 'bv': bv, 't': t, 'weight': 2})
    return out


def state(sh):
    """address -> (type, value) of what is neither empty nor blank, and the addresses of blanks."""
    out, blanks = {}, []
    rows = []
    for r in range(sh.nrows):
        n = sh.row_len(r)
        rows.append(n)
        for c in range(n):
            t = sh.cell_type(r, c)
            if t == 6:
                blanks.append((r, c))
            elif t != 0:
                out[(r, c)] = [t, sh.cell_value(r, c)]
            else:
                assert sh.cell_value(r, c) == ''
    return out, blanks, rows


def compare(sx, base, bk, fi, ragged):
    sx.check_same(bk.nsheets, base.nsheets, 'number of sheets')
    sx.check_same(bk.sheet_names(), base.sheet_names(), 'sheet names')
    sx.check_same(bk.datemode, base.datemode, 'datemode')
    for i in range(base.nsheets):
        s0, s1 = base.sheet_by_index(i), bk.sheet_by_index(i)
        d0, b0, r0 = state(s0)
        d1, b1, r1 = state(s1)
        sx.check_same(sorted(d1), sorted(d0), 'addresses of the data')
        for k in d0:
            sx.check_same(d1[k][0], d0[k][0], 'type at %d,%d' % k)
            sx.check_same(d1[k][1], d0[k][1], 'value at %d,%d' % k)
        sx.check(fi or not b1, 'blanks come with formatting info only')
        if b1:
            sx.reach('blank added')
        if ragged:
            sx.reach('ragged')
            for r in range(s1.nrows):
                n = r1[r]
                sx.check(n <= s1.ncols, 'row fits')
                sx.check(n == 0 or s1.cell_type(r, n - 1) != 0, 'trailing empty cells dropped')
                if n < s1.ncols:
                    sx.reach('trailing dropped')
        else:
            sx.check_same(r1, [s1.ncols] * s1.nrows, 'rectangular')
        if not fi:
            sx.check_same((s1.nrows, s1.ncols), (s0.nrows, s0.ncols), 'extent')
        else:
            sx.check(s1.nrows >= s0.nrows and s1.ncols >= s0.ncols, 'extent')


def options(sx, verbs=(0, 1, 2, 3, 5), od=True):
    fi = sx.fork(sx.int('fi', 0, 1))
    ragged = sx.fork(sx.int('ragged', 0, 1))
    verb = verbs[sx.fork(sx.int('verb', 0, len(verbs) - 1))] if len(verbs) > 1 else verbs[0]
    ondemand = sx.fork(sx.int('od', 0, 1)) if od else 0
    sx.reach('fi' if fi else 'verbose' if verb else 'ondemand' if ondemand else 'ole')
    return {'formatting_info': bool(fi), 'ragged_rows': bool(ragged), 'verbosity': verb}, bool(ondemand)


def cell(sx, bv, t, r, c):
    """A cell record of a kind with arbitrary payload."""
    b2 = bv < 30
    pre = P('<HH', r, c) + (b'\1\0\0' if b2 else b'\1\0')
    op = 0 if b2 else 0x200
    if t == 'number':
        return [B.rec(sx, op + 3, pre, sx.bytes('v', 8))]
    if t == 'label':
        n = 2
        body = sx.bytes('v', n)
        for b in body:
            sx.assume(b < 128)
        if bv >= 80:
            return [B.rec(sx, 0x204, pre, P('<H', n), b'\0', body)]
        return [B.rec(sx, op + 4, pre, P('<B' if b2 else '<H', n), body)]
    if t in ('bool', 'err'):
        v = sx.u8('v')
        if t == 'bool':
            sx.assume(v <= 1)
        return [B.rec(sx, op + 5, pre, sx.mkbytes([v]), bytes([t == 'err']))]
    if t == 'rk':
        return [B.rec(sx, 0x27E, pre, sx.bytes('v', 4))]
    fop = 6 if bv >= 50 or b2 else 0x206 if bv == 30 else 0x406
    fx = b'\0' + b'\3\x1e\1\0' if b2 else b'\0' * (6 if bv >= 50 else 2) + b'\3\0\x1e\1\0'
    if t == 'formula':
        v = sx.bytes('v', 8)
        sx.assume(sx.Not(sx.And(v[6] == 255, v[7] == 255)))
        return [B.rec(sx, fop, pre, v, fx)]
    if t == 'fstring':
        b = sx.bytes('v', 1)
        sx.assume(b[0] < 128)
        s = sx.cat(P('<H', 1), b'\0', b) if bv >= 80 else sx.cat(P('<B' if b2 else '<H', 1), b)
        return [B.rec(sx, fop, pre, b'\0\0\0\0\0\0\xff\xff', fx), B.rec(sx, 7 if b2 else 0x207, s)]
    if t == 'mulrk':
        return [B.rec(sx, 0xBD, P('<HH', r, c), b'\1\0', sx.bytes('v', 4), b'\2\0', sx.bytes('w', 4), P('<H', c + 1))]
    if t == 'rstring':
        b = sx.bytes('v', 1)
        sx.assume(b[0] < 128)
        if bv >= 80:
            return [B.rec(sx, 0xD6, pre, P('<H', 2), b'\0', b, b'x', b'\1\0\1\0\2\0')]
        return [B.rec(sx, 0xD6, pre, P('<H', 2), b, b'x', b'\1\1\2')]
    i = sx.int('v', 0, 1)
    return [B.rec(sx, 0xFD, pre, sx.pack('<I', i))]


def blank(sx, bv, r, c, mul):
    if bv < 30:
        return B.rec(sx, 1, P('<HH', r, c), b'\1\0\0')
    if mul and bv >= 50:
        return B.rec(sx, 0xBE, P('<HH', r, c), P('<HH', 1, 2), P('<H', c + 1))
    return B.rec(sx, 0x201, P('<HHH', r, c, 1))


PLACES = ((0, 0), (0, 3), (2, 0), (2, 3), (1, 5))


def harness(sx, X, case):
    bv = case['bv']
    if case['k'] == 'opts':
        stream = whole(sx, bv)
        env, base = c28.open_form(sx, X, 'content', stream, False)
        kw, od = options(sx)
        if case['form'].startswith('ole'):
            sx.reach('ole')
        env, bk = c28.open_form(sx, X, case['form'], stream, od, **kw)
        compare(sx, base, bk, kw['formatting_info'], kw['ragged_rows'])
        return
    if case['k'] == 'sym':
        at = sx.fork(sx.int('at', 0, 3))
        bat = (at + 1 + sx.fork(sx.int('bat', 0, 3))) % 5
        nat = (at + 1) % 5
        if nat == bat:
            nat = (at + 4) % 5
        recs = [cell(sx, bv, case['t'], *PLACES[at])]
        recs.insert(sx.fork(sx.int('order', 0, 1 - case['verb'])), [blank(sx, bv, *PLACES[bat], mul=sx.fork(sx.int('mul', 0, 1)))])
        recs.append([B.rec(sx, 3 if bv < 30 else 0x203, P('<HH', *PLACES[nat]), b'\1\0\0' if bv < 30 else b'\1\0', P('<d', 2.5))])
        recs = [x for y in recs for x in y]
        stream = sheetwb(sx, bv, recs)
        verbs = (5,) if case['verb'] else (0,)
        kw, od = options(sx, verbs, od=False)
    else:
        stream = extra(sx, bv, case['t'])
        kw, od = options(sx, (0, 1, 5) if case['t'] != 'cf' else (0, 1), od=False)
        sx.assume(kw['ragged_rows'] == 0)
    base = B.open_wb(sx, X, stream)
    bk = B.open_wb(sx, X, stream, **kw)
    compare(sx, base, bk, kw['formatting_info'], kw['ragged_rows'])


def whole(sx, bv, g2=(), s2=(), xf=()):
    g = rich.strip(rich.globs(sx, bv))
    s = rich.strip(rich.cells(sx, bv))
    if xf:
        at = max(i for i, r in enumerate(g) if r[0] == 0xE0) + 1
        g[at:at] = xf
    if any(r[0] == 0x92 for r in g2):
        g = [r for r in g if r[0] != 0x92]
    other = [B.rec(sx, 0x203, P('<HHHd', 0, 0, 0, 3.0))] if bv >= 30 else []
    return rich.assemble(sx, bv, g + list(g2), [s + list(s2), other])


def sheetwb(sx, bv, recs):
    if bv >= 50:
        g = [B.codepage(sx, 1200 if bv >= 80 else 1252)] + B.std_globals(sx, bv, (0, 14, 0x31))
        if bv >= 80:
            g.append(B.rec(sx, 0xFC, P('<ii', 2, 2), B.ustr(sx, 'one'), B.ustr(sx, 'two')))
        return rich.assemble(sx, bv, g, [recs])
    s = rich.strip(rich.cells(sx, bv))
    head = [r for r in s if (r[0] | r[1] << 8) in (0x31, 0x231, 0x45, 0x56, 0x1E, 0x41E, 0x43, 0x243, 0x443, 0x293, 0x22)]
    return rich.assemble(sx, bv, [], [head + [B.dim(sx, bv, 3, 6)] + recs])


def extra(sx, bv, t):
    """The workbook with one more record, any of whose fields are arbitrary."""
    R = lambda op, *b: B.rec(sx, op, *b)
    u8, u16 = sx.u8, sx.u16
    s2, g2, xf = [], [], []
    if t == 'cf':
        sx.reach('cf')
        bits = sx.fork(sx.int('blocks', 0, 63))
        fl = 0
        body = []
        for i, (bit, n) in enumerate(((25, 2), (26, 118), (27, 8), (28, 8), (29, 4), (30, 2))):
            if bits >> i & 1:
                fl |= 1 << bit
                body.append(bytes([7]) * n)
        f1 = (b'', b'\x1e\1\0', b'\x1e\1\0\x1e\2\0\3')[sx.fork(sx.int('f1', 0, 2))]
        f2 = (b'', b'\x24\1\0\2\xc0')[sx.fork(sx.int('f2', 0, 1))]
        low = sx.int('low', 0, (1 << 25) - 1)
        s2.append(R(0x1B1, sx.cat(u8('ct'), u8('op')), P('<HH', len(f1), len(f2)), sx.pack('<I', fl | low), bytes(2), *(body + [f1, f2])))
    elif t == 'condfmt':
        n = sx.fork(sx.int('n', 0, 2))
        box = sx.pack('<6H', u16('ncf'), u16('recalc'), 1, u16('r2'), 0, 3)
        s2.append(R(0x1B0, box, P('<H', n), *[sx.pack('<HHHH', 1, 2, sx.int('e%d' % i, 0, 40), 255) for i in range(n)]))
    elif t == 'xf':
        sx.reach('xf')
        n = 3
        font, fmt, ty, rest = 1, 14, b'\1\0', bytes(14 if bv >= 80 else 10)
        w = sx.fork(sx.int('which', 0, 2))
        if w == 0:
            fmt = u16('fmt')
        elif w == 1:
            font = sx.int('font', 0, 3)
            ty = sx.cat(sx.pack('<H', sx.int('t', 0, 15) | (sx.int('par', 0, 3) << 4)))
        else:
            at = sx.fork(sx.int('xat', 0, len(rest) - 2))
            rest = sx.cat(rest[:at], sx.bytes('x', 2), rest[at + 2:])
        xf.append(R(0xE0, sx.pack('<HH', font, fmt), ty, rest))
        nx = sum(1 for r in rich.strip(rich.globs(sx, bv)) if r[0] == 0xE0 and r[1] == 0)
        s2.append(R(0x203, P('<HHHd', 8, 2, nx, 39000.5)))
        s2.append(R(0x27E, P('<HHHi', 8, 3, nx, 28 * 4 + 2)))
    elif t == 'row':
        s2.append(R(0x208, sx.pack('<HHHHHHI', sx.int('r', 0, 9), u16('c1'), u16('c2'), u16('h'), 0, 0, sx.u32('fl'))))
    elif t == 'colinfo':
        s2.append(R(0x7D, sx.pack('<HHHHHH', sx.int('c1', 0, 6), sx.int('c2', 0, 8), u16('w'), u16('xf'), u16('fl'), 0)))
    elif t == 'defcol':
        s2.append(R(0x55, sx.pack('<H', u16('w'))))
    elif t == 'std':
        s2.append(R(0x99, sx.pack('<H', u16('w'))))
    elif t == 'gcw':
        s2.append(R(0xAB, P('<H', 32), sx.bytes('b', 2), bytes(30)))
    elif t == 'defrow':
        s2.append(R(0x225, sx.pack('<HH', u16('fl'), u16('h'))))
    elif t == 'palette':
        g2.append(R(0x92, P('<H', 56), sx.bytes('rgb', 4), bytes(220)))
    elif t == 'style':
        g2.append(R(0x293, sx.pack('<H', sx.ite(u8('user') >= 128, 0x8000, 0) | sx.int('xf', 0, 2)), sx.bytes('bi', 2), bytes(1) if bv >= 80 else b''))
        g2 = [R(0x293, sx.pack('<HBB', 0x8000 | sx.int('xfi', 0, 2), sx.int('id', 0, 9), u8('lvl')))]
    elif t == 'font':
        g2.append(R(0x31, sx.pack('<5H4B', u16('h'), u16('fl'), u16('col'), u16('w'), u16('esc'), u8('ul'), u8('fam'), u8('cs'), 0),
                    B.ustr(sx, 'Ab', 1) if bv >= 80 else b'\2Ab'))
    elif t == 'window2':
        s2.append(R(0x23E, sx.pack('<HHH', u16('fl'), u16('r'), u16('c')), sx.pack('<HHHHI', u16('col'), 0, u16('z'), u16('n'), 0) if bv >= 80 else sx.pack('<BBBB', 10, sx.int('cg', 0, 7), 200, 0)))
    elif t == 'merged':
        s2.append(R(0xE5, P('<H', 1), sx.pack('<4H', sx.int('r1', 0, 3), sx.int('r2', 0, 4), sx.int('c1', 0, 3), sx.int('c2', 0, 4))))
    elif t == 'labels':
        s2.append(R(0x15F, P('<H', 1), sx.pack('<4H', u16('r1'), u16('r2'), u16('c1'), u16('c2')), P('<H', 0)))
    elif t == 'breaks':
        for op in (0x1B, 0x1A):
            a = sx.pack('<H', u16('b%d' % op))
            s2.append(R(op, P('<H', 1), a, P('<HH', 0, 255) if bv >= 80 else b''))
    elif t == 'pane':
        s2.append(R(0x41, sx.pack('<4HB', u16('a'), u16('b'), u16('c'), u16('d'), u8('e'))))
    elif t == 'scl':
        s2.append(R(0xA0, sx.pack('<HH', u16('num'), u16('den'))))
    return whole(sx, bv, g2, s2, xf)
