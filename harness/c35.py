"""C35: cells of Excel 2, 3 and 4 worksheets."""
import struct
from . import biff as B

PROP = 'C35'
BOUNDS = ['BIFF2 without XF records (Excel 2.0), with them (2.1, also through IXFE), BIFF3, BIFF4 and 4W; one record of '
          'every cell kind with arbitrary payload at every address of a 4x4 corner, row 16383, column 255, and an '
          'earlier cell; labels and string results of 0 to 3 characters; with and without formatting info and ragged rows',
          'BIFF2 cell attributes of two cells at once: all protection bits with all alignments; all font and format numbers; all three bytes of the first '
          'against a fixed second; all '
          'alignments, borders and shading of the first cell against 16 values of the second; every format index of a date, number, text '
          'or missing format',
          'every XF index, directly or (BIFF2) by IXFE; three cells with own, announced or inherited IXFE indexes among 300 XF records; files with XF but no FORMAT records']
ASSUMES = ['An XF index in a cell refers to an existing XF record; the XF slot of Excel 2.0 cell attributes is zero.',
           'A DIMENSIONS record precedes the cells.']
ISO = {'after': '(number|blank|label2)-(20|21|30|40|45)-10|nofmt-.*|ixfe-number|attr-number-blank-a'}
REACH = ['number', 'integer', 'rk', 'label', 'bool', 'err', 'blank', 'fnum', 'fbool', 'ferr', 'fempty', 'fstr', 'attr',
         'ixfe', 'ixfes', 'nofmt', 'array', 'date', 'nodate']
FMT = ['General', 'd/m/yy', '@', '0.00']
TYPES = [2, 3, 2, 2]


def cases(tier):
    out = []
    th = tier != 'quick'
    kinds = ['number', 'label0', 'label2', 'label3', 'boolerr', 'blank', 'fnum', 'fbool', 'ferr', 'fempty', 'fstr0', 'fstr2',
             'fstr3', 'farr0', 'farr2']
    for bv in (20, 21, 30, 40, 45):
        for k in kinds + (['integer'] if bv < 30 else ['rk']):
            for fi in (0, 1):
                for rag in (0, 1):
                    if not th and rag and (fi or k not in ('number', 'label2', 'blank', 'fnum')):
                        continue
                    out.append({'name': '%s-%d-%d%d' % (k, bv, fi, rag), 'k': k, 'bv': bv, 'fi': fi, 'rag': rag})
    for k in ('number', 'integer', 'label2', 'blank', 'fnum', 'boolerr'):
        for k2 in ('number', 'blank') if not th else ('number', 'integer', 'label2', 'blank', 'fnum', 'boolerr'):
            for g in 'abcx':
                out.append({'name': 'attr-%s-%s-%s' % (k, k2, g), 'attr': 1, 'k': k, 'k2': k2, 'g': g, 'weight': 5})
        out.append({'name': 'ixfe-%s' % k, 'ixfe': 1, 'k': k})
        out.append({'name': 'ixfes-%s' % k, 'ixfes': 1, 'k': k})
    for bv in (21, 30, 40, 45):
        for fi in (0, 1):
            out.append({'name': 'nofmt-%d-%d' % (bv, fi), 'k': 'nofmt', 'bv': bv, 'fi': fi})
    return out


def fmtrecs(sx, bv):
    out = []
    for i, f in enumerate(FMT):
        b = bytes([len(f)]) + f.encode()
        out.append(B.rec(sx, 0x1E, b) if bv <= 30 else B.rec(sx, 0x41E, struct.pack('<H', i), b))
    return out


def xfrecs(sx, bv, n=4, fmts=(0, 1, 2, 3)):
    out = []
    for i in range(n):
        f = fmts[i]
        if bv == 21:
            out.append(B.rec(sx, 0x43, bytes([0, 0, f, 0])))
        elif bv == 30:
            out.append(B.rec(sx, 0x243, bytes([0, f, 1, 0xFC]) + bytes(8)))
        elif bv >= 40:
            out.append(B.rec(sx, 0x443, bytes([0, f, 1, 0, 0x20, 0xFC]) + bytes(6)))
    return out


def cell(sx, bv, k, r, c, xf, nm=''):
    """xf: XF index (or three attribute bytes in BIFF2).  Returns (records, type or None, value)."""
    b2 = bv < 30
    if b2:
        adr = sx.cat(sx.pack('<HH', r, c), xf if not isinstance(xf, int) and hasattr(xf, '__len__') else
                     sx.pack('<BBB', xf, 0, 0))
    else:
        adr = sx.pack('<HHH', r, c, xf)
    if k == 'number':
        sx.reach('number')
        d = sx.double(nm + 'd')
        return [B.rec(sx, 3 if b2 else 0x203, adr, sx.pack('<Q', sx.float_bits(d)))], None, d
    if k == 'integer':
        sx.reach('integer')
        i = sx.u16(nm + 'i')
        return [B.rec(sx, 2, adr, sx.pack('<H', i))], None, sx.fixed(i, 0)
    if k == 'rk':
        sx.reach('rk')
        i = sx.int(nm + 'i', -(1 << 29), (1 << 29) - 1)
        return [B.rec(sx, 0x27E, adr, sx.pack('<i', i * 4 + 2))], None, sx.fixed(i, 0)
    n = int(k[-1]) if k[-1].isdigit() else 0
    k = k.rstrip('0123456789')

    def text():
        cs = [sx.u8(nm + 't%d' % i) for i in range(n)]
        return cs, sx.mkbytes(cs)
    if k == 'label':
        sx.reach('label')
        cs, b = text()
        return [B.rec(sx, 4 if b2 else 0x204, adr, struct.pack('<B' if b2 else '<H', n), b)], 1, sx.mkstr(cs)
    if k == 'boolerr':
        v = sx.u8(nm + 'v')
        e = sx.fork(sx.int(nm + 'e', 0, 1))
        sx.reach('err' if e else 'bool')
        return [B.rec(sx, 5 if b2 else 0x205, adr, sx.pack('<BB', v, e))], 5 if e else 4, v
    if k == 'blank':
        sx.reach('blank')
        return [B.rec(sx, 1 if b2 else 0x201, adr)], 6, ''
    flags = sx.pack('<B' if b2 else '<H', sx.u8(nm + 'fl'))
    tail = b'\x03\x1e\x01\x00' if b2 else b'\x03\0\x1e\x01\x00'

    def form(res, *after):
        return [B.rec(sx, 6 if b2 else 0x206 if bv == 30 else 0x406, adr, res, flags, tail)] + list(after)
    sx.reach('fstr' if k == 'farr' else k)
    if k == 'fnum':
        d = sx.double(nm + 'd')
        b = sx.float_bits(d)
        sx.assume((b >> 48) != 0xFFFF)
        return form(sx.pack('<Q', b)), None, d
    if k in ('fbool', 'ferr'):
        v = sx.u8(nm + 'v')
        return form(sx.cat(1 if k == 'fbool' else 2, sx.u8(nm + 'j1'), v, sx.bytes(nm + 'j', 3), b'\xff\xff')), \
            4 if k == 'fbool' else 5, v
    if k == 'fempty':
        return form(sx.cat(3, sx.bytes(nm + 'j', 5), b'\xff\xff')), 1, ''
    cs, b = text()
    mid = []
    if k == 'farr':
        sx.reach('array')
        if b2:
            mid = [B.rec(sx, 0x21, sx.pack('<HHBBB', r, r, c, c, 0), b'\x03\x1e\x01\x00')]
        else:
            mid = [B.rec(sx, 0x221, sx.pack('<HHBBH', r, r, c, c, 0), b'\x03\0\x1e\x01\x00')]
    return form(sx.cat(0, sx.bytes(nm + 'j', 5), b'\xff\xff'),
                *(mid + [B.rec(sx, 7 if b2 else 0x207, struct.pack('<B' if b2 else '<H', n), b)])), 1, sx.mkstr(cs)


def version(sx, bk, bv):
    sx.check(bk.biff_version == bv, 'version')
    sx.check(bk.nsheets == 1, 'one sheet')


def harness(sx, X, case):
    k = case['k']
    if case.get('attr'):
        return attr(sx, X, case)
    if case.get('ixfes'):
        return ixfes(sx, X, case)
    if k == 'nofmt':
        sx.reach('nofmt')
        bv, fi = case['bv'], case['fi']
        f = sx.u8('f') if bv > 21 else sx.int('f', 0, 63)
        xr = [B.rec(sx, 0x43, sx.pack('<BBBB', 0, 0, f, 0))] if bv == 21 else \
            [B.rec(sx, 0x243, sx.pack('<BB', 0, f), b'\1\xfc' + bytes(8))] if bv == 30 else \
            [B.rec(sx, 0x443, sx.pack('<BB', 0, f), b'\1\0\x20\xfc' + bytes(6))]
        recs, t, v = cell(sx, bv, 'number', 1, 1, 0)
        st = B.single(sx, bv, xr + [B.dim(sx, bv, 2, 2)] + recs, cp=None)
        bk = B.open_wb(sx, X, st, formatting_info=bool(fi))
        version(sx, bk, bv)
        sh = bk.sheet_by_index(0)
        sx.check_same(sh.cell_value(1, 1), v, 'value')
        sx.check(sh.cell_type(1, 1) == 2, 'a number whose format is not defined stays a number')
        return
    bv, fi, rag = case.get('bv', 21), case.get('fi', 1), case.get('rag', 0)
    r = sx.fork(sx.int('r', 0, 4))
    r = 16383 if r == 4 else r
    c = sx.fork(sx.int('c', 0, 4))
    c = 255 if c == 4 else c
    if (r == 16383 or c == 255) and not (r in (16383, 0) and c in (255, 0)):
        return
    if r == 16383:
        sx.set_steps(3000000)
    first, t0, v0 = cell(sx, bv, 'label1', 2, 2, 1 if bv >= 21 else b'\x40\0\0', 'z')
    pre = []
    if bv == 20:
        f = sx.fork(sx.int('xf', 0, 3))
        xf = bytes([0, f, 0])
    else:
        f = xf = sx.fork(sx.int('xf', 0, 3))
        if case.get('ixfe'):
            sx.reach('ixfe')
            xf = 0x3F
            pre = [B.rec(sx, 0x44, struct.pack('<H', f))]
    recs, t, v = cell(sx, bv, k, r, c, xf)
    if t is None:
        t = TYPES[f]
        sx.reach('date' if t == 3 else 'nodate')
    exp = {(2, 2): (1, v0, 1 if bv > 20 else None)}
    if t != 6 or fi:
        exp[r, c] = (t, v, f if bv > 20 else None)
    st = B.single(sx, bv, fmtrecs(sx, bv) + xfrecs(sx, bv) + [B.dim(sx, bv, max(r, 2) + 1, max(c, 2) + 1)] + first +
                  pre + recs, cp=None)
    bk = B.open_wb(sx, X, st, formatting_info=bool(fi), ragged_rows=bool(rag))
    version(sx, bk, bv)
    sh = bk.sheet_by_index(0)
    nr = 1 + max(p[0] for p in exp)
    nc = 1 + max(p[1] for p in exp)
    sx.check_same((sh.nrows, sh.ncols), (nr, nc), 'size')
    for rr in range(nr):
        if 3 <= rr < nr - 1:
            continue
        last = max([p[1] for p in exp if p[0] == rr] or [-1])
        sx.check_same(sh.row_len(rr), last + 1 if rag else nc, 'row length')
        for cc in range(last + 1 if rag else nc):
            if 4 <= cc < nc - 1:
                continue
            et, ev, ex = exp.get((rr, cc), (0, '', None))
            got = sh.cell(rr, cc)
            sx.check_same(got.ctype, et, 'type')
            sx.check_same(got.value, ev, 'value')
            if fi and (rr, cc) in exp:
                if ex is None:
                    x = bk.xf_list[got.xf_index]
                    sx.check_same(x.format_key, f if (rr, cc) == (r, c) else 0, 'format')
                else:
                    sx.check_same(got.xf_index, ex, 'format index')
            elif not fi:
                sx.check_same(got.xf_index, None, 'no format index')


def ixfes(sx, X, case):
    """Several IXFE records among cells: each applies to the following cells that refer to it."""
    sx.reach('ixfes')
    nx = 300
    fm = (0, 1, 2, 3)
    pick = (63, 256, 299)
    xr = [B.rec(sx, 0x43, bytes([0, 0, (i * 7 + i // 64) % 4, 0])) for i in range(nx)]
    recs, want, cur = [], [], None
    for i, k in enumerate((case['k'], 'number', 'label1')):
        x = sx.fork(sx.int('x%d' % i, 0, len(pick) + 2))
        if x < len(pick):
            cur = pick[x]
            recs.append(B.rec(sx, 0x44, struct.pack('<H', cur)))
            xf, f = 63, cur
        elif x == len(pick):
            xf = f = 5            # its own
        elif x == len(pick) + 1:
            if cur is None:
                xf = f = 0
            else:
                xf, f = 63, cur   # the last one announced
        else:
            xf = f = 62
        rr, t, v = cell(sx, 21, k, 0, i, xf, 'n%d' % i)
        recs += rr
        want.append((TYPES[(f * 7 + f // 64) % 4] if t is None else t, v, f))
    st = B.single(sx, 21, fmtrecs(sx, 21) + xr + [B.dim(sx, 21, 1, 3)] + recs, cp=None)
    bk = B.open_wb(sx, X, st, formatting_info=True)
    version(sx, bk, 21)
    sh = bk.sheet_by_index(0)
    for i, (t, v, f) in enumerate(want):
        got = sh.cell(0, i)
        sx.check_same((got.ctype, got.value, got.xf_index), (t, v, f), 'cell %d' % i)


def attr(sx, X, case):
    """Excel 2.0: formats come from the attribute bytes of the cells."""
    sx.reach('attr')
    ats, recs, want = [], [], []
    for i, k in enumerate((case['k'], case['k2'])):
        g = case['g']
        a = [0x40, 1, 0]
        if g == 'x':
            if i == 0:
                a = [sx.int('a0', 0, 3) * 64, sx.u8('b0'), sx.u8('c0')]
        elif g == 'a':
            a[0] = sx.int('a%d' % i, 0, 3) * 64
            a[2] = sx.int('c%d' % i, 0, 7)
        elif g == 'b':
            a[1] = sx.u8('b%d' % i)
        elif i == 0:
            a[2] = sx.u8('c%d' % i)
        else:
            a[2] = sx.int('c%d' % i, 0, 7) + 8 * sx.int('cc%d' % i, 0, 1) + 0xA0
        ats.append(a)
        rr, t, v = cell(sx, 20, k, 1, i, sx.mkbytes(a), 'n%d' % i)
        recs += rr
        want.append((t, v))
    st = B.single(sx, 20, fmtrecs(sx, 20) + [B.dim(sx, 20, 2, 2)] + recs, cp=None)
    bk = B.open_wb(sx, X, st, formatting_info=True)
    version(sx, bk, 20)
    sh = bk.sheet_by_index(0)
    for i, (t, v) in enumerate(want):
        p, f, h = ats[i]
        got = sh.cell(1, i)
        key = f & 63
        if t is None:
            t = sx.ite(key == 1, 3, 2)
        sx.check_same(got.ctype, t, 'type')
        sx.check_same(got.value, v, 'value')
        xi = got.xf_index
        sx.check(sx.And(xi >= 0, xi < len(bk.xf_list)), 'format index')
        x = bk.xf_list[sx.fork(xi)]
        sx.check_same(x.format_key, key, 'number format')
        sx.check_same(x.font_index, f >> 6, 'font')
        sx.check_same(x.protection.cell_locked, (p >> 6) & 1, 'locked')
        sx.check_same(x.protection.formula_hidden, (p >> 7) & 1, 'hidden')
        sx.check_same(x.alignment.hor_align, h & 7, 'horizontal alignment')
        for bit, side in ((3, 'left'), (4, 'right'), (5, 'top'), (6, 'bottom')):
            on = (h >> bit) & 1
            sx.check_same(getattr(x.border, side + '_line_style'), on, side + ' border')
            sx.check_same(getattr(x.border, side + '_colour_index'), on * 8, side + ' border colour')
        sx.check_same(x.background.fill_pattern, ((h >> 7) & 1) * 17, 'shading')
        sx.check_same(bk.format_map[key].format_str if bool(key < 4) else 'General', FMT[sx.fork(key)] if bool(key < 4)
                      else 'General', 'format text')
