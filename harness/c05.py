"""C05: every kind of cell record, BIFF8 and BIFF5/7."""
import struct
from . import biff as B

PROP = 'C05'
ROWS8 = (0, 1, 2, 255, 256, 300, 32768, 65535)
ROWS7 = (0, 1, 2, 255, 256, 300, 16383)
COLS = (0, 1, 2, 127, 128, 255)
BOUNDS = ['one cell record of each kind (NUMBER, BOOLERR, LABELSST, LABEL, RSTRING, BLANK, MULBLANK, '
          'FORMULA with numeric, string, boolean, error or empty result, with or without a '
          'SHRFMLA/ARRAY/TABLEOP record before its STRING) written over a sheet with 4 other cells',
          'address: rows %r (BIFF8) / %r (BIFF5/7) x columns %r for NUMBER, rows 0..2 x columns 0..2 '
          'and 255 for the other kinds' % (ROWS8, ROWS7, COLS),
          'each kind also at rows 256 and 40000 (16000), column 200, among 300 XFs and 300 shared strings',
          'all 64-bit doubles, all boolean/error bytes, strings of 0 to 3 symbolic characters '
          '(compressed and 16-bit; latin-1 and cp1252 for BIFF5/7), 0 to 2 formatting runs, 3 XFs, '
          'formatting_info on and off, ragged_rows on and off']
ASSUMES = ['XF indexes name XF records of the workbook; a formula number is not one of the NaNs '
           'whose top 16 bits are all ones (they denote non-numeric results).']
ISO = {'after': '(number|labelsst|blank|fstr|label)-(80|70)-fi1-r0(-mid-n0-wide0|-winsmall|-n0-wide0)?', 'beside': '(labelsst|blank|number)-(80|70)-fi1-r0(-winsmall)?', 'ole': '.*-(80|70)-fi1-r0(-mid)?(-winsmall|-n[02]-.*)?'}
REACH = ['number', 'bool', 'err', 'labelsst', 'label', 'rstring', 'blank', 'mulblank', 'fnum',
         'fstr', 'fbool', 'ferr', 'fempty', 'fbad']
FMTS = (0, 14, 0x31)


def cases(tier):
    out = []
    thorough = tier != 'quick'
    for biff in (80, 70, 50):
        for fi in (0, 1):
            for rag in (0, 1):
                base = {'biff': biff, 'fi': fi, 'rag': rag}
                tag = '%d-fi%d-r%d' % (biff, fi, rag)

                def add(k, **kw):
                    d = dict(base, k=k, **kw)
                    d['name'] = '-'.join([k, tag] + ['%s%s' % i for i in sorted(kw.items())])
                    out.append(d)
                if not thorough and (biff == 50 or (rag and biff == 70)):
                    if biff == 50 and not rag and not fi:
                        add('number', win='small')
                        add('label', n=2, wide=0)
                    continue
                add('number', win='small')
                if fi == rag and (biff != 70 or not fi):
                    add('number', win='big')
                    out[-1]['weight'] = 5
                add('boolerr')
                add('fnum')
                add('fbool')
                add('ferr')
                add('fempty')
                if not fi:
                    add('fbad')
                ns = ((0, 0), (2, 0)) + (((2, 1),) if biff == 80 else ())
                if thorough:
                    ns = ((0, 0), (1, 0), (3, 0)) + (((1, 1), (3, 1)) if biff == 80 else ())
                if rag and not thorough:
                    ns = ns[1:2]
                for n, wide in ns:
                    add('label', n=n, wide=wide)
                    for nrt in (0, 1, 2) if not rag or thorough else (1,):
                        add('rstring', n=n, wide=wide, nrt=nrt)
                    for mid in ('', 'shr', 'arr', 'tab') if n == 2 and not rag or thorough else ('',):
                        if n or biff == 80:
                            add('fstr', n=n, wide=wide, mid=mid)
                if biff == 80:
                    add('labelsst')
                if fi:
                    add('blank')
                    for nb in (1, 2, 3):
                        add('mulblank', nb=nb)
        if biff == 50 and not thorough:
            continue
        for fi in (0, 1):
            base = {'biff': biff, 'fi': fi, 'rag': 1}
            tag = '%d-fi%d-r1' % (biff, fi)
            for k in ('number', 'boolerr', 'fnum', 'fbool', 'ferr', 'fempty', 'label', 'rstring', 'fstr', 'labelsst', 'blank',
                      'mulblank'):
                if k == 'labelsst' and biff < 80 or k in ('blank', 'mulblank') and not fi:
                    continue
                kw = {'label': {'n': 2, 'wide': 0}, 'rstring': {'n': 2, 'wide': 0, 'nrt': 1}, 'mulblank': {'nb': 2},
                      'fstr': {'n': 2, 'wide': 0, 'mid': 'arr'}}.get(k, {})
                add(k, win='far', **kw)
                out[-1]['weight'] = 5
    return out


def harness(sx, X, case):
    biff, fi, rag, k = case['biff'], case['fi'], case['rag'], case['k']
    far = case.get('win') == 'far'
    nxf = 300 if far else 3
    fmts = [FMTS[(i * 7 + i // 64) % 3] if far else FMTS[i] for i in range(nxf)]
    globs = B.std_globals(sx, biff, fmts)
    bg = {(0, 0): 1.5, (0, 2): 2.5, (1, 1): 3.5, (2, 0): 4.5}
    recs = [B.rec(sx, 0x203, struct.pack('<HHHd', r, c, 0, v)) for (r, c), v in sorted(bg.items())]
    exp = {p: (2, v, 0) for p, v in bg.items()}
    if far:
        sx.set_steps(3000000)
        xf = (2, 255, 256, 299)[sx.fork(sx.int('xf', 0, 3))]
        nt = 3 if fmts[xf] == 14 else 2
    else:
        xf = sx.int('xf', 0, 2)
        nt = sx.ite(xf == 1, 3, 2)
    if case.get('win') == 'big':
        sx.set_steps(3000000)
        ri = sx.fork(sx.int('ri', 3, 7 if biff == 80 else 6))
        ci = sx.fork(sx.int('ci', 2, 5))
        r = (ROWS8 if biff == 80 else ROWS7)[ri]
        c = COLS[ci]
    elif far:
        r, c = sx.fork(sx.int('r', 0, 1)), 200
        r = ((256, 40000) if biff == 80 else (256, 16000))[r]
    else:
        r = sx.fork(sx.int('r', 0, 2))
        c = sx.fork(sx.int('c', 0, 3))
        if c == 3:
            c = 255
            if k == 'mulblank':
                c = 256 - case['nb']
    adr = sx.pack('<HHH', r, c, xf)
    new = {}
    runs = None
    wide = case.get('wide', 0)
    n = case.get('n', 0)

    def text(nm):
        if biff == 80:
            cs = [sx.u16('%s%d' % (nm, i)) if wide else sx.u8('%s%d' % (nm, i)) for i in range(n)]
            if wide:
                for ch in cs:
                    sx.assume(sx.Or(ch < 0xD800, ch >= 0xE000))
                body = sx.cat(*[sx.pack('<H', ch) for ch in cs]) if cs else b''
            else:
                body = sx.mkbytes(cs)
            return cs, sx.cat(wide, body)
        # cp1252: identical to latin-1 outside 0x80..0x9F
        cs = [sx.u8('%s%d' % (nm, i)) for i in range(n)]
        for ch in cs:
            sx.assume(sx.Or(ch < 0x80, ch >= 0xA0))
        return cs, sx.mkbytes(cs)

    def formula(res, *after):
        return [B.rec(sx, 0x06, adr, res, sx.pack('<HIH', sx.u16('flags'), sx.u32('chn'), 3),
                      b'\x1e\x01\x00')] + list(after)

    if k == 'number':
        d = sx.double('d')
        sx.reach('number')
        recs.append(B.rec(sx, 0x203, adr, sx.pack('<Q', sx.float_bits(d))))
        new[r, c] = (nt, d, xf)
    elif k == 'boolerr':
        v = sx.u8('v')
        e = sx.fork(sx.int('e', 0, 1))
        sx.reach('err' if e else 'bool')
        extra = sx.fork(sx.int('extra', 0, 1))
        recs.append(B.rec(sx, 0x205, adr, sx.cat(v, e), b'\0' * extra))
        new[r, c] = (5 if e else 4, v, xf)
    elif k == 'labelsst':
        sx.reach('labelsst')
        strs = ['', 'ab', 'x\u0394']
        if far:
            strs += ['s%d' % i for i in range(3, 300)]
        cs = [sx.u8('s%d' % i) for i in range(2)]
        body = sx.cat(struct.pack('<II', 900, len(strs)), B.ustr(sx, strs[0]), b'\x02\x00\x00', sx.mkbytes(cs),
                      *[B.ustr(sx, x) for x in strs[2:]])
        globs.append(B.rec(sx, 0xFC, body))
        i = (1, 2, 255, 256, 299)[sx.fork(sx.int('i', 0, 4))] if far else sx.fork(sx.int('i', 0, 2))
        recs.append(B.rec(sx, 0xFD, adr, sx.pack('<I', i)))
        new[r, c] = (1, sx.mkstr(cs) if i == 1 else strs[i], xf)
    elif k == 'label':
        sx.reach('label')
        cs, body = text('t')
        recs.append(B.rec(sx, 0x204, adr, struct.pack('<H', n), body))
        new[r, c] = (1, sx.mkstr(cs), xf)
    elif k == 'rstring':
        sx.reach('rstring')
        cs, body = text('t')
        nrt = case['nrt']
        w = 'H' if biff == 80 else 'B'
        runs = [(sx.int('p%d' % i, 0, 0xFFFF if biff == 80 else 255),
                 sx.int('f%d' % i, 0, 0xFFFF if biff == 80 else 255)) for i in range(nrt)]
        rb = sx.cat(sx.pack('<' + w, nrt), *[sx.pack('<' + w * 2, p, f) for p, f in runs])
        recs.append(B.rec(sx, 0xD6, adr, struct.pack('<H', n), body, rb))
        new[r, c] = (1, sx.mkstr(cs), xf)
    elif k == 'blank':
        sx.reach('blank')
        recs.append(B.rec(sx, 0x201, adr))
        new[r, c] = (6, '', xf)
    elif k == 'mulblank':
        sx.reach('mulblank')
        nb = case['nb']
        xs = [(sx.int('x%d' % i, 0, nxf - 1) if i else xf) if far else sx.int('x%d' % i, 0, 2) for i in range(nb)]
        recs.append(B.rec(sx, 0xBE, sx.pack('<HH', r, c), *([sx.pack('<H', x) for x in xs] +
                                                            [struct.pack('<H', c + nb - 1)])))
        for i in range(nb):
            new[r, c + i] = (6, '', xs[i])
    elif k == 'fnum':
        d = sx.double('d')
        b = sx.float_bits(d)
        sx.assume((b >> 48) != 0xFFFF)
        sx.reach('fnum')
        recs += formula(sx.pack('<Q', b))
        new[r, c] = (nt, d, xf)
    elif k in ('fbool', 'ferr'):
        v = sx.u8('v')
        sx.reach(k)
        recs += formula(sx.cat(1 if k == 'fbool' else 2, sx.u8('j1'), v, sx.bytes('j', 3), b'\xff\xff'))
        new[r, c] = (4 if k == 'fbool' else 5, v, xf)
    elif k == 'fempty':
        sx.reach(k)
        recs += formula(sx.cat(3, sx.bytes('j', 5), b'\xff\xff'))
        new[r, c] = (1, '', xf)
    elif k == 'fbad':
        sx.reach(k)
        t = sx.int('t', 4, 255)
        recs += formula(sx.cat(t, sx.bytes('j', 5), b'\xff\xff'))
        wb = B.workbook(sx, [recs], globs, biff=biff)
        sx.expect('an unknown kind of formula result is refused', X.xlrd.XLRDError, B.open_wb, sx, X,
                  wb, ragged_rows=bool(rag))
        return
    elif k == 'fstr':
        sx.reach(k)
        cs, body = text('t')
        mid = {'': [], 'shr': [B.rec(sx, 0x4BC, sx.pack('<HHBBBBH', r, r, c, c, 0, 1, 0))],
               'arr': [B.rec(sx, 0x221, sx.pack('<HHBBBIBH', r, r, c, c, 0, 0, 0, 0))],
               'tab': [B.rec(sx, 0x236, sx.pack('<HHBBHHHHH', r, r, c, c, 0, 0, 0, 0, 0))]}[case['mid']]
        recs += formula(sx.cat(0, sx.bytes('j', 5), b'\xff\xff'),
                        *(mid + [B.rec(sx, 0x207, struct.pack('<H', n), body)]))
        new[r, c] = (1, sx.mkstr(cs), xf)
    exp.update(new)
    wb = B.workbook(sx, [recs], globs, biff=biff)
    bk = B.open_wb(sx, X, wb, formatting_info=bool(fi), ragged_rows=bool(rag))
    sh = bk.sheet_by_index(0)
    nr = 1 + max(p[0] for p in exp)
    nc = 1 + max(p[1] for p in exp)
    sx.check_same(sh.nrows, nr, 'row count')
    sx.check_same(sh.ncols, nc, 'column count')
    for rr in range(nr):
        if 3 <= rr < nr - 2:
            continue
        last = max([p[1] for p in exp if p[0] == rr] or [-1])
        sx.check_same(sh.row_len(rr), last + 1 if rag else nc, 'row length')
        for cc in range(last + 1 if rag else nc):
            if far and 4 <= rr < nr - 1 or 4 <= cc < nc - 3 and (rr, cc) not in exp:
                continue
            ct, v, x = exp.get((rr, cc), (0, '', 15))
            what = 'of the record\'s cell' if (rr, cc) in new else 'of another cell'
            cell = sh.cell(rr, cc)
            sx.check_same(cell.ctype, ct, 'type ' + what)
            sx.check_same(cell.value, v, 'value ' + what)
            sx.check_same(cell.xf_index, x if fi else None, 'format index ' + what)
    if k == 'rstring':
        sx.check_same(dict(sh.rich_text_runlist_map), {(r, c): runs}, 'rich text runs')
    for p in new:
        sx.observe('cell', (sh.cell_type(*p), sh.cell_value(*p)))
