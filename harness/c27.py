"""C27: cell, column, range and sheet-range names."""
from . import biff as B

PROP = 'C27'
BOUNDS = ['columns 0..701 (A..ZZ; .xls sheets have 256) for colname, cellname and cellnameabs, 0..255 elsewhere; rows '
          '0..1048575, absolute and range names 0..65535',
          'relative offsets: rows -65536..65535, columns -256..255, base cell anywhere in 65536 x 256 or absent; every '
          'combination of relative flags; A1 and R1C1 style; absolute ranges with arbitrary half-open bounds, relative ones with one arbitrary bound at a time',
          'three-dimensional ranges over 1 to 3 sheets, with sheet names of 1 to 4 arbitrary 8-bit or 16-bit characters']
ASSUMES = ['The base cell is given as a pair or not at all.',
           'Sheet names are required to be quoted when they contain a blank or an apostrophe (what the code sets out '
           'to do); Excel also quotes names with other special characters.']
REACH = ['col', 'abs', 'rel', 'r2', 'r2rel', 'r3', 'r3rel', 'wrap', 'quoted', 'plain', 'r1c1', 'multi']
OPTS = {'max_steps': 400000}


def cases(tier):
    out = [{'name': k, 'k': k} for k in ('col', 'cell', 'abs', 'absr1c1')]
    for rr in (0, 1):
        for cr in (0, 1):
            for base in (0, 1):
                for st in (0, 1):
                    out.append({'name': 'rel-%d%d-%d-%d' % (rr, cr, base, st), 'k': 'rel', 'rr': rr, 'cr': cr,
                                'base': base, 'st': st, 'weight': 3})
    for st in (0, 1):
        out.append({'name': 'r2-%d' % st, 'k': 'r2', 'st': st, 'weight': 5})
    for fl in range(16):
        for base in (0, 1):
            for st in (0, 1):
                if 0 and tier == 'quick' and (fl * 5 + base * 3 + st * 2 + (fl >> 2)) % 4 and fl not in (5, 10, 15):
                    continue
                out.append({'name': 'r2rel-%d-%d-%d' % (fl, base, st), 'k': 'r2rel', 'fl': fl, 'base': base, 'st': st,
                            'weight': 20})
    n = 4 if tier != 'quick' else 3
    for k in ('r3', 'r3rel', 'r3sheetrel'):
        for wide in (0, 1):
            for a in range(1, n + 1):
                out.append({'name': '%s-%d-%d' % (k, a, wide), 'k': k, 'a': a, 'wide': wide, 'weight': 4})
    return out


def dec(v):
    """A decimal number: (value, number of digits) after a sign."""
    out = []
    if v < 0:
        out.append(45)
        v = 0 - v
    n = 1
    while v >= 10 ** n:
        n += 1
    return out + [(v, n)]


def match(sx, got, want, label):
    """got reads back as exactly the wanted characters and numbers."""
    its = sx.items(got)
    n = sum(w[1] if type(w) is tuple else 1 for w in want)
    sx.check(len(its) == n, label + ': length')
    if len(its) != n:
        return
    conds = []
    pos = 0
    for w in want:
        if type(w) is tuple:
            ds = its[pos:pos + w[1]]
            conds += [sx.And(c >= 48, c <= 57) for c in ds]
            conds.append(sx.number(ds) == w[0])
            pos += w[1]
        else:
            conds.append(its[pos] == w)
            pos += 1
    sx.check(sx.And(*conds), label)


def letters(c):
    """Bijective base 26."""
    n, tot = 1, 26
    while c >= tot:
        n += 1
        tot += 26 ** n
    d = c - (tot - 26 ** n)
    return [d // 26 ** i % 26 + 65 for i in reversed(range(n))]


def cps(s):
    return [ord(c) for c in s]


def ab(r, c, st):
    if st:
        return [82] + dec(r + 1) + [67] + dec(c + 1)
    return [36] + letters(c) + [36] + dec(r + 1)


def axis(sx, ch, v, rel, base, size, st):
    if st:
        if not rel:
            return [ch] + dec(v + 1)
        if v == 0:
            return [ch]
        return [ch, 91] + dec(v) + [93]
    f = letters if ch == 67 else (lambda x: dec(x + 1))
    if not rel:
        return [36] + f(v)
    w = base + v
    if w < 0 or w >= size:
        sx.reach('wrap')
    return f(w % size)


def cell(sx, r, c, rr, cr, base, st):
    a = axis(sx, 82, r, rr, base and base[0], 65536, st)
    b = axis(sx, 67, c, cr, base and base[1], 256, st)
    return a + b if st else b + a


def coord(sx, nm, rel, row):
    m = 65536 if row else 256
    return sx.int(nm, -m if rel else 0, m - 1)


def quoted(sx, cs):
    if any(bool(c == 39) for c in cs):
        sx.reach('quoted')
        out = [39]
        for c in cs:
            out.append(c)
            if c == 39:
                out.append(39)
        return out + [39]
    if any(bool(c == 32) for c in cs):
        return [39] + cs + [39]
    sx.reach('plain')
    return cs


def harness(sx, X, case):
    k = case['k']
    F = X.xlrd.formula
    if k == 'col':
        sx.reach('col')
        c = sx.int('c', 0, 701)
        for f in (F.colname, X.xlrd.colname):
            match(sx, f(c), letters(c), 'column name')
        return
    if k in ('cell', 'abs', 'absr1c1'):
        sx.reach('abs')
        r, c = sx.int('r', 0, 1048575), sx.int('c', 0, 701)
        if k == 'cell':
            match(sx, X.xlrd.cellname(r, c), letters(c) + dec(r + 1), 'cell name')
        elif k == 'abs':
            match(sx, X.xlrd.cellnameabs(r, c), ab(r, c, 0), 'absolute cell name')
        else:
            match(sx, X.xlrd.cellnameabs(r, c, r1c1=1), ab(r, c, 1), 'absolute R1C1 name')
        return
    base = None
    if case.get('base'):
        base = (sx.u16('br'), sx.u8('bc'))
    kw = dict(browx=base[0], bcolx=base[1]) if base else {}
    st = case.get('st', 0)
    if st:
        sx.reach('r1c1')
    if k == 'rel':
        sx.reach('rel')
        rr, cr = case['rr'], case['cr']
        r, c = coord(sx, 'r', rr, 1), coord(sx, 'c', cr, 0)
        got = F.cellnamerel(r, c, rr, cr, r1c1=st, **kw)
        s = st or ((rr or cr) and not base)
        match(sx, got, cell(sx, r, c, rr, cr, base, s), 'relative cell name')
        return
    if k in ('r2', 'r3'):
        fl = 0
    else:
        fl = case.get('fl', 15)
    fs = (fl & 1, fl >> 1 & 1, fl >> 2 & 1, fl >> 3 & 1)
    if k in ('r3', 'r3rel', 'r3sheetrel'):
        cs = (7, 19, 2, 30)
    elif k == 'r2rel':
        w = sx.fork(sx.int('which', 0, 3))
        cs = [7, 19, 2, 30]
        cs[w] = coord(sx, 'v', fs[w], w < 2) + w % 2
        cs = tuple(cs)
        if base:
            base = (base[0], 7) if w < 2 else (11, base[1])
            kw = dict(browx=base[0], bcolx=base[1])
    else:
        cs = (coord(sx, 'rl', fs[0], 1), coord(sx, 'rh', fs[1], 1) + 1, coord(sx, 'cl', fs[2], 0),
              coord(sx, 'ch', fs[3], 0) + 1)

    def rng(fs, s):
        rl, rh, cl, ch = cs
        return cell(sx, rl, cl, fs[0], fs[2], base, s) + [58] + cell(sx, rh - 1, ch - 1, fs[1], fs[3], base, s)

    if k == 'r2':
        sx.reach('r2')
        sx.assume(cs[1] > cs[0])
        sx.assume(cs[3] > cs[2])
        got = F.rangename2d(*cs, r1c1=st)
        if sx.And(cs[1] == cs[0] + 1, cs[3] == cs[2] + 1):
            want = ab(cs[0], cs[2], st)
        else:
            want = rng(fs, st)
        match(sx, got, want, 'range name')
        return
    if k == 'r2rel':
        sx.reach('r2rel')
        if not base and fl:
            st = 1
        got = F.rangename2drel(cs, fs, r1c1=case['st'], **kw)
        match(sx, got, rng(fs, st), 'relative range name')
        return
    nm = []
    raw = []
    for i in range(3):
        n = case['a'] if i == 1 else 2
        cc = [sx.u16('n%d_%d' % (i, j)) if case['wide'] else sx.u8('n%d_%d' % (i, j)) for j in range(n)]
        for c in cc:
            sx.assume(sx.Or(c < 0xD800, c >= 0xE000))
            sx.assume(c != 0x3A3)
            if i != 1:
                sx.assume(c != 39)
        nm.append(cc)
        raw.append(sx.cat(n, case['wide'], B.raw8(sx, cc, case['wide'])))
    # the names' positions do not matter here: the sheets are all the same record range
    body = sx.cat(B.bof(sx, 80, B.SHEET), B.EOF)
    head = sx.cat(B.bof(sx, 80, 5), B.codepage(sx, 1200))
    ln = len(head) + sum(10 + len(r) for r in raw) + 4
    bs = [B.boundsheet(sx, ln + i * len(body), r) for i, r in enumerate(raw)]
    bk = B.open_wb(sx, X, sx.cat(head, *(bs + [B.EOF] + [body] * 3)))
    if k == 'r3sheetrel':
        ref = F.Ref3D((0, 1) + cs + (1, 1, 1, 1, 1, 1))
        want = rng((1, 1, 1, 1), 1)
        match(sx, F.rangename3drel(bk, ref), want, 'current-sheet range name')
        return
    lo = sx.fork(sx.int('lo', 0, 2))
    hi = sx.fork(sx.int('hi', 0, 2))
    if hi < lo:
        return
    sh = quoted(sx, nm[lo])
    if hi > lo:
        sx.reach('multi')
        sh = sh + [58] + quoted(sx, nm[hi])
    if k == 'r3':
        sx.reach('r3')
        got = F.rangename3d(bk, F.Ref3D((lo, hi + 1) + cs))
        want = sh + [33] + rng((0, 0, 0, 0), 0)
    else:
        sx.reach('r3rel')
        got = F.rangename3drel(bk, F.Ref3D((lo, hi + 1) + cs + (0, 0, 1, 1, 0, 1)), r1c1=1)
        want = sh + [33] + rng((1, 1, 0, 1), 1)
    match(sx, got, want, 'three-dimensional range name')
