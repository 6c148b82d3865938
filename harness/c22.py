"""C22: the list of worksheets, and finding them by index, name and iteration."""
import struct
from . import biff as B
from . import ole

PROP = 'C22'
BOUNDS = ['directories of 0 to 3 entries (thorough: 4) with every type byte, visibilities 0 to 2, and (for worksheets) '
          'every assignment of positions to entries; positions of other entries arbitrary 32-bit numbers',
          'names of 1 or 2 symbolic characters (8-bit and 16-bit in BIFF8, 8-bit in BIFF5/7/4W), distinct among '
          'worksheets; every query of 1 or 2 characters',
          '260 worksheets (one with symbolic name, visibility and content); BIFF8, 7, 5, also inside a compound file; 4W workbooks of 1 to 3 sheets; BIFF2, 3, 4 files; loading at '
          'once and on demand']
ASSUMES = ['Two worksheets never have the same name (lookup by such a name is ambiguous).']
ISO = {'after': '(list-80-0-0|name-80-1-0-10|single-.*|4w-1)'}
REACH = ['all', 'none', 'mixed', 'found', 'refused', 'ole', '4w', 'single', 'perm', 'many']


def cases(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    for bv in (80, 70, 50):
        for n in range(0, top + 1):
            for od in (0, 1):
                out.append({'name': 'list-%d-%d-%d' % (bv, n, od), 'k': 'list', 'bv': bv, 'n': n, 'od': od,
                            'weight': 4 ** n})
        for n in (1, 2, 3):
            for od in (0, 1):
                if n == 3 and od and tier == 'quick':
                    continue
                for m in (1, 2):
                    for w in ((0, 1) if bv == 80 else (0,)):
                        out.append({'name': 'name-%d-%d-%d-%d%d' % (bv, n, od, m, w), 'k': 'name', 'bv': bv, 'n': n,
                                    'od': od, 'm': m, 'w': w, 'weight': 4 ** n})
        for od in (0, 1):
            out.append({'name': 'ole-%d-%d' % (bv, od), 'k': 'list', 'bv': bv, 'n': 2, 'od': od, 'ole': 1, 'weight': 20})
    for n in (1, 2, 3):
        out.append({'name': '4w-%d' % n, 'k': '4w', 'n': n})
    for bv in (80, 70):
        for od in (0, 1):
            out.append({'name': 'many-%d-%d' % (bv, od), 'k': 'many', 'bv': bv, 'od': od, 'weight': 30})
    for bv in (21, 30, 40):
        out.append({'name': 'single-%d' % bv, 'k': 'single', 'bv': bv})
    return out


def perms(n):
    if n == 0:
        return [()]
    return [p[:i] + (n - 1,) + p[i:] for p in perms(n - 1) for i in range(n)]


def body(sx, bv, i, typ):
    st = {0: 0x10, 1: 0x40, 2: 0x20, 6: 6}.get(typ, 0x10)
    cell = B.rec(sx, 0x203, struct.pack('<HHHd', i, 1, 0, 100.0 + i))
    return sx.cat(B.bof(sx, bv, st), cell, B.EOF)


def check_sheet(sx, sh, i, name, vis, number, bv):
    sx.check(sh.number == number, 'sheet number')
    sx.check(sh.name == name, 'name')
    sx.check(sh.visibility == vis, 'visibility')
    sx.check(sh.nrows == i + 1, 'rows')
    sx.check(sh.cell_value(i, 1) == 100.0 + i, 'content')


def harness(sx, X, case):
    k = case['k']
    if k == '4w':
        return w4(sx, X, case)
    if k == 'many':
        return many(sx, X, case)
    if k == 'single':
        sx.reach('single')
        bv = case['bv']
        op = 3 if bv == 21 else 0x203
        ad = struct.pack('<HH', 1, 2) + (b'\0\0\0' if bv == 21 else b'\0\0')
        st = B.single(sx, 20 if bv == 21 else bv, [B.rec(sx, op, ad, struct.pack('<d', 7.0))])
        bk = B.open_wb(sx, X, st, on_demand=bool(sx.fork(sx.int('od', 0, 1))))
        sx.check(bk.nsheets == 1, 'one sheet')
        sh = bk.sheet_by_index(0)
        sx.check(bk.sheet_names() == [sh.name], 'name')
        sx.check(bk.sheet_by_name(sh.name) is sh and bk[sh.name] is sh and bk[0] is sh, 'by name')
        sx.check([s for s in bk] == [sh], 'iteration')
        sx.check(bk.sheets() == [sh], 'sheets')
        sx.check(sh.visibility == 0, 'visible')
        sx.check(sh.cell_value(1, 2) == 7.0, 'content')
        return
    bv, n = case['bv'], case['n']
    types, vis, names, nbytes, ws = [], [], [], [], []
    for i in range(n):
        t = sx.u8('t%d' % i)
        isws = bool(t == 0)
        types.append(0 if isws else sx.ite(t == 0, 1, t))
        vis.append(sx.int('v%d' % i, 0, 2))
        if isws:
            ws.append(i)
        if k == 'name':
            m = case['m'] if i % 2 == 0 else 3 - case['m']
            cs = [sx.u16('c%d_%d' % (i, j)) if case['w'] else sx.u8('c%d_%d' % (i, j)) for j in range(m)]
            if case['w']:
                for c in cs:
                    sx.assume(sx.Or(c < 0xD800, c >= 0xE000))
            if bv == 80:
                nb = sx.cat(bytes([m, case['w']]), *[sx.pack('<H' if case['w'] else '<B', c) for c in cs])
            else:
                nb = sx.cat(bytes([m]), *[sx.pack('<B', c) for c in cs])
            names.append(sx.mkstr(cs))
        else:
            nm = 'Sh%d' % (i + 1)
            nb = B.ustr(sx, nm, 1) if bv == 80 else bytes([len(nm)]) + nm.encode()
            names.append(nm)
        nbytes.append(nb)
    for a in range(len(ws)):
        for b in range(a):
            sx.assume(names[ws[a]] != names[ws[b]])
    sx.reach('all' if len(ws) == n else 'mixed' if ws else 'none')
    bodies = [body(sx, bv, i, 0 if i in ws else 2) for i in range(n)]
    if k == 'list':
        pl = perms(len(ws))
        p = pl[sx.fork(sx.int('perm', 0, len(pl) - 1))]
    else:
        p = tuple(range(len(ws) - 1, -1, -1))
    order = [ws[j] for j in p]
    if order != ws:
        sx.reach('perm')
    pre = sx.cat(B.bof(sx, bv, 5), *B.std_globals(sx, bv))
    at = len(pre) + sum(10 + len(b) for b in nbytes) + 4
    pos = {}
    tail = []
    for i in order + [i for i in range(n) if i not in ws]:
        gap = B.rec(sx, 0x3FFF, bytes(i))
        pos[i] = at + len(gap)
        tail += [gap, bodies[i]]
        at += len(gap) + len(bodies[i])
    bs = []
    for i in range(n):
        po = struct.pack('<i', pos[i]) if i in ws else sx.bytes('junk%d' % i, 4)
        bs.append(B.rec(sx, 0x85, po, sx.pack('<BB', vis[i], types[i]), nbytes[i]))
    st = sx.cat(pre, *(bs + [B.EOF] + tail))
    if case.get('ole'):
        sx.reach('ole')
        st = ole.wrap(sx, st, 'Workbook' if bv == 80 else 'Book')
    bk = B.open_wb(sx, X, st, on_demand=bool(case['od']))
    sx.check(bk.nsheets == len(ws), 'number of sheets')
    got = bk.sheet_names()
    sx.check(len(got) == len(ws), 'number of names')
    for j, i in enumerate(ws):
        sx.check(got[j] == names[i], 'names in order')
    if k == 'name':
        q = sx.mkstr([sx.u16('q%d' % j) if case['w'] else sx.u8('q%d' % j) for j in range(1 + sx.fork(sx.int('ql', 0, 1)))])
        if case['w']:
            for c in sx.items(q):
                sx.assume(sx.Or(c < 0xD800, c >= 0xE000))
        how = sx.fork(sx.int('how', 0, 1))
        tag, r = sx.attempt(bk.__getitem__ if how else bk.sheet_by_name, q)
        if tag == 'exc':
            sx.reach('refused')
            sx.check(isinstance(r, X.xlrd.XLRDError), 'unknown name refused with XLRDError')
            sx.check(sx.And(*[sx.Not(names[i] == q) for i in ws]) if ws else True, 'refused only if unknown')
            return
        sx.reach('found')
        sx.check(len(ws) > 0 and 0 <= r.number < len(ws), 'is one of the sheets')
        i = ws[r.number]
        sx.check(names[i] == q, 'found by its own name')
        return check_sheet(sx, r, i, names[i], vis[i], r.number, bv)
    how = sx.fork(sx.int('how', 0, 4))
    if how < 3:
        # one after the other, starting anywhere
        s = sx.fork(sx.int('start', 0, max(0, len(ws) - 1)))
        for j in list(range(s, len(ws))) + list(range(s)):
            sh = [bk.sheet_by_index, bk.__getitem__, lambda x: bk.sheet_by_name(names[ws[x]])][how](j)
            check_sheet(sx, sh, ws[j], names[ws[j]], vis[ws[j]], j, bv)
    else:
        shs = [s for s in bk] if how == 3 else bk.sheets()
        sx.check(len(shs) == len(ws), 'all sheets')
        for j, sh in enumerate(shs):
            check_sheet(sx, sh, ws[j], names[ws[j]], vis[ws[j]], j, bv)
            sx.check(sh is bk.sheet_by_index(j), 'same object')
    for i in range(n):
        if i not in ws:
            sx.expect('other entries are not found', X.xlrd.XLRDError, bk.sheet_by_name, names[i])
    sx.expect('unknown name', X.xlrd.XLRDError, bk.sheet_by_name, 'Nothing')
    sx.expect('unknown name by indexing', X.xlrd.XLRDError, bk.__getitem__, 'Nothing')
    sx.expect('no such index', IndexError, bk.sheet_by_index, len(ws))


def many(sx, X, case):
    """260 worksheets, one of them symbolic in name and content."""
    sx.reach('many')
    sx.set_steps(6000000)
    bv, n = case['bv'], 260
    at = (0, 127, 128, 254, 255, 256, 259)[sx.fork(sx.int('at', 0, 6))]
    v, ch = sx.int('v', 0, 2), sx.int('ch', 65, 90)
    d = sx.double('d')
    head = sx.cat(B.bof(sx, bv, 5), B.codepage(sx, 1200 if bv == 80 else 1252))
    bodies, ents = [], []
    for i in range(n):
        val = sx.pack('<Q', sx.float_bits(d)) if i == at else struct.pack('<d', 100.0 + i)
        bodies.append(sx.cat(B.bof(sx, bv, 0x10), B.rec(sx, 0x203, struct.pack('<HHH', 0, 0, 0), val), B.EOF))
        w = b'\0' if bv == 80 else b''
        ents.append((v if i == at else 0, sx.cat(b'\4' + w + b'%03d' % i, ch if i == at else 97)))
    pos = len(head) + sum(4 + 6 + len(e[1]) for e in ents) + 4
    out = [head]
    for b, (vis, nm) in zip(bodies, ents):
        out.append(B.rec(sx, 0x85, struct.pack('<i', pos), sx.cat(vis, 0), nm))
        pos += len(b)
    bk = B.open_wb(sx, X, sx.cat(*(out + [B.EOF] + bodies)), on_demand=bool(case['od']))
    sx.check_same(bk.nsheets, n, 'number of sheets')
    nms = bk.sheet_names()
    sx.check_same(len(nms), n, 'number of names')
    for i in range(n):
        sx.check_same(nms[i], '%03d' % i + (sx.mkstr([ch]) if i == at else 'a'), 'name')
    a = bk.sheet_by_index(at)
    sx.check(bk.sheet_by_name('%03d' % at + sx.mkstr([ch])) is a and bk[at] is a, 'found')
    sx.check_same((a.visibility, a.cell_value(0, 0)), (v, d), 'the sheet')
    shs = bk.sheets()
    it = [s for s in bk]
    sx.check_same((len(shs), len(it)), (n, n), 'sheets and iteration')
    for i in range(n):
        sx.check(shs[i] is it[i] and shs[i] is not None, 'the same sheets')
        sx.check_same(shs[i].number, i, 'sheet number')
        if i != at:
            sx.check_same(shs[i].cell_value(0, 0), 100.0 + i, 'content')


def w4(sx, X, case):
    sx.reach('4w')
    n = case['n']
    names, nb = [], []
    for i in range(n):
        cs = [sx.u8('c%d_%d' % (i, j)) for j in range(1 + i % 2)]
        names.append(sx.mkstr(cs))
        nb.append(sx.cat(bytes([len(cs)]), *[sx.pack('<B', c) for c in cs]))
        for b in range(i):
            sx.assume(names[i] != names[b])
    pre = B.bof(sx, 45, 5)
    bs = [B.rec(sx, 0x85, b) for b in nb]
    pos = len(pre) + 8 + sum(len(b) for b in bs)
    tail = []
    for i in range(n):
        cell = B.rec(sx, 0x203, struct.pack('<HHHd', i, 1, 0, 100.0 + i))
        bd = sx.cat(B.bof(sx, 40, 0x10), cell, B.EOF, b'\xff' * (3 * i))
        tail += [B.rec(sx, 0x8F, struct.pack('<i', len(bd)), nb[i]), bd]
    st = sx.cat(pre, B.rec(sx, 0x8E, struct.pack('<i', pos)), *(bs + tail + [B.EOF]))
    bk = B.open_wb(sx, X, st)
    sx.check(bk.nsheets == n, 'number of sheets')
    for i in range(n):
        sx.check(bk.sheet_names()[i] == names[i], 'names')
        sh = bk.sheet_by_index(i)
        check_sheet(sx, sh, i, names[i], 0, i, 45)
        sx.check(bk.sheet_by_name(names[i]) is sh, 'by name')
    sx.check([s.number for s in bk] == list(range(n)), 'iteration')
    sx.expect('unknown name', X.xlrd.XLRDError, bk.sheet_by_name, 'Nothing')
