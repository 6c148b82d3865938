"""C23: defined names: record fields, scope, and the two name maps."""
import struct
from . import biff as B

PROP = 'C23'
BOUNDS = ['one NAME record with all 16 flag bits, shortcut key, sheet number (16 bits) arbitrary; a name of 1 to 3 (and 64, 254, 255) characters: '
          'BIFF8 the last below U+0250, the others ASCII, in 8-bit or 16-bit form; BIFF7/5 ASCII, or any cp1252 character in a name '
          'of one character; any built-in code; formula of 0 or 3 bytes; menu, description, help and status texts of 0 to 2 bytes; '
          'versions 8, 7, 5',
          '600 names in a workbook of 304 sheets, one of them with any of ten scopes and either case',
          'workbooks of one to four sheets, of which any may be a macro, chart or VBA sheet',
          'versions 7 and 5: zero to three EXTERNSHEET records, each the name of a worksheet, of another sheet, or another type',
          'three (thorough: four) names, each one arbitrary letter (any of a, b, A, B, or an accented letter) with an '
          'arbitrary scope, for the name maps and the order of names']
ASSUMES = ['Name characters below U+0250 except U+0130 (lower case of other length).',
           'NAME fields other than those named are 0.']
ISO = {'after': '(one-(80|70)-w-1.*|builtin-80-wmw)', 'ole': '(one-(80|70)-w-1.*|builtin-80-wmw)'}
REACH = ['many', 'global', 'local', 'macro sheet', 'invalid', 'builtin', 'unknown builtin', 'duplicate', 'macro', 'wide', 'binary']
OPTS = {'max_steps': 4000000}

BUILTIN = ('Consolidate_Area', 'Auto_Open', 'Auto_Close', 'Extract', 'Database', 'Criteria', 'Print_Area', 'Print_Titles',
           'Recorder', 'Data_Form', 'Auto_Activate', 'Auto_Deactivate', 'Sheet_Title', '_FilterDatabase')
LAYOUTS = ('w', 'wmw', 'mww', 'wcvw')
TYPE = {'w': 0, 'm': 1, 'c': 2, 'v': 6}


def cases(tier):
    out = []
    for bv in (80, 70, 50):
        for lay in LAYOUTS:
            for n in (1, 2, 3):
                for wide in (0, 1) if bv >= 80 else (0,):
                    if tier == 'quick' and (n == 3 and lay != 'wmw' or bv == 50 and n > 1):
                        continue
                    out.append({'name': 'one-%d-%s-%d%d' % (bv, lay, n, wide), 'k': 'one', 'bv': bv, 'lay': lay, 'n': n,
                                'wide': wide, 'weight': 2})
            if tier == 'quick' and lay != 'wmw':
                continue
            out.append({'name': 'builtin-%d-%s' % (bv, lay), 'k': 'builtin', 'bv': bv, 'lay': lay, 'weight': 2})
    for bv in (80, 70):
        for n in (64, 254, 255):
            for wide in (0, 1) if bv >= 80 else (0,):
                out.append({'name': 'one-%d-wmw-%d%d' % (bv, n, wide), 'k': 'one', 'bv': bv, 'lay': 'wmw', 'n': n,
                            'wide': wide, 'weight': 9})
        out.append({'name': 'many-%d' % bv, 'k': 'many', 'bv': bv, 'lay': 'wwwm' + 'w' * 300, 'weight': 20})
    for bv in (80, 70):
        for lay in ('wmw', 'ww'):
            for first in range(5):
                for a0 in range(len(ALPHA)):
                    out.append({'name': 'maps-%d-%s-%d%d' % (bv, lay, first, a0), 'k': 'maps', 'bv': bv, 'lay': lay, 'first': first,
                                'a0': a0, 'n': 4 if tier == 'thorough' else 3, 'weight': 4})
    return out


ALPHA = (97, 65, 98, 0xC9)


def name_rec(sx, bv, flags, key, name, nlen, fmla, sheet, texts=(b'', b'', b'', b'')):
    """sheet: (EXTERNSHEET index, sheet index)"""
    head = sx.pack('<HBBHHHBBBB', flags, key, nlen, len(fmla), sheet[0], sheet[1], *[len(t) for t in texts])
    return B.rec(sx, 0x18, head, name, fmla, *texts)


def book(sx, bv, lay, recs):
    """Sheets of the given kinds; recs come where the version puts NAME records."""
    names = ['S%d' % i for i in range(len(lay))]
    bodies = [sx.cat(B.bof(sx, bv, 0x10 if t == 'w' else 0x20 if t == 'c' else 0x40), B.EOF) for t in lay]
    recs = sx.cat(*recs)
    cp = B.codepage(sx, 1200 if bv >= 80 else 1252)
    head = sx.cat(B.bof(sx, bv, 5), cp)
    pos = len(head) + len(recs) + 4 + sum(len(B.boundsheet(sx, 0, n, biff=bv)) for n in names)
    bs = []
    for n, t, b in zip(names, lay, bodies):
        bs.append(B.boundsheet(sx, pos, n, typ=TYPE[t], biff=bv))
        pos += len(b)
    parts = [head] + (bs + [recs] if bv >= 80 else [recs] + bs) + [B.EOF] + bodies
    return sx.cat(*parts)


def externs(sx, lay, kinds):
    """BIFF5/7 EXTERNSHEET records: kind = index of a sheet, 'x' an unknown name, 'o' another type."""
    out = []
    for k in kinds:
        if k == 'o':
            out.append(B.rec(sx, 0x17, b'\1\2'))
        else:
            nm = 'Zz' if k == 'x' else 'S%d' % k
            out.append(B.rec(sx, 0x17, bytes([len(nm), 3]), nm.encode()))
    return out


def scope_of(sx, bv, lay, idx, kinds=()):
    """(expected scope, kind reached)"""
    if idx == 0:
        sx.reach('global')
        return -1
    for i in range(1, (len(lay) if bv >= 80 else len(kinds)) + 1):
        if idx == i:
            k = i - 1 if bv >= 80 else kinds[i - 1]
            if k == 'o':
                return -3
            if k == 'x' or lay[k] != 'w':
                sx.reach('macro sheet')
                return -2
            sx.reach('local')
            return lay[:k].count('w')
    sx.reach('invalid')
    return -3


def sheetref(sx, bv, name, other):
    i = sx.u16(name)
    return (i, (other, i) if bv >= 80 else (i, other))


def harness(sx, X, case):
    bv, lay, k = case['bv'], case['lay'], case['k']
    if k == 'many':
        return many(sx, X, case)
    kinds = ()
    recs = []
    n = case.get('n')
    if bv < 80:
        choices = ((0,),) if k == 'builtin' else ((), (0,), ('o', len(lay) - 1), (len(lay) - 1, 0, 'x'), (0, len(lay) // 2, 'o'))
        kinds = choices[sx.fork(sx.int('ext', 0, len(choices) - 1 if k != 'maps' else 0))]
        if k == 'maps':
            kinds = (0, 1, 'o')
        recs = externs(sx, lay, kinds)
    if k == 'maps':
        return maps(sx, X, case, recs, kinds)
    flags, key = sx.u16('flags'), sx.u8('key')
    idx, sheet = sheetref(sx, bv, 'sheet', 7)
    fmla = (b'', b'\x1e\5\0')[sx.fork(sx.int('f', 0, 1)) if k == 'one' and n < 3 else 1]
    if k == 'builtin':
        sx.assume(idx < 2)
    texts = (b'', b'', b'', b'') if not fmla else (b'ab', b'', b'c', b'd')
    if k == 'builtin':
        sx.assume((flags & 0x20) != 0)
        c = sx.u8('c')
        raw = sx.cat(b'\0', c) if bv >= 80 else sx.cat(c)
        if bv < 80:
            sx.assume(c < 0x80)
        n = 1
        want = None
    else:
        sx.assume((flags & 0x20) == 0)
        n = case['n']
        if bv >= 80:
            if case['wide']:
                sx.reach('wide')
            m = n if n < 8 else 4
            units, want = B.chars8(sx, 'c', ('b' if case['wide'] else 'c') * m)
            for i, u in enumerate(units):
                # one character of the name is arbitrary, the others are ASCII
                sx.assume(sx.And(u < (0x250 if i == m - 1 else 0x80), u != 0x130, u > 0))
            if n > m:
                mid = [97 + i % 26 for i in range(n - m)]
                units = list(units[:2]) + mid + list(units[2:])
                want = want[:2] + ''.join(map(chr, mid)) + want[2:]
            raw = sx.cat(bytes([case['wide']]), B.raw8(sx, units, case['wide']))
        else:
            its = [sx.int('c%d' % i, 1, 255) if i < 3 or i > n - 3 else 97 + i % 26 for i in range(n)]
            for u in its:
                sx.assume(sx.Or(u < 0x80, u >= 0xA0) if n == 1 and lay == 'wmw' else u < 0x80)
            raw = sx.mkbytes(its)
            want = sx.mkstr(its)
    recs.append(name_rec(sx, bv, flags, key, raw, n, fmla, sheet, texts))
    bk = B.open_wb(sx, X, book(sx, bv, lay, recs))
    sx.check_same(len(bk.name_obj_list), 1, 'one name object')
    o = bk.name_obj_list[0]
    if want is None:
        want = '??Unknown??'
        for i, nm in enumerate(BUILTIN):
            if c == i:
                want = nm
        sx.reach('unknown builtin' if want == '??Unknown??' else 'builtin')
    sx.check_same(o.name, want, 'name')
    for attr, mask, sh in (('hidden', 1, 0), ('func', 2, 1), ('vbasic', 4, 2), ('macro', 8, 3), ('complex', 16, 4),
                           ('builtin', 32, 5), ('funcgroup', 0xFC0, 6), ('binary', 0x1000, 12)):
        sx.check_same(getattr(o, attr), (flags & mask) >> sh, attr)
    if flags & 8:
        sx.reach('macro')
    elif flags & 0x1000:
        sx.reach('binary')
    elif fmla:
        sx.check_same((o.result.kind, o.result.value), (2, 5.0), 'value')
    sx.check_same(o.raw_formula[:len(fmla)], fmla, 'formula')
    sx.check_same(o.name_index, 0, 'name_index')
    sc = scope_of(sx, bv, lay, idx, kinds)
    sx.check_same(o.scope, sc, 'scope')
    sx.check_same(list(bk.name_and_scope_map), [(want.lower(), sc)], 'name and scope map')
    sx.check(bk.name_and_scope_map[(want.lower(), sc)] is o, 'name and scope map')
    sx.check_same(list(bk.name_map), [want.lower()], 'name map')
    sx.check(len(bk.name_map[want.lower()]) == 1 and bk.name_map[want.lower()][0] is o, 'name map')


def maps(sx, X, case, recs, kinds):
    bv, lay, n = case['bv'], case['lay'], case['n']
    chars, scopes = [], []
    for i in range(n):
        c = case['a0'] if i == 0 else sx.fork(sx.int('c%d' % i, 0, len(ALPHA) - 1))
        if i:
            j = sx.int('s%d' % i, 0, 4)
        else:
            j = case['first']
        ch = ALPHA[c]
        chars.append(chr(ch))
        raw = bytes([0, ch]) if bv >= 80 else bytes([ch])
        recs.append(name_rec(sx, bv, 0, 0, raw, 1, b'\x1e' + struct.pack('<H', i), (0, j) if bv >= 80 else (j, 0)))
        scopes.append(j)
    bk = B.open_wb(sx, X, book(sx, bv, lay, recs))
    objs = bk.name_obj_list
    sx.check_same(len(objs), n, 'number of names')
    want = {}
    for i in range(n):
        sx.check_same(objs[i].name, chars[i], 'name')
        sx.check_same(objs[i].name_index, i, 'name_index')
        sx.check_same(objs[i].result.value, float(i), 'value')
        sc = scope_of(sx, bv, lay, scopes[i], kinds)
        sx.check_same(objs[i].scope, sc, 'scope')
        key = (chars[i].lower(), sc)
        if key in want:
            sx.reach('duplicate')
        want.setdefault(key, []).append(i)
    sx.check_same(sorted(bk.name_and_scope_map), sorted(want), 'keys of the name and scope map')
    for key, l in want.items():
        sx.check(bk.name_and_scope_map[key] is objs[l[-1]], 'last name of a name and scope')
    lows = sorted({c.lower() for c in chars})
    sx.check_same(sorted(bk.name_map), lows, 'keys of the name map')
    for lo in lows:
        exp = [i for key in sorted(want) if key[0] == lo for i in want[key]]
        got = bk.name_map[lo]
        sx.check_same(len(got), len(exp), 'name map list')
        for a, b in zip(got, exp):
            sx.check(a is objs[b], 'name map order')


def many(sx, X, case):
    """600 names in a workbook of 304 sheets."""
    sx.reach('many')
    bv, lay = case['bv'], case['lay']
    kinds = list(range(len(lay)))
    recs = [] if bv >= 80 else externs(sx, lay, kinds)
    nn = 600
    odd = (0, 255, 256, 599)[sx.fork(sx.int('odd', 0, 3))]
    scopes = [(i * 37) % 306 for i in range(nn)]
    scopes[odd] = (0, 1, 4, 5, 255, 256, 257, 304, 305, 65535)[sx.fork(sx.int('s', 0, 9))]
    letter = sx.int('ch', 0, 1) * 32 + 65
    txt = [('n%d' if i % 3 else 'N%d') % (i % 550) for i in range(nn)]
    for i, j in enumerate(scopes):
        raw = txt[i].encode() if i != odd else sx.cat(letter, txt[i][1:].encode())
        raw = sx.cat(b'\0', raw) if bv >= 80 else raw
        recs.append(name_rec(sx, bv, 0, 0, raw, len(txt[i]), b'\x1e' + struct.pack('<H', i),
                             (0, j) if bv >= 80 else (j, 0)))
    bk = B.open_wb(sx, X, book(sx, bv, lay, recs))
    objs = bk.name_obj_list
    sx.check_same(len(objs), nn, 'number of names')
    want, order = {}, {}
    for i in range(nn):
        nm = txt[i] if i != odd else sx.mkstr([letter] + [ord(c) for c in txt[i][1:]])
        low = txt[i].lower() if i != odd else ('a' + txt[i][1:])
        sx.check_same(objs[i].name, nm, 'name')
        sx.check_same((objs[i].name_index, objs[i].result.value), (i, float(i)), 'index and value')
        sc = scope_of(sx, bv, lay, scopes[i], kinds)
        sx.check_same(objs[i].scope, sc, 'scope')
        want[low, sc] = i
        order.setdefault(low, []).append((sc, i))
    sx.check_same(sorted(bk.name_and_scope_map), sorted(want), 'keys of the name and scope map')
    for key, i in want.items():
        sx.check(bk.name_and_scope_map[key] is objs[i], 'last name of a name and scope')
    sx.check_same(sorted(bk.name_map), sorted(order), 'keys of the name map')
    for low, l in order.items():
        sx.check([o.name_index for o in bk.name_map[low]] == [i for sc, i in sorted(l)], 'name map order')
