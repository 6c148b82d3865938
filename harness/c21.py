"""C21: choice of the encoding of 8-bit text."""
import codecs
import struct
from . import biff as B

PROP = 'C21'
BOUNDS = ['all 65536 codepage numbers, and no CODEPAGE record; versions 2, 3, 4, 4W, 5, 7, 8',
          'override: none, six single-byte encodings, three multi-byte ones, one unknown name',
          'one symbolic byte (every value the encoding defines) between two letters, in cell labels, string formula '
          'results, rich strings, the user name (before and after CODEPAGE), sheet names, fonts, styles, formats, '
          'notes and defined names; fixed text for multi-byte encodings',
          'BIFF8: a symbolic 8-bit and a symbolic 16-bit character in the same places']
ASSUMES = ['Bytes that the encoding leaves undefined are outside.',
           'CODEPAGE comes before the text it governs (except the user name).',
           'A BIFF8 file with an unusable codepage (unknown to Python, or unable to decode ASCII) may be refused or read as Unicode.']
ISO = {'after': '(none-..-0|utf16-.*|name-50-1251|biff8-0-None-0)'}
REACH = ['known', 'multi', 'none', 'unknown', 'override', 'override unknown', 'biff8', 'biff8 refused', 'user raw', 'lone', 'fmt', 'unusable',
         'name']

TABLE = {1200: 'utf_16_le', 10000: 'mac_roman', 10006: 'mac_greek', 10007: 'mac_cyrillic', 10029: 'mac_latin2',
         10079: 'mac_iceland', 10081: 'mac_turkish', 32768: 'mac_roman', 32769: 'cp1252'}


def exists(name):
    try:
        codecs.lookup(name)
        return True
    except LookupError:
        return False


KNOWN = dict(TABLE)
for _n in range(300, 2000):
    if _n not in KNOWN and exists('cp%d' % _n):
        KNOWN[_n] = 'cp%d' % _n
UNUSABLE = set()         # EBCDIC tables in which the bytes of ASCII letters are undefined
for _n, _e in KNOWN.items():
    if _n != 1200:
        try:
            b'trialAz'.decode(_e)
        except UnicodeDecodeError:
            UNUSABLE.add(_n)
MULTI = {932: '\u65e5\u672c', 936: '\u4e2d', 949: '\ud55c', 950: '\u4e2d', 1361: '\ud55c'}
MULTI_OV = {'shift_jis': '\u65e5\u672c', 'utf_8': '\u20ac\u65e5', 'euc_jp': '\u65e5\u672c'}
OVERRIDES = ('cp1252', 'cp1251', 'koi8_r', 'cp437', 'mac_roman', 'iso8859-15')
LEGACY = (21, 30, 40, 45, 50, 70)


def cases(tier):
    out = []
    for bv in LEGACY:
        for n in sorted(KNOWN):
            if n == 1200:
                continue
            for aft in (0, 1):
                if aft and tier == 'quick' and n not in (1251, 10000, 437):
                    continue
                out.append({'name': 'known-%d-%d-%d' % (bv, n, aft), 'k': 'known', 'bv': bv, 'n': n, 'aft': aft})
        for aft in (0, 1):
            out.append({'name': 'none-%d-%d' % (bv, aft), 'k': 'none', 'bv': bv, 'aft': aft})
        for ov in (None, 'cp1251'):
            out.append({'name': 'lone-%d-%s' % (bv, ov), 'k': 'lone', 'bv': bv, 'ov': ov})
        out.append({'name': 'unknown-%d' % bv, 'k': 'unknown', 'bv': bv})
        for ov in OVERRIDES + tuple(MULTI_OV):
            for cp in (0, 1):
                out.append({'name': 'override-%d-%s-%d' % (bv, ov, cp), 'k': 'override', 'bv': bv, 'ov': ov, 'cp': cp})
        for cp in (0, 1):
            out.append({'name': 'ovbad-%d-%d' % (bv, cp), 'k': 'ovbad', 'bv': bv, 'cp': cp})
        out.append({'name': 'utf16-%d' % bv, 'k': 'utf16', 'bv': bv})
        if bv >= 50:
            for n in (1251, 10006, 437):
                out.append({'name': 'name-%d-%d' % (bv, n), 'k': 'name', 'bv': bv, 'n': n})
        for n in (1251, 874):
            out.append({'name': 'fmt-%d-%d' % (bv, n), 'k': 'fmt', 'bv': bv, 'n': n})
    for cp in (0, 1):
        for ov in (None, 'cp1252', 'utf_8'):
            for w in (0, 1):
                out.append({'name': 'biff8-%d-%s-%d' % (cp, ov, w), 'k': 'biff8', 'cp': cp, 'ov': ov, 'w': w, 'weight': 5})
    return out


def byte_in(sx, nm, enc):
    """A symbolic byte and the test of a character against its decoding."""
    b = sx.u8(nm)
    tab = []
    for v in range(256):
        try:
            c = bytes([v]).decode(enc)
        except UnicodeDecodeError:
            c = ''
        tab.append(ord(c) if len(c) == 1 else None)
    sx.assume(sx.And(*[b != v for v in range(256) if tab[v] is None]))
    return b, sx.table(b, tab)


def text_is(sx, what, got, exp):
    """got: text; exp: list of code points."""
    sx.check(isinstance(got, str), what + ' is text')
    if not isinstance(got, str):
        return
    its = sx.items(got)
    sx.check(len(its) == len(exp), what + ' length')
    if len(its) == len(exp):
        sx.check(sx.And(*[a == b for a, b in zip(its, exp)]), what)


def cells(sx, bv, raw):
    n = len(raw)
    out = []
    if bv == 21:
        out += [B.rec(sx, 0x43, bytes(4)) for _ in range(16)]
        out.append(B.rec(sx, 0x04, struct.pack('<HH', 0, 0), b'\0\0\0', struct.pack('<B', n), raw))
        out.append(B.rec(sx, 0x06, struct.pack('<HH', 1, 0), b'\0\0\0', b'\0\0\0\0\0\0\xff\xff', b'\0\x03', b'\x1e\x01\x00'))
        out.append(B.rec(sx, 0x07, struct.pack('<B', n), raw))
    else:
        out.append(B.rec(sx, 0x204, struct.pack('<HHH', 0, 0, 0), struct.pack('<H', n), raw))
        out.append(B.rec(sx, {30: 0x206, 40: 0x406, 45: 0x406}.get(bv, 6), struct.pack('<HHH', 1, 0, 0),
                         b'\0\0\0\0\0\0\xff\xff', b'\0\0' if bv < 50 else b'\0' * 6, b'\x03\0\x1e\x01\x00'))
        out.append(B.rec(sx, 0x207, struct.pack('<H', n), raw))
    if bv >= 50:
        out.append(B.rec(sx, 0xD6, struct.pack('<HHH', 2, 0, 0), struct.pack('<H', n), raw, b'\x01\x01\x02'))
    out.append(B.rec(sx, 0x1C, struct.pack('<HHH', 3, 0, n), raw))
    return out


def user(sx, raw):
    return B.rec(sx, 0x5C, struct.pack('<B', len(raw)), raw, b' ' * (31 - len(raw)))


def build(sx, bv, raw, cp, aft, extra=()):
    """cp: CODEPAGE record or b''."""
    u = user(sx, raw)
    head = sx.cat(cp, u) if aft else sx.cat(u, cp)
    if not aft:
        sx.reach('user raw')
    n = len(raw)
    fonts = []
    if bv in (20, 21):
        fonts = [B.rec(sx, 0x31, struct.pack('<HHB', 200, 0, n), raw)] * 4
    elif bv < 50:
        fonts = [B.rec(sx, 0x231, struct.pack('<HHHB', 200, 0, 0x7FFF, n), raw)] * 4
    else:
        fonts = [B.rec(sx, 0x31, struct.pack('<HHHHHBBBxB', 200, 0, 0x7FFF, 400, 0, 0, 0, 0, n), raw)] * 5
    if bv < 45:
        return sx.cat(B.bof(sx, 20 if bv == 21 else bv, 0x10), head, *(fonts + list(extra) + cells(sx, bv, raw) + [B.EOF]))
    if bv == 45:
        sheet = sx.cat(B.bof(sx, 40, 0x10), *(fonts + list(extra) + cells(sx, bv, raw) + [B.EOF]))
        pre = sx.cat(B.bof(sx, 45, 5), head)
        bs = B.rec(sx, 0x85, struct.pack('<B', n), raw)
        return sx.cat(pre, B.rec(sx, 0x8E, struct.pack('<i', len(pre) + 8 + len(bs))), bs,
                      B.rec(sx, 0x8F, struct.pack('<i', len(sheet)), struct.pack('<B', n), raw), sheet, B.EOF)
    xf = B.xf7(sx)
    style = B.rec(sx, 0x293, struct.pack('<H', 1), struct.pack('<B', n), raw)
    pre = sx.cat(B.bof(sx, bv, 5), head, *(fonts + [xf, B.xf7(sx, style=1, parent=0xFFF)] + list(extra) + [style]))
    body = sx.cat(B.bof(sx, bv, 0x10), *(cells(sx, bv, raw) + [B.EOF]))
    bs = sx.cat(struct.pack('<B', n), raw)
    pos = len(pre) + 4 + 6 + len(bs) + 4
    return sx.cat(pre, B.rec(sx, 0x85, struct.pack('<iBB', pos, 0, 0), bs), B.EOF, body)


def observe(sx, bk, bv, exp, style=True):
    sh = bk.sheet_by_index(0)
    text_is(sx, 'label', sh.cell_value(0, 0), exp)
    text_is(sx, 'string result', sh.cell_value(1, 0), exp)
    if bv >= 50:
        text_is(sx, 'rich string', sh.cell_value(2, 0), exp)
    text_is(sx, 'user name', bk.user_name, exp)
    if bv >= 45:
        text_is(sx, 'sheet name', sh.name, exp)
        text_is(sx, 'sheet_names', bk.sheet_names()[0], exp)
    note = sh.cell_note_map.get((3, 0))
    sx.check(note is not None, 'note present')
    if note is not None:
        text_is(sx, 'note', note.text, exp)
    if bv < 50:
        text_is(sx, 'font', bk.font_list[0].name, exp)
    else:
        text_is(sx, 'font', bk.font_list[5].name, exp)
        if style:
            ks = [k for k in bk.style_name_map]
            sx.check(len(ks) == 1, 'style')
            if len(ks) == 1:
                text_is(sx, 'style', ks[0], exp)


def harness(sx, X, case):
    k = case['k']
    bv = case.get('bv', 80)
    kw = {'formatting_info': True}
    if k in ('known', 'none'):
        sx.reach(k)
        n = case.get('n')
        enc = 'iso-8859-1' if k == 'none' else KNOWN[n]
        cp = B.codepage(sx, n) if n else b''
        if n in MULTI:
            sx.reach('multi')
            t = 'A' + MULTI[n] + 'z'
            raw, exp = t.encode(enc), [ord(c) for c in t]
        else:
            if n in UNUSABLE:
                sx.reach('unusable')
                st = build(sx, bv, b'Abz', cp, case['aft'])
                return sx.expect('codec that cannot decode ASCII is reported', UnicodeError, B.open_wb, sx, X, st, **kw)
            b, e = byte_in(sx, 'b', enc)
            raw = sx.cat(b'A', sx.pack('<B', b), b'z')
            exp = [ord(b'A'.decode(enc)), e, ord(b'z'.decode(enc))]
        bk = B.open_wb(sx, X, build(sx, bv, raw, cp, case['aft']), **kw)
        sx.check(isinstance(bk.encoding, str) and codecs.lookup(bk.encoding).name == codecs.lookup(enc).name, 'encoding')
        sx.check((bk.codepage is None) if n is None else (bk.codepage == n), 'codepage')
        return observe(sx, bk, bv, exp)
    if k == 'lone':             # nothing but the user name needs an encoding
        sx.reach('lone')
        b, e = byte_in(sx, 'b', case['ov'] or 'iso-8859-1')
        raw = sx.cat(b'A', sx.pack('<B', b), b'z')
        if case['ov']:
            kw['encoding_override'] = case['ov']
        if bv >= 50:
            st = B.workbook(sx, [[]], [user(sx, raw)] + B.std_globals(sx, bv), biff=bv, cp=None)
        elif bv == 45:
            sheet = sx.cat(B.bof(sx, 40, 0x10), B.EOF)
            pre = sx.cat(B.bof(sx, 45, 5), user(sx, raw))
            bs = B.rec(sx, 0x85, b'\x01S')
            st = sx.cat(pre, B.rec(sx, 0x8E, struct.pack('<i', len(pre) + 8 + len(bs))), bs,
                        B.rec(sx, 0x8F, struct.pack('<i', len(sheet)), b'\x01S'), sheet, B.EOF)
        else:
            st = sx.cat(B.bof(sx, 20 if bv == 21 else bv, 0x10), user(sx, raw), B.EOF)
        bk = B.open_wb(sx, X, st, **kw)
        return text_is(sx, 'user name', bk.user_name, [65, e, 122])
    if k == 'utf16':
        bk = B.open_wb(sx, X, build(sx, bv, 'A\u20acz'.encode('utf-16-le'), B.codepage(sx, 1200), 0), **kw)
        return observe(sx, bk, bv, [65, 0x20AC, 122])
    if k == 'unknown':
        sx.reach('unknown')
        n = sx.u16('n')
        sx.assume(sx.And(*[n != v for v in KNOWN]))
        s = build(sx, bv, b'Abz', B.rec(sx, 0x42, sx.pack('<H', n)), 0)
        return sx.expect('unknown codepage is reported', LookupError, B.open_wb, sx, X, s, **kw)
    if k in ('override', 'ovbad'):
        cp = B.rec(sx, 0x42, sx.pack('<H', sx.u16('n'))) if case['cp'] else b''
        if k == 'ovbad':
            sx.reach('override unknown')
            s = build(sx, bv, b'Abz', cp, 0)
            return sx.expect('unknown override is reported', LookupError, B.open_wb, sx, X, s,
                             encoding_override='no_such_encoding', **kw)
        sx.reach('override')
        ov = case['ov']
        if ov in MULTI_OV:
            t = 'A' + MULTI_OV[ov] + 'z'
            raw, exp = t.encode(ov), [ord(c) for c in t]
        else:
            b, e = byte_in(sx, 'b', ov)
            raw, exp = sx.cat(b'A', sx.pack('<B', b), b'z'), [65, e, 122]
        bk = B.open_wb(sx, X, build(sx, bv, raw, cp, 0), encoding_override=ov, **kw)
        return observe(sx, bk, bv, exp)
    if k == 'fmt':
        sx.reach('fmt')
        b, e = byte_in(sx, 'b', KNOWN[case['n']])
        raw = sx.cat(b'A', sx.pack('<B', b), b'z')
        f = sx.cat(b'"', raw, b'"0')
        if bv <= 30:
            fr = B.rec(sx, 0x1E, struct.pack('<B', len(f)), f)
        else:
            fr = B.rec(sx, 0x1E if bv < 50 else 0x41E, struct.pack('<HB', 164, len(f)), f)
        if bv == 40 or bv == 45:
            fr = B.rec(sx, 0x41E, struct.pack('<HB', 0, len(f)), f)
        bk = B.open_wb(sx, X, build(sx, bv, b'Abz', B.codepage(sx, case['n']), 0, [fr]), **kw)
        fs = [x for x in bk.format_list]
        sx.check(len(fs) == 1 or bv >= 50, 'one format')
        fo = fs[0] if bv < 50 else bk.format_map[164]
        return text_is(sx, 'format', fo.format_str, [34, 65, e, 122, 34, 48])
    if k == 'name':
        sx.reach('name')
        b, e = byte_in(sx, 'b', KNOWN[case['n']])
        raw = sx.cat(b'A', sx.pack('<B', b), b'z')
        sx.assume(e != 0x3A3)       # capital sigma, whose lower case depends on its position
        nm = B.rec(sx, 0x18, struct.pack('<HBBHHHBBBB', 0, 0, 3, 3, 0, 0, 0, 0, 0, 0), raw, b'\x1e\x01\x00')
        bk = B.open_wb(sx, X, build(sx, bv, b'Abz', B.codepage(sx, case['n']), 0, [nm]), **kw)
        sx.check(len(bk.name_obj_list) == 1, 'one name')
        return text_is(sx, 'name', bk.name_obj_list[0].name, [65, e, 122])
    if k == 'biff8':
        sx.reach('biff8')
        w = case['w']
        c = sx.u16('c') if w else sx.u8('c')
        if w:
            sx.assume(sx.Or(c < 0xD800, c >= 0xE000))
            chars = sx.cat(b'A\0', sx.pack('<H', c), b'z\0')
        else:
            chars = sx.cat(b'A', sx.pack('<B', c), b'z')
        s1 = sx.cat(b'\x03', struct.pack('<B', w), chars)
        s2 = sx.cat(b'\x03\0', struct.pack('<B', w), chars)
        exp = [65, c, 122]
        n = sx.u16('n') if case['cp'] else None
        cp = B.rec(sx, 0x42, sx.pack('<H', n)) if case['cp'] else b''
        u = B.rec(sx, 0x5C, s2, b' ' * 20)
        fonts = [B.rec(sx, 0x31, struct.pack('<HHHHHBBBx', 200, 0, 0x7FFF, 400, 0, 0, 0, 0), s1)] * 5
        pre = sx.cat(B.bof(sx, 80, 5), u, cp, *(fonts + [B.xf8(sx), B.xf8(sx, style=1, parent=0xFFF),
                     B.rec(sx, 0x293, struct.pack('<H', 1), s2)]))
        body = [B.rec(sx, 0x204, struct.pack('<HHH', 0, 0, 0), s2),
                B.rec(sx, 0x06, struct.pack('<HHH', 1, 0, 0), b'\0\0\0\0\0\0\xff\xff', b'\0' * 6, b'\x03\0\x1e\x01\x00'),
                B.rec(sx, 0x207, s2),
                B.rec(sx, 0xD6, struct.pack('<HHH', 2, 0, 0), s2, b'\0\0')]
        body = sx.cat(B.bof(sx, 80, 0x10), *(body + [B.EOF]))
        pos = len(pre) + 4 + 6 + len(s1) + 4
        st = sx.cat(pre, B.rec(sx, 0x85, struct.pack('<iBB', pos, 0, 0), s1), B.EOF, body)
        if case['ov']:
            kw['encoding_override'] = case['ov']
        tag, r = sx.attempt(B.open_wb, sx, X, st, **kw)
        if tag == 'exc':
            sx.reach('biff8 refused')
            sx.check(isinstance(r, (LookupError, UnicodeError)), 'only an unusable codepage is refused')
            if n is None or case['ov']:
                sx.check(False, 'refused without cause')
            else:
                sx.check(sx.And(*[n != v for v in KNOWN if v not in UNUSABLE]), 'refused without cause')
            return
        bk = r
        sh = bk.sheet_by_index(0)
        text_is(sx, 'label', sh.cell_value(0, 0), exp)
        text_is(sx, 'string result', sh.cell_value(1, 0), exp)
        text_is(sx, 'rich string', sh.cell_value(2, 0), exp)
        text_is(sx, 'user name', bk.user_name, exp)
        text_is(sx, 'sheet name', sh.name, exp)
        text_is(sx, 'font', bk.font_list[5].name, exp)
        ks = [x for x in bk.style_name_map]
        sx.check(len(ks) == 1, 'style')
        if len(ks) == 1:
            text_is(sx, 'style', ks[0], exp)
        return
