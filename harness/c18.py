"""C18: hyperlinks and quick tips."""
import struct
from . import biff as B

PROP = 'C18'
BOUNDS = ['one link of every kind (URL, local file with short or extended path and 0 to 2, 3, 10 or 257 levels up, UNC, place in the '
          'workbook, none of these) with every combination of description, target frame, text mark and quick tip; texts '
          'of 0 to 3 arbitrary 16-bit characters (one surrogate pair included), short paths of up to 3 arbitrary bytes and up to 300 fixed ones, URLs with up to 300 fixed characters; '
          'arbitrary unrelated option bits; URLs with or without the 24 trailing bytes (fixed GUID, any flags)',
          'cell maps: 1, 2, 3 links with arbitrary rectangles within 4 x 4, 3 x 3 (thorough 4 x 4), 2 x 2 (wide links: rows to 65535, columns to 255 with '
          'up to 2 x 2 cells), queried at every cell']
ASSUMES = ['Texts contain no NUL characters before their terminator.',
           'The two description bits (0x04, 0x10) are both set or both clear, as [MS-OSHARED] requires for a link with '
           'a display name.']
ISO = {'after': '(url-0|none-[01]|map-1-3|tips)', 'beside': '(url-0|none-[01]|map-1-3|tips)', 'ole': '(url-0|none-[01]|map-1-3|tips)'}
REACH = ['url', 'file', 'unc', 'wb', 'none', 'map', 'far', 'tip', 'pair']
OPTS = {'max_steps': 600000}
G0 = b"\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B"
GURL = b"\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B"
# the fixed serial GUID and version that may follow a URL
URLX = bytes.fromhex('795881F43B1D7F48AF2C825DC4852763') + bytes(4)
GFILE = b"\x03\x03\x00\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46"


def cases(tier):
    out = []
    th = tier != 'quick'
    for kind in ('url', 'url24', 'file0', 'file1', 'file2', 'file9', 'xfile0', 'xfile2', 'unc', 'wb', 'none'):
        for m in range(8):
            if kind == 'wb' and not m & 4:
                continue
            out.append({'name': '%s-%d' % (kind, m), 'k': 'one', 'kind': kind, 'm': m, 'tip': m & 1, 'weight': 3})
            if th:
                out.append({'name': '%s-%d-t' % (kind, m), 'k': 'one', 'kind': kind, 'm': m, 'tip': 1 - (m & 1),
                            'weight': 3, 'long': 1})
    for n, top in (1, 3), (2, 3 if th else 2), (3, 1):
        out.append({'name': 'map-%d-%d' % (n, top), 'k': 'map', 'n': n, 'top': top, 'weight': 100 ** n})
    for w in ('r', 'c'):
        out.append({'name': 'far-' + w, 'k': 'far', 'w': w, 'weight': 10})
    out.append({'name': 'tips', 'k': 'tips', 'weight': 10})
    return out


def text(sx, nm, shape):
    units, out = [], []
    for i, s in enumerate(shape):
        if s == 'S':
            h, l = sx.int('%s%dh' % (nm, i), 0, 1023), sx.int('%s%dl' % (nm, i), 0, 1023)
            units += [h + 0xD800, l + 0xDC00]
            out.append(0x10000 + h * 1024 + l)
            sx.reach('pair')
        else:
            u = sx.u16('%s%d' % (nm, i))
            sx.assume(sx.Or(u < 0xD800, u >= 0xE000))
            sx.assume(u != 0)
            units.append(u)
            out.append(u)
    return sx.cat(*[sx.pack('<H', u) for u in units]), len(units), sx.mkstr(out)


def nult(sx, nm, shape):
    raw, n, want = text(sx, nm, shape)
    return sx.cat(struct.pack('<I', n + 1), raw, b'\0\0'), want


def link(sx, r1, r2, c1, c2, opts, body):
    return B.rec(sx, 0x1B8, sx.pack('<HHHH', r1, r2, c1, c2), G0, b'\2\0\0\0', sx.pack('<I', opts), body)


def quicktip(sx, rect, raw):
    return B.rec(sx, 0x800, sx.pack('<HHHHH', 0x800, *rect), raw, b'\0\0')


def harness(sx, X, case):
    k = case['k']
    if k == 'one':
        return one(sx, X, case)
    if k == 'tips':
        # several links, tips on some of them
        recs, want = [], []
        for i in range(3):
            rect = [sx.fork(sx.int('%s%d' % (v, i), 0, 1)) for v in 'rc']
            rect = (rect[0], rect[0], rect[1], rect[1])
            body, tm = nult(sx, 't%d_' % i, 'b')
            recs.append(link(sx, *(rect + (8, body))))
            tip = None
            if sx.fork(sx.int('has%d' % i, 0, 1)):
                raw, _, tip = text(sx, 'q%d_' % i, 'bb')
                recs.append(quicktip(sx, rect, raw))
                sx.reach('tip')
            want.append((tm, tip))
        sh = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0)
        sx.check_same([(h.textmark, h.quicktip) for h in sh.hyperlink_list], want, 'quick tips attach to their link')
        return
    recs, rects = [], []
    if k == 'far':
        sx.reach('far')
        rs = (0, 255, 256, 32767, 32768, 65534) if case['w'] == 'r' else (2,)
        cs = (0, 127, 128, 254) if case['w'] == 'c' else (3,)
        r, c = rs[sx.fork(sx.int('r', 0, len(rs) - 1))], cs[sx.fork(sx.int('c', 0, len(cs) - 1))]
        rects.append((r, r + sx.fork(sx.int('dr', 0, 1)), c, c + sx.fork(sx.int('dc', 0, 1))))
    else:
        sx.reach('map')
        top = case['top']
        for i in range(case['n']):
            v = [sx.fork(sx.int('%s%d' % (x, i), 0, top)) for x in ('r', 's', 'c', 'd')]
            if v[0] > v[1] or v[2] > v[3]:
                return
            rects.append(tuple(v))
    for i, r in enumerate(rects):
        body, tm = nult(sx, 't%d_' % i, 'b')
        recs.append(link(sx, *(r + (8, body))))
    sh = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0)
    sx.check_same(len(sh.hyperlink_list), len(rects), 'number of links')
    for h, r in zip(sh.hyperlink_list, rects):
        sx.check_same((h.frowx, h.lrowx, h.fcolx, h.lcolx), r, 'link rectangle')
    want = {}
    for i, (r1, r2, c1, c2) in enumerate(rects):
        for r in range(r1, r2 + 1):
            for c in range(c1, c2 + 1):
                want[r, c] = i
    sx.check_same(sorted(sh.hyperlink_map.keys()), sorted(want), 'cells with a link')
    for p in sorted(want):
        sx.check(sh.hyperlink_map[p] is sh.hyperlink_list[want[p]], 'link of a cell')


def one(sx, X, case):
    kind, m = case['kind'], case['m']
    shapes = ('b', 'bb', '', 'S') if not case.get('long') else ('bbb', '', 'Sb', 'bb')
    opts = sx.u32('opts') & 0xFFFFFE00
    sx.assume(opts < 0x80000000)
    body, want = [], {'desc': None, 'target': None, 'textmark': None, 'url_or_path': None}
    if m & 1:
        raw, want['desc'] = nult(sx, 'desc', shapes[1])
        opts = opts | 0x14
        body.append(raw)
    if m & 2:
        raw, want['target'] = nult(sx, 'targ', shapes[0])
        opts = opts | 0x80
        body.append(raw)
    ush = shapes[m % 4]
    pad = 'x' * 300 if m == 6 else ''
    absb = sx.fork(sx.int('absbit', 0, 1)) * 2
    if kind[:3] == 'url':
        sx.reach('url')
        opts = opts | 1 | absb
        raw, n, want['url_or_path'] = text(sx, 'url', ush)
        if pad:
            raw, n = sx.cat(pad.encode('utf-16le'), raw), n + len(pad)
            want['url_or_path'] = pad + want['url_or_path']
        x = 24 if kind == 'url24' else 0
        body += [GURL, struct.pack('<I', 2 * n + 2 + x), raw, b'\0\0', URLX + sx.pack('<I', sx.int('uriflags', 0, 0x7FFF)) if x else b'']
        typ = 'url'
    elif 'file' in kind:
        sx.reach('file')
        opts = opts | 1 | absb
        up = int(kind[-1])
        n = m % 4
        sp = sx.bytes('sp', n)
        if up == 9:
            up = (3, 10, 257)[sx.fork(sx.int('up', 0, 2))]
            x = (0, 5, 255, 300)[n]
            n, sp = n + x, sx.cat(sp, b'dir\\p' * (x // 5))
            n = len(sp)
        body += [GFILE, struct.pack('<HI', up, n + 1), sp, b'\0', b'\xff\xff\xad\xde' + bytes(20)]
        if kind[0] == 'x':
            raw, nu, want['url_or_path'] = text(sx, 'xp', ush if ush else 'b')
            body += [struct.pack('<IIH', 2 * nu + 6, 2 * nu, 3), raw]
        else:
            body.append(bytes(4))
            want['url_or_path'] = sx.cat(b'..\\' * up, sp)
        typ = 'local file'
    elif kind == 'unc':
        sx.reach('unc')
        opts = opts | 0x103
        raw, want['url_or_path'] = nult(sx, 'unc', ush)
        body.append(raw)
        typ = 'unc'
    elif kind == 'wb':
        sx.reach('wb')
        typ = 'workbook'
        opts = opts | absb * 0
    else:
        sx.reach('none')
        typ = 'unknown'
        opts = opts | absb
        if m & 4:
            opts = opts | 0x40       # else it would be a place in the workbook
    if m & 4:
        raw, want['textmark'] = nult(sx, 'mark', shapes[(m + 1) % 4])
        opts = opts | 8
        body.append(raw)
    recs = [link(sx, 1, 2, 3, 3, opts, sx.cat(*body))]
    tip = None
    if case['tip']:
        raw, _, tip = text(sx, 'tip', shapes[1])
        recs.append(quicktip(sx, (1, 2, 3, 3), raw))
        sx.reach('tip')
    sh = B.open_wb(sx, X, B.workbook(sx, [recs])).sheet_by_index(0)
    sx.check_same(len(sh.hyperlink_list), 1, 'one link')
    h = sh.hyperlink_list[0]
    sx.check_same(h.type, typ, 'type')
    for a in sorted(want):
        sx.check_same(getattr(h, a), want[a], a)
    sx.check_same(h.quicktip, tip, 'quick tip')
    sx.check_same((h.frowx, h.lrowx, h.fcolx, h.lcolx), (1, 2, 3, 3), 'rectangle')
    sx.check_same(sorted(sh.hyperlink_map.keys()), [(1, 3), (2, 3)], 'cells')
