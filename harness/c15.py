"""C15: fonts, palette and nearest colour."""
import struct
from . import biff as B

PROP = 'C15'
BOUNDS = ['FONT records of BIFF8, BIFF7/5, BIFF4, BIFF3 and BIFF2 (with EFONT): every value of every field, names of 0 to 3 '
          '(thorough: 5) symbolic characters, 8-bit or 16-bit; 1 to 7 FONT records (the symbolic one at any position), or 520; names of 64 to 255 characters',
          'PALETTE records with 0 to 56 colours (thorough also: 0 to 3 trailing bytes), all component values, BIFF8, 7 and 4; '
          'wrong record sizes from 0 to 4n+12',
          'nearest_colour_index: maps of 1 to 4 arbitrary colours (or unknown ones) and an arbitrary target; the default '
          'colour map with a target that varies in one component; gridline colour of WINDOW2 in BIFF5/7']
ASSUMES = ['At most one PALETTE record.', 'Which of several equally near colours is chosen is left open.']
ISO = {'after': '(font-(80|70|40|30|20)-1-0-c?|font-80-6-4-.*|pal-(80|40)-2-0|nopal-.*|near-1-0)', 'ole': 'font-(80|70)-1-0-c|pal-80-2-0'}
REACH = ['80', '70', '50', '40', '30', '20', 'palette', 'badpalette', 'nearest', 'gridline', 'skip4']
OPTS = {'max_steps': 4000000}
FIXED = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (255, 0, 255), (0, 255, 255)]
# default BIFF8 palette, indexes 8..63
PAL8 = FIXED + [
    (128, 0, 0), (0, 128, 0), (0, 0, 128), (128, 128, 0), (128, 0, 128), (0, 128, 128), (192, 192, 192),
    (128, 128, 128), (153, 153, 255), (153, 51, 102), (255, 255, 204), (204, 255, 255), (102, 0, 102), (255, 128, 128),
    (0, 102, 204), (204, 204, 255), (0, 0, 128), (255, 0, 255), (255, 255, 0), (0, 255, 255), (128, 0, 128), (128, 0, 0),
    (0, 128, 128), (0, 0, 255), (0, 204, 255), (204, 255, 255), (204, 255, 204), (255, 255, 153), (153, 204, 255),
    (255, 153, 204), (204, 153, 255), (255, 204, 153), (51, 102, 255), (51, 204, 204), (153, 204, 0), (255, 204, 0),
    (255, 153, 0), (255, 102, 0), (102, 102, 153), (150, 150, 150), (0, 51, 102), (51, 153, 102), (0, 51, 0), (51, 51, 0),
    (153, 51, 0), (153, 51, 102), (51, 51, 153), (51, 51, 51)]
XF = {40: (0x443, 12), 30: (0x243, 12), 20: (0x43, 4)}


def cases(tier):
    out = []
    th = tier != 'quick'
    for bv in (80, 70, 50, 45, 40, 30, 20):
        for n, p in ((1, 0), (4, 3), (5, 4), (6, 4), (6, 5), (7, 2)) if th or bv in (80, 40) else ((1, 0), (6, 4)):
            shapes = ['', 'c', 'cc'] + (['b', 'bc', 'bb'] if bv == 80 else [])
            if th:
                shapes += ['ccccc'] + (['bbbbb'] if bv == 80 else [])
            for s in shapes if (n, p) == (1, 0) else shapes[-1:]:
                out.append({'name': 'font-%d-%d-%d-%s' % (bv, n, p, s), 'k': 'font', 'bv': bv, 'n': n, 'p': p, 's': s})
    for bv in (80, 70, 40):
        for n in (0, 1, 2, 16, 55, 56) if bv >= 50 else (0, 1, 15, 16):
            for pad in range(5) if th or n == 2 else (0,):
                out.append({'name': 'pal-%d-%d-%d' % (bv, n, pad), 'k': 'pal', 'bv': bv, 'n': n, 'pad': pad})
        out.append({'name': 'nopal-%d' % bv, 'k': 'pal', 'bv': bv, 'n': -1, 'pad': 0})
        out.append({'name': 'badpal-%d' % bv, 'k': 'bad', 'bv': bv})
    for bv in (80, 70, 40, 30, 20):
        for p in (3, 4, 254, 255, 256, 519):
            out.append({'name': 'manyfonts-%d-%d' % (bv, p), 'k': 'font', 'bv': bv, 'n': 520, 'p': p, 's': 'cb' if bv == 80 else 'c',
                        'weight': 20})
        for ln in (64, 127, 128, 255):
            for u in 'cb' if bv == 80 else 'c':
                out.append({'name': 'longname-%d-%d%s' % (bv, ln, u), 'k': 'font', 'bv': bv, 'n': 2, 'p': 1, 's': u * ln,
                            'weight': 20})
    for n in range(1, 4 if not th else 5):
        for none in range(n + 1):
            out.append({'name': 'near-%d-%d' % (n, none), 'k': 'near', 'n': n, 'none': none, 'weight': 10 * n})
    for ch in range(3):
        for rest in ((0, 0), (0x33, 0x99), (0xFF, 0x80)) if th else ((0x33, 0x99),):
            out.append({'name': 'grid-%d-%d' % (ch, rest[0]), 'k': 'grid', 'ch': ch, 'rest': rest, 'weight': 50})
    return out


def xfs(sx, bv, n=1):
    if bv == 80:
        return [B.xf8(sx)] * n
    if bv >= 50:
        return [B.xf7(sx)] * n
    c, l = XF[40 if bv == 45 else bv]
    return [B.rec(sx, c, bytes(l))] * n


def build(sx, bv, recs):
    if bv >= 50:
        return B.workbook(sx, [[]], recs, biff=bv)
    return B.single(sx, bv, recs + [B.dim(sx, bv, 0, 0)])


def stdfonts(sx, bv, n=1):
    if bv == 80:
        return [B.font8(sx)] * n
    if bv >= 50:
        return [B.font7(sx)] * n
    if bv >= 30:
        return [B.rec(sx, 0x231, struct.pack('<HHH', 200, 0, 0x7FFF), b'\x05Arial')] * n
    return [B.rec(sx, 0x31, struct.pack('<HH', 200, 0), b'\x05Arial')] * n


def harness(sx, X, case):
    k, bv = case['k'], case.get('bv', 80)
    if k == 'font':
        return fonts(sx, X, case)
    if k == 'near':
        return nearest(sx, X, case)
    if k == 'grid':
        sx.reach('gridline')
        v = sx.u8('v')
        rgb = list(case['rest'])
        rgb.insert(case['ch'], v)
        w2 = B.rec(sx, 0x23E, bytes(6), sx.mkbytes(rgb), b'\0')
        bk = B.open_wb(sx, X, B.workbook(sx, [[w2]], stdfonts(sx, 70, 5) + xfs(sx, 70), biff=70), formatting_info=True)
        sh = bk.sheet_by_index(0)
        i = sh.gridline_colour_index
        sx.check_same(sh.gridline_colour_rgb, tuple(rgb), 'gridline colour')
        argmin(sx, bk.colour_map, rgb, i)
        return
    if k == 'bad':
        sx.reach('badpalette')
        n = sx.int('n', 0, 6)
        ln = sx.fork(sx.int('len', 2, 36))
        sx.assume(sx.Or(ln < 4 * n + 2, ln > 4 * n + 6))
        rec = B.rec(sx, 0x92, sx.pack('<H', n), bytes(ln - 2))
        sx.expect('a PALETTE record of the wrong size is refused', X.xlrd.XLRDError, B.open_wb, sx, X,
                  build(sx, bv, stdfonts(sx, bv) + [rec] + xfs(sx, bv)), formatting_info=True)
        return
    sx.reach('palette')
    n, pad = case['n'], case['pad']
    comps = []
    recs = stdfonts(sx, bv)
    if n >= 0:
        body = sx.bytes('pal', 4 * n)
        its = sx.items(body)
        comps = [(its[4 * i], its[4 * i + 1], its[4 * i + 2]) for i in range(n)]
        recs = recs + [B.rec(sx, 0x92, struct.pack('<H', n), body, bytes(pad))]
    bk = B.open_wb(sx, X, build(sx, bv, recs + xfs(sx, bv)), formatting_info=True)
    cm = bk.colour_map
    ref = B.open_wb(sx, X, build(sx, bv, stdfonts(sx, bv) + xfs(sx, bv)), formatting_info=True).colour_map
    for i in range(8):
        sx.check_same(cm[i], FIXED[i], 'fixed colour')
    size = 16 if bv < 50 else 56
    keys = list(range(8 + size)) + [8 + size, 9 + size, 0x51, 0x7FFF]
    sx.check_same(sorted(cm.keys()), keys, 'colour indexes')
    for i in range(size):
        want = comps[i] if i < n else (PAL8[i] if bv == 80 else ref[8 + i])
        sx.check_same(cm[8 + i], want, 'palette colour')
    for i in keys[-4:]:
        sx.check_same(cm[i], None, 'special colour')
    sx.check_same(list(bk.palette_record), comps, 'palette_record')


def fonts(sx, X, case):
    bv, n, p, shape = case['bv'], case['n'], case['p'], case['s']
    sx.reach(str(40 if bv == 45 else bv))
    if n > 4:
        sx.reach('skip4')
    h, opt = sx.u16('h'), sx.u16('opt')
    want = {'height': h}
    for i, a in enumerate(('bold', 'italic', 'underlined', 'struck_out', 'outline', 'shadow')):
        want[a] = (opt >> i) & 1 if i < 4 or bv >= 30 else 0
    if bv == 80:
        units, name = B.chars8(sx, 'n', shape)
        wide = 'b' in shape
        nm = sx.cat(len(units), 1 if wide else 0, B.raw8(sx, units, wide))
    else:
        its = list(sx.items(sx.bytes('n', len(shape))))
        if len(its) > 8:
            its = [its[0]] + [0x41 + i % 26 for i in range(len(its) - 2)] + [its[-1]]
        for c in its:
            sx.assume(c < 0x80 if len(its) > 8 else sx.Or(c < 0x80, c >= 0xA0))
        nm = sx.cat(len(its), sx.mkbytes(its))
        name = sx.mkstr(its)
    want['name'] = name
    after = []
    if bv >= 50:
        f = {'colour_index': sx.u16('col'), 'weight': sx.u16('wt'), 'escapement': sx.u16('esc'),
             'underline_type': sx.u8('ul'), 'family': sx.u8('fam'), 'character_set': sx.u8('cs')}
        want.update(f)
        rec = B.rec(sx, 0x31, sx.pack('<HHHHHBBBB', h, opt, f['colour_index'], f['weight'], f['escapement'],
                                      f['underline_type'], f['family'], f['character_set'], sx.u8('unused')), nm)
    else:
        want['weight'] = sx.ite(want['bold'] == 1, 700, 400)
        want['escapement'] = want['family'] = 0
        want['underline_type'] = want['underlined']
        want['character_set'] = 1
        if bv >= 30:
            want['colour_index'] = sx.u16('col')
            rec = B.rec(sx, 0x231, sx.pack('<HHH', h, opt, want['colour_index']), nm)
        else:
            want['colour_index'] = sx.u16('col') if case['s'] else 0x7FFF
            rec = B.rec(sx, 0x31, sx.pack('<HH', h, opt), nm)
            if case['s']:
                after = [B.rec(sx, 0x45, sx.pack('<H', want['colour_index']))]
    recs = stdfonts(sx, bv) * p + [rec] + after + stdfonts(sx, bv) * (n - p - 1)
    bk = B.open_wb(sx, X, build(sx, bv, recs + xfs(sx, bv)), formatting_info=True)
    fl = bk.font_list
    sx.check_same(len(fl), n + (1 if n > 4 else 0), 'number of fonts')
    for i, f in enumerate(fl):
        sx.check_same(f.font_index, i, 'font index')
        if i == 4:
            continue
        rank = i if i < 4 else i - 1
        if rank == p:
            for a in sorted(want):
                sx.check_same(getattr(f, a), want[a], 'font ' + a)
        else:
            sx.check_same((f.height, f.name, f.bold, f.colour_index), (200, 'Arial', 0, 0x7FFF), 'another font')
    sx.observe('fonts', [(f.name, f.height, f.bold, f.weight) for f in fl])


def dist(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


def argmin(sx, cmap, rgb, i):
    sx.check(i in cmap and cmap[i] is not None, 'the nearest colour index names a known colour')
    d = dist(rgb, cmap[i])
    for j, c in cmap.items():
        if c is not None and j != i:
            sx.check(d <= dist(rgb, c), 'no colour is nearer than the chosen one')


def nearest(sx, X, case):
    sx.reach('nearest')
    n, none = case['n'], case['none']
    cmap = {}
    for i in range(n):
        if i == none:
            cmap[40 + i] = None
        cmap[10 + i] = tuple(sx.u8('c%d%s' % (i, c)) for c in 'rgb')
    rgb = tuple(sx.u8('t' + c) for c in 'rgb')
    i = X.xlrd.formatting.nearest_colour_index(cmap, rgb)
    argmin(sx, cmap, rgb, i)
    sx.observe('index', i)
