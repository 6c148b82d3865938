"""C14: XF records, all bit patterns, every version."""
import struct
from . import biff as B

PROP = 'C14'
BOUNDS = ['every XF record layout: BIFF8 (20 bytes), BIFF5/7 (16), BIFF4 and BIFF4W (12), BIFF3 (12), BIFF2.1 (4); all 2**n '
          'values of the border, background and alignment bytes together, of the type/protection/parent and used-attribute '
          'bytes together (the other group at all-zeros and at all-ones), of the font index, and of the format number '
          '(with standard formats and up to 2 FORMAT records)',
          'the record is at position 0, 1 or 2 of 3 XFs, at 255 to 599 of 600, or 4 of 4095; formatting_info on']
ASSUMES = ['A format number that is neither standard nor defined is reported as 0, and a cell XF whose parent does not '
           'exist gets parent 0 (as the code documents); STYLE records follow the XFs.']
ISO = {'after': '(80|70|50|40|30|21)-rest-0-1', 'ole': '(80|70|50)-rest-0-1'}
REACH = ['80', '70', '50', '45', '40', '30', '21', 'style', 'cell', 'unknown', 'many']
OPTS = {'max_steps': 4000000}
FLAGS = ['_format_flag', '_font_flag', '_alignment_flag', '_border_flag', '_background_flag', '_protection_flag']


def seq(base, items):
    """(path, bit offset, width) with running offsets; None skips bits."""
    out, pos = [], base
    for p, w in items:
        if p:
            out.append((p, pos, w))
        pos += w
    return out


TYPE = [('protection.cell_locked', 1), ('protection.formula_hidden', 1), ('is_style', 1), ('lotus_123_prefix', 1)]
USED = [(None, 2)] + [(f, 1) for f in FLAGS]
BRD34 = seq(64, [('border.top_line_style', 3), ('border.top_colour_index', 5), ('border.left_line_style', 3),
                 ('border.left_colour_index', 5), ('border.bottom_line_style', 3),
                 ('border.bottom_colour_index', 5), ('border.right_line_style', 3),
                 ('border.right_colour_index', 5)])
BKG34 = seq(48, [('background.fill_pattern', 6), ('background.pattern_colour_index', 5),
                 ('background.background_colour_index', 5)])
LAYOUT = {
    80: seq(0, [('font_index', 16), ('format_key', 16)] + TYPE + [('parent_style_index', 12)]) +
        seq(48, [('alignment.hor_align', 3), ('alignment.text_wrapped', 1), ('alignment.vert_align', 3), (None, 1),
                 ('alignment.rotation', 8), ('alignment.indent_level', 4), ('alignment.shrink_to_fit', 1), (None, 1),
                 ('alignment.text_direction', 2)]) + seq(72, USED) +
        seq(80, [('border.left_line_style', 4), ('border.right_line_style', 4), ('border.top_line_style', 4),
                 ('border.bottom_line_style', 4), ('border.left_colour_index', 7), ('border.right_colour_index', 7),
                 ('border.diag_down', 1), ('border.diag_up', 1), ('border.top_colour_index', 7),
                 ('border.bottom_colour_index', 7), ('border.diag_colour_index', 7), ('border.diag_line_style', 4),
                 (None, 1), ('background.fill_pattern', 6), ('background.pattern_colour_index', 7),
                 ('background.background_colour_index', 7)]),
    70: seq(0, [('font_index', 16), ('format_key', 16)] + TYPE + [('parent_style_index', 12)]) +
        seq(48, [('alignment.hor_align', 3), ('alignment.text_wrapped', 1), ('alignment.vert_align', 3), (None, 1),
                 ('orient', 2)] + USED[1:]) +
        seq(64, [('background.pattern_colour_index', 7), ('background.background_colour_index', 7), (None, 2),
                 ('background.fill_pattern', 6), ('border.bottom_line_style', 3), ('border.bottom_colour_index', 7),
                 ('border.top_line_style', 3), ('border.left_line_style', 3), ('border.right_line_style', 3),
                 ('border.top_colour_index', 7), ('border.left_colour_index', 7), ('border.right_colour_index', 7)]),
    40: seq(0, [('font_index', 8), ('format_key', 8)] + TYPE + [('parent_style_index', 12)]) +
        seq(32, [('alignment.hor_align', 3), ('alignment.text_wrapped', 1), ('alignment.vert_align', 2),
                 ('orient', 2)]) + seq(40, USED) + BKG34 + BRD34,
    30: seq(0, [('font_index', 8), ('format_key', 8)] + TYPE) + seq(24, USED) +
        seq(32, [('alignment.hor_align', 3), ('alignment.text_wrapped', 1), ('parent_style_index', 12)]) +
        BKG34 + BRD34,
    21: seq(0, [('font_index', 8), (None, 8), ('format_key', 6), ('protection.cell_locked', 1),
                ('protection.formula_hidden', 1), ('alignment.hor_align', 3), ('left', 1), ('right', 1), ('top', 1),
                ('bottom', 1), ('shade', 1)]),
}
SIZE = {80: 20, 70: 16, 40: 12, 30: 12, 21: 4}
# bytes of the type/parent/used group and of the font and format numbers
TGRP = {80: (4, 5, 9), 70: (4, 5, 7), 40: (2, 3, 5), 30: (2, 3, 4, 5), 21: ()}
FONT = {80: (0, 1), 70: (0, 1), 40: (0,), 30: (0,), 21: (0,)}
FMT = {80: (2, 3), 70: (2, 3), 40: (1,), 30: (1,), 21: ()}


def lay(bv):
    return {50: 70, 45: 40}.get(bv, bv)


def cases(tier):
    out = []
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for k in ('rest', 'type', 'font', 'fmt'):
            if bv == 21 and k == 'type':
                continue
            for bg in (0, 0xFF):
                for pos in (0, 1, 2):
                    if tier == 'quick' and pos != {'rest': 1, 'type': 2, 'font': 0, 'fmt': 1}[k] and k != 'type':
                        continue
                    if tier == 'quick' and bv in (50, 45) and (bg or pos == 0):
                        continue
                    if k == 'rest' and bg:
                        continue
                    out.append({'name': '%d-%s-%d-%d' % (bv, k, bg, pos), 'bv': bv, 'k': k, 'bg': bg, 'pos': pos,
                                'weight': 20 if k == 'rest' else 5})
    for bv in (80, 70, 40, 30, 21):
        for k, pos, num in (('type', 256, 600), ('type', 4, 4095), ('rest', 255, 600), ('font', 599, 600), ('fmt', 257, 600)):
            if bv == 21 and k == 'type' or num > 600 and bv not in (80, 70):
                continue
            out.append({'name': 'many-%d-%s-%d' % (bv, k, pos), 'bv': bv, 'k': k, 'bg': 0, 'pos': pos, 'num': num,
                        'weight': 40})
    return out


def xfrec(sx, bv, body):
    code = {80: 0xE0, 70: 0xE0, 40: 0x443, 30: 0x243, 21: 0x43}[lay(bv)]
    return B.rec(sx, code, body)


def field(sx, items, off, w):
    lo, hi = off // 8, (off + w - 1) // 8
    n = 0
    for i in range(hi, lo - 1, -1):
        n = n * 256 + items[i]
    return (n >> (off - 8 * lo)) & ((1 << w) - 1)


def get(o, path):
    for p in path.split('.'):
        o = getattr(o, p)
    return o


def harness(sx, X, case):
    bv, k, bg, pos = case['bv'], case['k'], case['bg'], case['pos']
    L = lay(bv)
    n = SIZE[L]
    sx.reach(str(bv))
    tg, fo, fm = TGRP[L], FONT[L], FMT[L]
    items = []
    for i in range(n):
        mine = 'type' if i in tg else 'font' if i in fo else 'fmt' if i in fm else 'rest'
        if k == mine or L == 21 and i == 2 and k == 'fmt':
            items.append(sx.u8('b%d' % i))
        elif mine == 'rest' and not (L == 21 and i == 2):
            items.append(bg)
        elif mine == 'rest':
            items.append(sx.u8('b%d' % i) & 0xC0)
        elif mine == 'type':
            # a cell XF; parent 0; every attribute its own
            items.append({80: {9: 0xFC}, 70: {7: 0xFC}, 40: {5: 0xFC}, 30: {3: 0xFC}}[L].get(i, 0) if i in tg else 0)
        elif mine == 'font':
            items.append(3 if i == fo[0] else 0)
        else:
            items.append(0)
    if case.get('num') and k == 'type':
        # any attributes, but the parent one of a few
        lo = 4 if L == 30 else tg[0]
        num = case['num']
        par = (0, 1, 255, 256, min(num, 4095) - 1, min(num, 4094), 4095)[sx.fork(sx.int('par', 0, 6))]
        items[lo] = sx.u8('tb') & 0x0F | (par & 0xF) << 4
        items[lo + 1] = par >> 4
    if L == 30 and k != 'type':
        items[3] = 0xFC
        items[4] = bg & 0x0F if k != 'rest' else sx.u8('b4') & 0x0F
        items[5] = 0
    if L == 70 and k == 'rest':
        items[7] = (sx.u8('orient') & 3) + 0xFC
    body = sx.mkbytes(items)
    zero = bytearray(n)
    if L != 21:
        zero[{80: 9, 70: 7, 40: 5, 30: 3}[L]] = 0xFC
    num = case.get('num', 3)
    if num > 3:
        sx.reach('many')
    xfs = [bytes(zero)] * num
    xfs[pos] = body
    recs = [xfrec(sx, bv, b) for b in xfs]
    defined = [0]
    if bv >= 50:
        fonts = [B.font8(sx) if bv == 80 else B.font7(sx) for _ in range(5)]
        fmts = [B.rec(sx, 0x41E, struct.pack('<H', key), B.ustr(sx, s) if bv == 80 else
                      bytes([len(s)]) + s.encode()) for key, s in ((164, '0.0'), (400, 'yy'))]
        defined = [164, 400] + list(range(0, 23)) + list(range(27, 63)) + list(range(67, 82))
        wb = B.workbook(sx, [[]], fonts + fmts + recs, biff=bv)
    else:
        fmts = []
        for i, s in enumerate(('General', '0', 'd')):
            if bv >= 40:
                fmts.append(B.rec(sx, 0x41E, struct.pack('<HB', 0, len(s)), s.encode()))
            else:
                fmts.append(B.rec(sx, 0x1E, bytes([len(s)]), s.encode()))
        defined = [0, 1, 2]
        wb = B.single(sx, bv, fmts + recs + [B.dim(sx, bv, 0, 0)])
    bk = B.open_wb(sx, X, wb, formatting_info=True)
    sx.check_same(bk.biff_version, bv, 'version')
    sx.check_same(len(bk.xf_list), num, 'one XF per record')
    for i in range(num):
        sx.check_same(bk.xf_list[i].xf_index, i, 'XF index is the record order')
        if i != pos:
            sx.check_same(bk.xf_list[i].font_index, 0, 'font of another XF')
            sx.check_same(bk.xf_list[i].border.top_line_style, 0, 'border of another XF')
    xf = bk.xf_list[pos]
    vals = {p: field(sx, items, off, w) for p, off, w in LAYOUT[L]}
    key = vals.pop('format_key')
    known = sx.Or(*[key == d for d in defined])
    sx.check_same(xf.format_key, sx.ite(known, key, 0), 'format_key')
    if k == 'fmt':
        sx.reach('unknown')
    if 'is_style' in vals:
        st = vals['is_style']
        par = vals.pop('parent_style_index')
        sx.check_same(xf.parent_style_index, sx.ite(sx.Or(st == 1, par < num), par, 0), 'parent_style_index')
        if k == 'type':
            sx.reach('style')
            sx.reach('cell')
    if 'orient' in vals:
        o = vals.pop('orient')
        vals['alignment.rotation'] = sx.ite(o == 0, 0, sx.ite(o == 1, 255, sx.ite(o == 2, 90, 180)))
    if L == 30:
        vals['alignment.rotation'] = 0
        vals['alignment.vert_align'] = 2
    if L == 21:
        for s in ('left', 'right', 'top', 'bottom'):
            b = vals.pop(s)
            vals['border.%s_line_style' % s] = b
            vals['border.%s_colour_index' % s] = b * 8
        vals['background.fill_pattern'] = vals.pop('shade') * 17
        vals['background.background_colour_index'] = 9
        vals['background.pattern_colour_index'] = 8
        for f in FLAGS:
            vals[f] = 1
        vals['alignment.rotation'] = 0
        vals['alignment.vert_align'] = 2
    if L != 80:
        for z in ('alignment.indent_level', 'alignment.shrink_to_fit', 'alignment.text_direction', 'border.diag_up',
                  'border.diag_down', 'border.diag_colour_index', 'border.diag_line_style'):
            vals[z] = 0
    for p in sorted(vals):
        sx.check_same(get(xf, p), vals[p], p)
    sx.observe('xf', [get(xf, p) for p in sorted(vals)])
