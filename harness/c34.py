"""C34: window, zoom and pane records."""
import struct
from . import biff as B

PROP = 'C34'
BOUNDS = ['every content of WINDOW2 (BIFF8 of 18 and 14 bytes, BIFF8 short form, BIFF3 to BIFF7, BIFF2), SCL and PANE, '
          'each present or absent, in every order; all versions',
          'grid line colours of BIFF2 to BIFF7: eight colours']
ASSUMES = ['At most one record of each kind in a sheet.']
ISO = {'after': 'v(80|70|50|45|40|30|21)-w0-s0-p0-wsp-0', 'beside': 'v(80|70|50)-w0-s0-p0-wsp-0', 'ole': 'v(80|70|50)-w0-s0-p0-wsp-0'}
REACH = ['win8', 'win8 short', 'win3', 'win2', 'nowin', 'scl ok', 'scl bad', 'scl zero', 'pane', 'preview', 'normal',
         'cached ok', 'cached bad', 'cached zero']
OPTS_ATTR = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values',
             'automatic_grid_line_colour', 'columns_from_right_to_left', 'show_outline_symbols',
             'remove_splits_if_pane_freeze_is_removed', 'sheet_selected', 'sheet_visible', 'show_in_page_break_preview']
DEFAULT = [0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0]
RGB = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (1, 2, 0), (250, 250, 255)]


def cases(tier):
    out = []
    orders = ('wsp', 'wps', 'swp', 'spw', 'pws', 'psw')
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for w in {80: (0, 18, 14, 10, 20), 21: (0, 14)}.get(bv, (0, 10)):
            for scl in (0, 1):
                for pane in (0, 1):
                    for o in orders if scl and pane and w else orders[:1]:
                        if tier == 'quick' and o != 'wsp' and w not in (18, 10) and bv != 21:
                            continue
                        for fi in (0, 1):
                            if fi and (o != 'wsp' or bv < 50):
                                continue
                            out.append({'name': 'v%d-w%d-s%d-p%d-%s-%d' % (bv, w, scl, pane, o, fi), 'bv': bv, 'w': w,
                                        'scl': scl, 'pane': pane, 'o': o, 'fi': fi})
    return out


def nearest(rgb, pal):
    best = None
    for i in sorted(pal):
        c = pal[i]
        if c is not None:
            d = sum((a - b) ** 2 for a, b in zip(c, rgb))
            if best is None or d < best[0]:
                best = (d, [i])
            elif d == best[0]:
                best[1].append(i)
    return best[1]


def harness(sx, X, case):
    bv, w = case['bv'], case['w']
    recs = {}
    opts = [None] * 12
    exp = {}
    for a, d in zip(OPTS_ATTR, DEFAULT):
        exp[a] = d
    fr = fc = 0
    pb = nv = None
    rgb = None
    preview = 0
    if w:
        fr, fc = sx.u16('fr'), sx.u16('fc')
        if bv == 21:
            sx.reach('win2')
            fl = [sx.u8('f%d' % i) for i in range(5)]
            auto = sx.int('auto', 0, 1)
            rgb = RGB[sx.fork(sx.int('rgb', 0, 7))]
            recs['w'] = B.rec(sx, 0x3E, sx.pack('<BBBBBHHB', *(fl + [fr, fc, auto])), bytes(rgb), b'\0')
            for i in range(5):
                exp[OPTS_ATTR[i]] = sx.ite(fl[i] != 0, 1, 0)
            exp['automatic_grid_line_colour'] = auto
        else:
            o = sx.u16('opt')
            for i, a in enumerate(OPTS_ATTR):
                exp[a] = (o >> i) & 1
            preview = exp['show_in_page_break_preview']
            if bv == 80 and w >= 14:
                sx.reach('win8')
                gc, pb, nv = sx.u16('gc'), sx.u16('pb'), sx.u16('nv')
                recs['w'] = B.rec(sx, 0x23E, sx.pack('<HHHH', o, fr, fc, gc), sx.bytes('x', 2), sx.pack('<HH', pb, nv),
                                  sx.bytes('y', w - 14))
            else:
                sx.reach('win8 short' if bv == 80 else 'win3')
                rgb = RGB[sx.fork(sx.int('rgb', 0, 7))]
                recs['w'] = B.rec(sx, 0x23E, sx.pack('<HHH', o, fr, fc), bytes(rgb), sx.bytes('x', 1))
    else:
        sx.reach('nowin')
    scl = None
    if case['scl']:
        num, den = sx.u16('num'), sx.u16('den')
        recs['s'] = B.rec(sx, 0xA0, sx.pack('<HH', num, den))
    if case['pane']:
        sx.reach('pane')
        p = [sx.u16('p%d' % i) for i in range(4)] + [sx.u8('act')]
        recs['p'] = B.rec(sx, 0x41, sx.pack('<HHHHB', *p), b'' if bv < 80 else sx.bytes('z', 1))
    rs = [recs[c] for c in case['o'] if c in recs]
    st = B.workbook(sx, [rs], B.std_globals(sx, bv), biff=bv) if bv >= 50 else B.single(sx, 20 if bv == 21 else bv, rs)
    bk = B.open_wb(sx, X, st, formatting_info=bool(case['fi']))
    sh = bk.sheet_by_index(0)
    for a in OPTS_ATTR:
        sx.check(getattr(sh, a) == exp[a], a)
    sx.check(sh.first_visible_rowx == fr, 'first visible row')
    sx.check(sh.first_visible_colx == fc, 'first visible column')
    if rgb is not None:
        sx.check(tuple(sh.gridline_colour_rgb) == rgb, 'grid line colour')
        near = case['fi'] and nearest(rgb, {k: v for k, v in bk.colour_map.items()})
        sx.check(not near or sh.gridline_colour_index in near, 'grid line colour index')
    elif pb is not None:
        sx.check(sh.gridline_colour_index == gc, 'grid line colour index')
        sx.check(sh.cached_page_break_preview_mag_factor == pb, 'cached page break zoom')
        sx.check(sh.cached_normal_view_mag_factor == nv, 'cached normal zoom')
    if pb is None:
        pb = nv = 0
    sx.check(bool(sh.has_pane_record) == bool(case['pane']), 'has pane')
    if not case['pane']:
        p = [0, 0, 0, 0, 0]
    sx.check(sh.vert_split_pos == p[0], 'vertical split')
    sx.check(sh.horz_split_pos == p[1], 'horizontal split')
    sx.check(sh.horz_split_first_visible == p[2], 'first visible row of the bottom pane')
    sx.check(sh.vert_split_first_visible == p[3], 'first visible column of the right pane')
    sx.check(sh.split_active_pane == p[4], 'active pane')
    # zoom: the fraction num/den as a whole percentage, 100 unless between 10 and 400
    active = 100
    if case['scl']:
        got = sh.scl_mag_factor
        if bool(den == 0):
            sx.reach('scl zero')
            sx.check(got == 100, 'scl')
        else:
            pc = num * 100 // den
            ok = bool(sx.And(pc >= 10, pc <= 400))
            sx.reach('scl ok' if ok else 'scl bad')
            sx.check(got == (pc if ok else 100), 'scl')
        active = got
    else:
        sx.check(sh.scl_mag_factor is None, 'no scl')
    if bool(preview == 1):
        sx.reach('preview')
        sx.check(sh.cooked_page_break_preview_mag_factor == active, 'page break zoom')
        ok = bool(sx.And(nv >= 10, nv <= 400))
        sx.reach('cached ok' if ok else 'cached bad')
        sx.check(sh.cooked_normal_view_mag_factor == (nv if ok else active), 'normal zoom')
    else:
        sx.reach('normal')
        sx.check(sh.cooked_normal_view_mag_factor == active, 'normal zoom')
        if bool(pb == 0):
            sx.reach('cached zero')
            e = 60
        elif bool(sx.And(pb >= 10, pb <= 400)):
            sx.reach('cached ok')
            e = pb
        else:
            sx.reach('cached bad')
            e = active
        sx.check(sh.cooked_page_break_preview_mag_factor == e, 'page break zoom')
