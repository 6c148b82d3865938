"""C08: BIFF8 unicode strings wherever they occur."""
import struct
from . import biff as B

PROP = 'C08'
BOUNDS = ['strings of 0 to 2 (thorough: 4) symbolic characters: 8-bit compressed, 16-bit, surrogate pairs; no '
          'rich/phonetic data, 0 to 2 rich-text runs and/or 0 to 3 phonetic bytes, all of whose bytes are '
          'symbolic; zero length with and without options byte',
          'one symbolic character after 126 to 1023 fixed ones, also with 300 runs and 259 phonetic bytes',
          'places: LABEL, RSTRING, formula STRING result, SST, BOUNDSHEET, FORMAT, FONT, STYLE, NAME, NOTE author, '
          'text constant of a name formula, WRITEACCESS']
ASSUMES = ['16-bit characters are well-formed UTF-16 (no lone surrogates).',
           'Defined names do not contain a capital sigma.',
           'A zero-length string without options byte stands at the end of its record.']
REACH = ['label', 'rstring', 'string', 'sst', 'boundsheet', 'format', 'font', 'style', 'name', 'note', 'tstr',
         'writeaccess', 'noopt']
PLACES = ['label', 'rstring', 'string', 'sst', 'boundsheet', 'format', 'font', 'style', 'name', 'note', 'tstr',
          'writeaccess']
OPTS = {'max_steps': 600000}


def cases(tier):
    out = []
    shapes = ['', 'c', 'cc', 'b', 'bb', 'S', 'bS']
    if tier != 'quick':
        shapes += ['ccc', 'cccc', 'Sb', 'bbb', 'bSb', 'SS', 'bbbb']
    opts = [(None, None), (1, None), (2, 3), (None, 2), (0, 0), (0, 1)]
    for pl in PLACES:
        for s in shapes:
            if pl == 'format' and len(s) > 2:
                continue
            for rich, pho in opts:
                if pl == 'string' and (rich, pho) != (None, None):
                    continue        # a formula result has no runs or phonetic data
                if s in ('c', 'b') and (rich, pho) in ((0, 0), (0, 1)) and tier == 'quick':
                    continue
                out.append({'pl': pl, 'shape': s, 'rich': rich, 'pho': pho, 'noopt': 0,
                            'name': '%s-%s-%s-%s' % (pl, s or 'empty', rich, pho)})
        if pl in ('boundsheet', 'font', 'tstr', 'name'):
            pads = [('c', p) for p in (126, 127, 128, 254)] + [('b', p) for p in (126, 127, 128, 254)]
        else:
            pads = [('c', p) for p in (127, 254, 255, 256, 1023)] + [('b', p) for p in (127, 254, 255, 256, 1023)]
        for s, p in pads:
            for rich, pho in [(None, None), (300 if p < 1000 else 2, 259 if p < 1000 else 4)]:
                if pl == 'string' and rich or pl in ('style', 'format') and p > 300:
                    continue
                out.append({'pl': pl, 'shape': s, 'rich': rich, 'pho': pho, 'noopt': 0, 'pad': p,
                            'name': '%s-%s%d-%s-%s' % (pl, s, p, rich, pho)})
        if pl not in ('rstring', 'sst', 'name', 'tstr'):
            out.append({'pl': pl, 'shape': '', 'rich': None, 'pho': None, 'noopt': 1,
                        'name': '%s-noopt' % pl})
    return out


def harness(sx, X, case):
    pl = case['pl']
    shape, rich, pho = case['shape'], case['rich'], case['pho']
    lenlen = 1 if pl in ('boundsheet', 'font', 'note1', 'tstr') else 2
    exp, raw, n = B.ustr8(sx, 's', shape, lenlen, rich, pho, case['noopt'], known=pl == 'name', pad=case.get('pad', 0))
    sx.reach(pl)
    if pl == 'name':
        for ch in sx.items(exp):
            sx.assume(ch != 0x3A3)      # lower-casing of a final sigma depends on its context
    if case['noopt']:
        sx.reach('noopt')
    globs, recs, kw, names = [], [], {}, None
    fonts = [B.font8(sx) for _ in range(4)]
    fmts = []
    tail = []
    if pl == 'label':
        recs.append(B.rec(sx, 0x204, struct.pack('<HHH', 0, 0, 0), raw))
    elif pl == 'rstring':
        recs.append(B.rec(sx, 0xD6, struct.pack('<HHH', 0, 0, 0), raw, struct.pack('<HHHHH', 2, 1, 6, 2, 5)))
    elif pl == 'string':
        recs.append(B.rec(sx, 0x06, struct.pack('<HHH', 0, 0, 0), b'\0\0\0\0\0\0\xff\xff',
                          struct.pack('<HIH', 0, 0, 3), b'\x1e\x01\x00'))
        recs.append(B.rec(sx, 0x207, raw))
    elif pl == 'sst':
        globs.append(B.rec(sx, 0xFC, struct.pack('<II', 3, 3), B.ustr(sx, 'first'), raw, B.ustr(sx, 'last')))
        for i in range(3):
            recs.append(B.rec(sx, 0xFD, struct.pack('<HHHI', 0, i, 0, i)))
    elif pl == 'boundsheet':
        names = [sx.cat(raw)]
    elif pl == 'format':
        kw['formatting_info'] = True
        fmts.append(B.rec(sx, 0x41E, struct.pack('<H', 200), raw))
    elif pl == 'font':
        kw['formatting_info'] = True
        fonts.append(B.rec(sx, 0x31, struct.pack('<HHHHHBBBB', 200, 0, 0x7FFF, 400, 0, 0, 0, 0, 0), raw))
    elif pl == 'style':
        kw['formatting_info'] = True
        globs.append(B.rec(sx, 0x293, struct.pack('<H', 1), raw))
    elif pl == 'name':
        fm = b'\x1e\x05\x00'
        tail.append(B.rec(sx, 0x18, struct.pack('<HBBHHHBBBB', 0, 0, n, len(fm), 0, 0, 0, 0, 0, 0), raw, fm))
    elif pl == 'tstr':
        fm = sx.cat(b'\x17', raw, b'\x17\x02\x00\x07!\x08')      # s & "<7>!"
        tail.append(B.rec(sx, 0x18, struct.pack('<HBBHHHBBBB', 0, 0, 1, len(fm), 0, 0, 0, 0, 0, 0), b'\0x',
                          fm))
    elif pl == 'note':
        # OBJ (note, id 1), TXO "T", NOTE
        recs.append(B.rec(sx, 0x5D, struct.pack('<HHHHHIII', 0x15, 18, 0x19, 1, 0, 0, 0, 0), struct.pack('<HH', 0, 0)))
        recs.append(B.rec(sx, 0x1B6, struct.pack('<HH6sHHH', 0, 0, b'', 1, 16, 0), b'\0\0\0\0'))
        recs.append(B.rec(sx, 0x3C, b'\0T'))
        recs.append(B.rec(sx, 0x3C, bytes(16)))
        extra = sx.fork(sx.int('extra', 0, 1)) if not case['noopt'] else 0
        recs.append(B.rec(sx, 0x1C, struct.pack('<HHHH', 1, 2, 0, 1), raw, b'\0' * extra))
    elif pl == 'writeaccess':
        globs.append(B.rec(sx, 0x5C, raw, b'' if case['noopt'] else b'   '))
    allg = fonts + fmts + [B.xf8(sx), B.xf8(sx)] + globs
    if pl == 'boundsheet':
        head = sx.cat(B.bof(sx, 80, 5), B.codepage(sx, 1200), *allg)
        pos = len(head) + 4 + 6 + len(raw) + 4
        wb = sx.cat(head, B.rec(sx, 0x85, struct.pack('<iBB', pos, 0, 0), raw), B.EOF,
                    B.bof(sx, 80, 0x10), B.EOF)
    else:
        wb = B.workbook(sx, [recs], allg, tail=tail)
    st, bk = sx.attempt(B.open_wb, sx, X, wb, **kw)
    sx.check(st == 'ok', 'the workbook opens')
    if st != 'ok':
        return
    sh = bk.sheet_by_index(0)
    if pl in ('label', 'rstring', 'string'):
        sx.check_same(sh.cell_type(0, 0), 1, 'cell type')
        sx.check_same(sh.cell_value(0, 0), exp, 'cell text')
        sx.observe('v', sh.cell_value(0, 0))
        if pl == 'rstring':
            sx.check_same(sh.rich_text_runlist_map[0, 0], [(1, 6), (2, 5)], 'runs after the string')
    elif pl == 'sst':
        sx.check_same(sh.row_values(0), ['first', exp, 'last'], 'shared strings')
    elif pl == 'boundsheet':
        sx.check_same(bk.sheet_names(), [exp], 'sheet name')
        sx.check_same(sh.name, exp, 'sheet name')
    elif pl == 'format':
        sx.check_same(bk.format_map[200].format_str, exp, 'format string')
    elif pl == 'font':
        sx.check_same([f.name for f in bk.font_list], ['Arial'] * 4 + ['Dummy Font', exp], 'font name')
    elif pl == 'style':
        sx.check_same(dict(bk.style_name_map), {exp: (0, 1)}, 'style name')
    elif pl == 'name':
        nm = bk.name_obj_list[0]
        sx.check_same(nm.name, exp, 'defined name')
        sx.check_same(nm.result and nm.result.value, 5.0, 'formula after the name')
    elif pl == 'tstr':
        nm = bk.name_obj_list[0]
        sx.check_same(nm.result and nm.result.kind, 1, 'kind of the text constant')
        sx.check_same(nm.result.value, exp + '\x07!', 'text constant')
    elif pl == 'note':
        note = sh.cell_note_map[1, 2]
        sx.check_same(note.author, exp, 'author')
        sx.check_same(note.text, 'T', 'text')
    elif pl == 'writeaccess':
        sx.check_same(bk.user_name, exp.rstrip(), 'user name')
