"""Builders for BIFF streams: concrete structure, possibly symbolic payload."""
import struct

GLOBALS, SHEET, CHART = 5, 0x10, 0x20


def rec(sx, code, *payload):
    body = sx.cat(*payload) if payload else b''
    return sx.cat(struct.pack('<HH', code, len(body)), body)


def bof(sx, biff, st):
    if biff == 80:
        return rec(sx, 0x809, struct.pack('<HHHHII', 0x600, st, 0x0DBB, 0x07CC, 0, 6))
    if biff == 70:
        return rec(sx, 0x809, struct.pack('<HHHH', 0x500, st, 0x0DBB, 0x07CC))
    if biff == 50:
        return rec(sx, 0x809, struct.pack('<HHHH', 0x500, st, 0x096C, 0x07C9))
    if biff == 45:
        return rec(sx, 0x409, struct.pack('<HHH', 0x400, 0x100, 0))
    if biff == 40:
        return rec(sx, 0x409, struct.pack('<HHH', 0x400, st, 0))
    if biff == 30:
        return rec(sx, 0x209, struct.pack('<HHH', 0x300, st, 0))
    return rec(sx, 0x009, struct.pack('<HH', 0x200, st))


EOF = b'\x0a\x00\x00\x00'


def codepage(sx, n):
    return rec(sx, 0x42, struct.pack('<H', n))


def ustr(sx, s, lenlen=2, wide=None):
    """A plain BIFF8 unicode string."""
    its = [ord(c) for c in s]
    if wide is None:
        wide = any(c > 255 for c in its)
    out = list(struct.pack('<H' if lenlen == 2 else '<B', len(its)))
    out.append(1 if wide else 0)
    for c in its:
        out.append(c & 255)
        if wide:
            out.append(c >> 8)
    return bytes(out)


def boundsheet(sx, pos, name, vis=0, typ=0, biff=80):
    if biff == 80:
        nm = ustr(sx, name, 1) if isinstance(name, str) and not hasattr(name, 'items') else name
    else:
        nm = bytes([len(name)]) + name.encode('latin1')
    return rec(sx, 0x85, struct.pack('<i', pos), sx.cat(vis, typ), nm)


def xf8(sx, font=0, fmt=0, style=0, parent=0, rest=None, flags=0xFC):
    """XF record of BIFF8 (20 bytes): cell XF by default, all attributes own."""
    t = (4 if style else 0) | ((parent & 0xFFF) << 4) | 1
    return rec(sx, 0xE0, sx.pack('<HHH', font, fmt, t), rest if rest is not None else
               struct.pack('<BBBBIIH', 0x20, 0, 0, flags, 0, 0, 0x20C0))


def xf7(sx, font=0, fmt=0, style=0, parent=0):
    t = (4 if style else 0) | ((parent & 0xFFF) << 4) | 1
    return rec(sx, 0xE0, sx.pack('<HHH', font, fmt, t), struct.pack('<BBHHHHH', 0x20, 0xFC, 0x20C0,
                                                                      0, 0, 0, 0)[:10])


def font8(sx, name='Arial', height=200):
    return rec(sx, 0x31, struct.pack('<HHHHHBBBB', height, 0, 0x7FFF, 400, 0, 0, 0, 0, 0),
               ustr(sx, name, 1))


def font7(sx, name='Arial', height=200):
    return rec(sx, 0x31, struct.pack('<HHHHHBBBB', height, 0, 0x7FFF, 400, 0, 0, 0, 0, 0),
               bytes([len(name)]) + name.encode('latin1'))


def fmt8(sx, key, s):
    return rec(sx, 0x41E, struct.pack('<H', key), ustr(sx, s, 2))


def std_globals(sx, biff=80, fmts=(0,)):
    """Fonts and one XF per format key."""
    out = []
    for _ in range(4):
        out.append(font8(sx) if biff == 80 else font7(sx))
    out.append(font8(sx, 'Fifth') if biff == 80 else font7(sx, 'Fifth'))
    for f in fmts:
        out.append(xf8(sx, fmt=f) if biff == 80 else xf7(sx, fmt=f))
    return out


# set by symx.run for cases marked 'after' (another workbook is opened and read before and after this one is opened) or
# 'beside' (another sheet with one of everything follows), or 'ole' (a BIFF5+ stream is in a compound file, in one piece)
AFTER = BESIDE = OLE = None


def workbook(sx, sheets, globs=(), biff=80, cp=1200, tail=(), names=None, eofs=True):
    """sheets: list of record lists.  Returns the bare workbook stream."""
    names = names or ['Sheet%d' % (i + 1) for i in range(len(sheets))]
    if BESIDE:
        sheets = list(sheets) + [BESIDE(sx, biff)]
        names = list(names) + ['Beside']
    head = [bof(sx, biff, GLOBALS)]
    if cp is not None:
        head.append(codepage(sx, cp if biff >= 80 else (1252 if cp == 1200 else cp)))
    head += list(globs)
    head = sx.cat(*head)
    bodies = [sx.cat(bof(sx, biff, SHEET), *(list(recs) + [EOF])) for recs in sheets]
    tail = sx.cat(*tail) if tail else b''
    bs_len = sum(len(boundsheet(sx, 0, n, biff=biff)) for n in names)
    pos = len(head) + bs_len + len(tail) + 4
    bs = []
    for n, b in zip(names, bodies):
        bs.append(boundsheet(sx, pos, n, biff=biff))
        pos += len(b)
    return sx.cat(head, *(bs + [tail, EOF] + bodies))


def open_wb(sx, X, stream, **kw):
    kw.setdefault('logfile', sx.sink())
    if OLE and stream[0] == 9 and stream[1] == 8:
        stream = OLE(sx, stream)
    bk = X.xlrd.open_workbook(file_contents=stream, **kw)
    if AFTER:
        AFTER()
    return bk


def grid(sh, fmt=False):
    """All cells as rows of (ctype, value, xf)."""
    out = []
    for r in range(sh.nrows):
        row = []
        for c in range(sh.row_len(r)):
            cell = sh.cell(r, c)
            row.append((cell.ctype, cell.value, cell.xf_index))
        out.append(row)
    return out


EMPTY = (0, '', None)


def expect_grid(cells, nrows, ncols, empty=EMPTY):
    """cells: dict (r, c) -> (ctype, value, xf)."""
    return [[cells.get((r, c), empty) for c in range(ncols)] for r in range(nrows)]


def chars8(sx, nm, shape):
    """Symbolic BIFF8 characters.  shape: 'c' a compressed (8-bit) character, 'b' a 16-bit
    one, 'S' a surrogate pair.  Returns (UTF-16 units, expected characters)."""
    units, out = [], []
    for i, s in enumerate(shape):
        if s == 'c':
            u = sx.u8('%s%d' % (nm, i))
            units.append(u)
            out.append(u)
        elif s == 'b':
            u = sx.u16('%s%d' % (nm, i))
            sx.assume(sx.Or(u < 0xD800, u >= 0xE000))
            units.append(u)
            out.append(u)
        else:
            h, l = sx.int('%s%dh' % (nm, i), 0, 1023), sx.int('%s%dl' % (nm, i), 0, 1023)
            units += [h + 0xD800, l + 0xDC00]
            out.append(0x10000 + h * 1024 + l)
    return units, sx.mkstr(out)


def raw8(sx, units, wide):
    return sx.cat(*[sx.pack('<H', u) for u in units]) if wide else sx.mkbytes(units)


def ustr8(sx, nm, shape, lenlen=2, rich=None, pho=None, noopt=False, known=False, pad=0):
    """A BIFF8 string with symbolic characters: (expected, bytes, number of units)."""
    wide = any(s in 'bS' for s in shape)
    units, exp = chars8(sx, nm, shape)
    if pad:
        # fixed characters before the symbolic ones
        units = [0x178 if wide else 0x78] * pad + list(units)
        exp = ('\u0178' if wide else 'x') * pad + exp
    out = [] if known else [sx.pack('<H' if lenlen == 2 else '<B', len(units))]
    if not noopt:
        out.append(bytes([(1 if wide else 0) | (8 if rich is not None else 0) | (4 if pho is not None else 0)]))
    if rich is not None:
        out.append(struct.pack('<H', rich))
    if pho is not None:
        out.append(struct.pack('<i', pho))
    out.append(raw8(sx, units, wide))
    if rich:
        out.append(sx.bytes(nm + 'r', 4 * rich) if rich < 20 else sx.cat(bytes(4 * rich - 4), sx.bytes(nm + 'r', 4)))
    if pho:
        out.append(sx.bytes(nm + 'p', pho) if pho < 20 else sx.cat(bytes(pho - 4), sx.bytes(nm + 'p', 4)))
    return exp, sx.cat(*out), len(units)


def single(sx, bv, recs, cp=1252):
    """Excel 2.0 (20), 2.1 (21), 3 (30), 4 (40) worksheet stream or an Excel 4 workbook (45) of
    one sheet."""
    cpr = codepage(sx, cp) if cp is not None else b''
    if bv == 45:
        sheet = sx.cat(bof(sx, 40, SHEET), *(list(recs) + [EOF]))
        head = sx.cat(bof(sx, 45, 5), cpr)
        return sx.cat(head, rec(sx, 0x8E, struct.pack('<i', len(head) + 19)), rec(sx, 0x85, b'\x06Sheet1'),
                      rec(sx, 0x8F, struct.pack('<i', len(sheet)), b'\x06Sheet1'), sheet, EOF)
    return sx.cat(bof(sx, 20 if bv < 30 else bv, SHEET), cpr, *(list(recs) + [EOF]))


def dim(sx, bv, nr, nc):
    if bv < 30:
        return rec(sx, 0x00, struct.pack('<HHHH', 0, nr, 0, nc))
    if bv < 80:
        return rec(sx, 0x200, struct.pack('<HHHHH', 0, nr, 0, nc, 0))
    return rec(sx, 0x200, struct.pack('<iiHHH', 0, nr, 0, nc, 0))
