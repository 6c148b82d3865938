"""A small workbook that has one of everything, and a dump of all that is read from it."""
import struct
from . import biff as B
from . import c18, c19

P = struct.pack
ADR = '<HHH'


def d(x):
    return P('<d', x)


def cells(sx, bv):
    """Sheet records; an item (rec, 1) must directly follow the one before it."""
    b2 = bv < 30
    R = lambda op, *b: B.rec(sx, op, *b)
    out = []
    if bv < 50:
        for i in range(5):
            out.append(R(0x31 if b2 else 0x231, P('<HH', 200 + i, 0), b'' if b2 else P('<H', 10), b'\5Arial'))
            if b2:
                out.append((R(0x45, P('<H', 12)), 1))
        if bv >= 40:
            out.append(R(0x56, P('<H', 2)))
        for i, f in enumerate((b'General', b'd/m/yy', b'0.00')):
            out.append(R(0x1E, bytes([len(f)]), f) if bv <= 30 else R(0x41E, P('<HB', i, len(f)), f))
        for i in range(3):
            if b2:
                out.append(R(0x43, bytes([0, 0, i, 0x9A])))
            elif bv == 30:
                out.append(R(0x243, bytes([0, i, 1, 0xFC]), bytes(8)))
            else:
                out.append(R(0x443, bytes([0, i, 1, 0, 0x20, 0xFC]), bytes(6)))
        if not b2:
            out.append(R(0x293, P('<H', 1), b'\3Sty'))
            out.append(R(0x92, P('<H', 16), *[bytes([i, 2 * i, 3 * i, 0]) for i in range(16)]))
        out.append(R(0x22, P('<H', 1)))
    out.append(B.dim(sx, bv, 9, 6))
    if b2:
        at = lambda x: bytes([x, 0, 0])
        out += [R(0x24, P('<BBH', 1, 2, 3000)), R(0x20, P('<HH', 0, 1), b'\1\0\0'),
                R(0x08, P('<HHHHHBH', 2, 0, 6, 300, 0, 1, 0), b'\1\0\0'),
                R(3, P('<HH', 0, 0), at(1), d(5.5)), R(2, P('<HH', 0, 1), at(0), P('<H', 7)),
                R(4, P('<HH', 1, 0), at(0), b'\2ab'), R(5, P('<HH', 1, 1), at(0), b'\1\0'),
                R(5, P('<HH', 1, 2), at(0), b'\x2a\1'), R(1, P('<HH', 2, 2), at(2)),
                R(6, P('<HH', 3, 0), at(2), d(2.25), b'\0\x03\x1e\1\0'),
                R(6, P('<HH', 3, 1), at(2), b'\0\0\0\0\0\0\xff\xff', b'\0\x03\x1e\1\0'), (R(7, b'\3str'), 1),
                R(0x3E, bytes([0, 1, 0, 1, 0]), P('<HHB', 4, 5, 1), bytes(4)), R(0x25, P('<H', 300)),
                R(0x41, P('<HHHHB', 1, 2, 3, 4, 2))]
        return out
    z = (lambda s: B.ustr(sx, s)) if bv >= 80 else (lambda s: P('<H', len(s)) + s.encode())
    fop = 6 if bv >= 50 else 0x206 if bv == 30 else 0x406
    fx = b'\0' * (6 if bv >= 50 else 2) + b'\3\0\x1e\1\0'
    out += [R(0x225, P('<HH', 1, 300)), R(0x55, P('<H', 9)), R(0x7D, P('<HHHHHH', 1, 2, 2560, 1, 1, 0)),
            R(0x208, P('<HHHHHHi', 2, 0, 6, 300, 0, 0, 0x80 | (1 << 16))),
            R(0x203, P(ADR, 0, 0, 1), d(5.5)), R(0x27E, P(ADR, 0, 1, 0), P('<i', 28 * 4 + 2)),
            R(0x204, P(ADR, 1, 0, 0), z('ab')), R(0x205, P(ADR, 1, 1, 0), b'\1\0'), R(0x205, P(ADR, 1, 2, 0), b'\x2a\1'),
            R(0x201, P(ADR, 2, 2, 2)),
            R(fop, P(ADR, 3, 0, 2), d(2.25), fx), R(fop, P(ADR, 3, 1, 2), b'\0\0\0\0\0\0\xff\xff', fx), (R(0x207, z('str')), 1)]
    if bv >= 50:
        out += [R(0xBD, P('<HH', 4, 0), P('<Hi', 0, 10), P('<Hi', 1, 14), P('<H', 1)),
                R(0xBE, P('<HH', 5, 1), P('<HH', 1, 2), P('<H', 2)),
                R(0xD6, P(ADR, 6, 0, 0), z('rich'), b'\1\0\1\0\2\0' if bv >= 80 else b'\1\1\2')]
    if bv >= 80:
        out += [R(0xFD, P(ADR, 7, 0, 0), P('<I', 1)), R(0xE5, P('<H', 1), P('<HHHH', 0, 1, 2, 3)),
                c18_link(sx), R(0x15F, P('<H', 1), P('<HHHH', 0, 0, 0, 2), P('<H', 0)),
                R(0x1B8, P('<HHHH', 3, 3, 0, 0), c18.G0, b'\2\0\0\0', P('<I', 8), P('<I', 3), b'A\0B\0\0\0'),
                R(0x800, P('<HHHHH', 0x800, 3, 3, 0, 0), 'tip'.encode('utf-16-le'), b'\0\0'),
                c19_obj(sx, 5)] + c19_txo(sx, 'note') + [R(0x1C, P('<HHHH', 8, 0, 0, 5), B.ustr(sx, 'me'), b'\0'),
                R(0x1B0, P('<HHHHHH', 1, 0, 1, 1, 2, 2), P('<HHHHH', 1, 1, 1, 2, 2)),
                R(0x1B1, P('<BBHHI', 2, 0, 3, 0, 0), b'\0\0', b'\x1e\1\0')]
    elif bv >= 50:
        out += [R(0x1C, P('<HHH', 8, 0, 4), b'note')]
    out += [R(0x1B, P('<H', 1), P('<HHH', 2, 0, 255) if bv >= 80 else P('<H', 2)),
            R(0x1A, P('<H', 1), P('<HHH', 3, 0, 9) if bv >= 80 else P('<H', 3)),
            R(0x23E, P('<HHH', 0x6B6, 1, 1), P('<HHHHI', 64, 0, 70, 120, 0) if bv >= 80 else bytes(4)),
            R(0xA0, P('<HH', 3, 4)), R(0x41, P('<HHHHB', 1, 2, 3, 4, 2))]
    if bv >= 40:
        out += [R(0x99, P('<H', 2000)), R(0xAB, P('<H', 32), b'\x05' * 32)]
    return out


def c18_link(sx):
    return B.rec(sx, 0x1B8, P('<HHHH', 0, 1, 2, 2), c18.G0, b'\2\0\0\0', P('<I', 8), P('<I', 4), 'Loc\0'.encode('utf-16-le'))


def c19_obj(sx, oid):
    return B.rec(sx, 0x5D, P('<HHH', 0x15, 18, 0x19), P('<H', oid), P('<H', 0x4011), bytes(12), P('<HH', 0, 0))


def c19_txo(sx, s):
    return [B.rec(sx, 0x1B6, P('<HH', 0x212, 0), bytes(6), P('<HHH', len(s), 16, 0), bytes(2)),
            (B.rec(sx, 0x3C, b'\0', s.encode()), 1), (B.rec(sx, 0x3C, P('<HH', 0, 1), bytes(4), P('<HH', len(s), 0), bytes(4)), 1)]


def globs(sx, bv):
    R = lambda op, *b: B.rec(sx, op, *b)
    u = R(0x5C, B.ustr(sx, 'me'), b'  ') if bv >= 80 else R(0x5C, b'\2me', b'  ')
    out = [u, B.codepage(sx, 1200 if bv >= 80 else 1252)]
    if bv < 50:
        return out
    out += [R(0x8C, P('<HH', 1, 49))] + B.std_globals(sx, bv, (0, 14, 0x31, 164))[:5]
    out += [R(0x22, P('<H', 0)), B.fmt8(sx, 164, '0.0') if bv >= 80 else R(0x41E, P('<HB', 164, 3), b'0.0')]
    out += B.std_globals(sx, bv, (0, 14, 0x31, 164))[5:]
    out.append(R(0x293, P('<H', 1), B.ustr(sx, 'Sty') if bv >= 80 else b'\3Sty'))
    n = 56
    out.append(R(0x92, P('<H', n), *[bytes([i, 2 * i, 3 * i, 0]) for i in range(n)]))
    if bv >= 80:
        out += [R(0x1AE, P('<HH', 2, 0x401)), R(0x17, P('<H', 1), P('<HHH', 0, 1, 1)),
                R(0x18, P('<HBBHHHBBBB', 0, 0, 1, 7, 0, 0, 0, 0, 0, 0), b'\0N', b'\x3a', P('<HHH', 0, 2, 1)),
                R(0xFC, P('<ii', 2, 2), B.ustr(sx, 'one'), B.ustr(sx, 'tw\u0394')), (R(0xFF, bytes(2)), 1)]
    else:
        out += [R(0x16, P('<H', 1)), R(0x17, b'\1\3'),
                R(0x18, P('<HBBHHHBBBB', 0, 0, 1, 3, 0, 0, 0, 0, 0, 0), b'N', b'\x1e', P('<H', 7))]
    return out


def strip(items):
    return [x[0] if isinstance(x, tuple) else x for x in items]


def places(items):
    """Indexes at which a record may be inserted."""
    return [i for i in range(len(items) + 1) if i == len(items) or not isinstance(items[i], tuple)]


def assemble(sx, bv, g, sheets):
    """A stream; sheets is a list of record lists (the first uses everything)."""
    if bv < 45:
        return sx.cat(B.bof(sx, 20 if bv == 21 else bv, 0x10), *(g + sheets[0] + [B.EOF]))
    names = ['Sheet%d' % (i + 1) for i in range(len(sheets))]
    bodies = [sx.cat(B.bof(sx, 40 if bv == 45 else bv, 0x10), *(s + [B.EOF])) for s in sheets]
    pre = sx.cat(B.bof(sx, bv, 5), *g)
    if bv == 45:
        bs = [B.rec(sx, 0x85, bytes([len(n)]), n.encode()) for n in names]
        at = len(pre) + 8 + sum(len(b) for b in bs)
        tail = []
        for n, b in zip(names, bodies):
            tail += [B.rec(sx, 0x8F, P('<i', len(b)), bytes([len(n)]), n.encode()), b]
        return sx.cat(pre, B.rec(sx, 0x8E, P('<i', at)), *(bs + tail + [B.EOF]))
    at = len(pre) + sum(len(B.boundsheet(sx, 0, n, biff=bv)) for n in names) + 4
    bs = []
    for n, b in zip(names, bodies):
        bs.append(B.boundsheet(sx, at, n, biff=bv))
        at += len(b)
    return sx.cat(pre, *(bs + [B.EOF] + bodies))


def pollute(sx, X, bv):
    """Open and read another workbook that has one of everything, and drop it."""
    sheets = [strip(cells(sx, bv))]
    g = strip(globs(sx, bv))
    if bv >= 45:
        sheets.append([B.rec(sx, 0x203, P(ADR, 0, 0, 0), d(1.5))])
    if bv >= 50:
        g.append(B.fmt8(sx, 165, 'd/m/yy') if bv >= 80 else B.rec(sx, 0x41E, P('<HB', 165, 6), b'd/m/yy'))
    if bv == 20:
        # Excel 2.0: no XF records, attributes in the cells
        sheets[0] = [r for r in sheets[0] if r[0] not in (0x43, 1, 2, 3, 4, 5, 6, 7, 8, 0x20)] + [
            B.rec(sx, 3, P('<HH', 8, i), bytes(a), d(i)) for i, a in enumerate(((0, 1, 0), (0, 0x42, 7), (0, 0, 2), (0, 0, 0)))]
    data = assemble(sx, bv, g, sheets)
    bk = X.xlrd.open_workbook(file_contents=data, formatting_info=True, logfile=sx.sink())
    return bk.sheets()


def beside(sx, bv):
    """Records of a sheet with every feature that needs nothing from the globals."""
    R = lambda op, *b: B.rec(sx, op, *b)
    out = [R(0x225, P('<HH', 1, 301)), R(0x55, P('<H', 11)), R(0x7D, P('<HHHHHH', 0, 3, 2561, 0, 1, 0)),
           R(0x208, P('<HHHHHHi', 0, 0, 6, 301, 0, 0, 0)), R(0x99, P('<H', 2001)),
           R(0x1B, P('<H', 1), P('<HHH', 2, 0, 255) if bv >= 80 else P('<H', 2)),
           R(0x1A, P('<H', 1), P('<HHH', 3, 0, 9) if bv >= 80 else P('<H', 3)),
           R(0x23E, P('<HHH', 0x6B9, 1, 1), P('<HHHHI', 64, 0, 71, 121, 0) if bv >= 80 else bytes(4)),
           R(0xA0, P('<HH', 3, 5)), R(0x41, P('<HHHHB', 1, 2, 3, 4, 2))]
    if bv >= 80:
        out += [R(0xE5, P('<H', 1), P('<HHHH', 0, 1, 0, 1)), c18_link(sx),
                R(0x15F, P('<H', 1), P('<HHHH', 0, 0, 0, 2), P('<H', 1), P('<HHHH', 0, 1, 0, 0)),
                c19_obj(sx, 1)] + strip(c19_txo(sx, 'note')) + [R(0x1C, P('<HHHH', 0, 0, 0, 1), B.ustr(sx, 'me'), b'\0')]
    else:
        out += [R(0x1C, P('<HHH', 0, 0, 4), b'note')]
    for i in range(4):
        out.append(R(0xD6, P(ADR, i, 0, 0), B.ustr(sx, 'rich') if bv >= 80 else b'\4\0rich', b'\1\0\1\0\2\0' if bv >= 80 else b'\1\1\2'))
    return out


SKIP = {'book', 'logfile', 'mem', 'base', 'filestr', 'stream_len', '_position', '_sh_abs_posn', 'load_time_stage_1',
        'load_time_stage_2', '_sheet_list', '_position', 'sheet', '_xf_index_stats', '_rowinfo_sharing_dict', 'verbosity',
        'formatting_info', 'use_mmap', 'on_demand', 'ragged_rows', 'ignore_workbook_corruption', 'DEBUG', 'SHEET_DEBUG'}


def deep(v, skip=SKIP, seen=None):
    """Everything reachable from an object of the package as nested (name, value) lists."""
    if isinstance(v, (list, tuple)):
        return [deep(x, skip) for x in v]
    if isinstance(v, dict):
        return [[deep(k, skip), deep(v[k], skip)] for k in sorted(v, key=repr)]
    if type(v).__module__.startswith('xlrd') and hasattr(v, '__dict__'):
        out = []
        for k in sorted(vars(v)):
            if k in skip or k.startswith(('_', 'put_cell')) or callable(vars(v)[k]):
                continue
            out.append([k, deep(vars(v)[k], skip)])
        return out
    if hasattr(v, 'tolist') and not isinstance(v, (str, bytes)):
        return v.tolist()
    return v


def snapshot(bk, skip=SKIP):
    """The public state of a workbook and its sheets: attributes not starting with _, names, and the cells."""
    out = [['book', deep(bk, skip) + [['sheet names', bk.sheet_names()]]]]
    for i in range(bk.nsheets):
        sh = bk.sheet_by_index(i)
        cells = [[sh.row_types(r).tolist() if hasattr(sh.row_types(r), 'tolist') else list(sh.row_types(r)),
                  list(sh.row_values(r)),
                  [sh.cell_xf_index(r, c) for c in range(sh.row_len(r))] if sh.formatting_info else []]
                 for r in range(sh.nrows)]
        out.append(['sheet %d' % i, deep(sh, skip) + [['cells', cells]]])
    return out
