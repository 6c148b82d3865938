"""Minimal BIFF writers for the demonstrations."""
import io
import os
import struct
import sys
sys.path.insert(0, os.getcwd())
import xlrd

EOF = b'\x0a\0\0\0'


def rec(code, *p):
    b = b''.join(p)
    return struct.pack('<HH', code, len(b)) + b


def ustr(s, ll=2):
    wide = any(ord(c) > 255 for c in s)
    b = s.encode('utf-16le') if wide else s.encode('latin1')
    n = len(b) // 2 if wide else len(b)
    return struct.pack('<H' if ll == 2 else '<B', n) + bytes([wide]) + b


def bof(biff, st):
    if biff == 80:
        return rec(0x809, struct.pack('<HHHHII', 0x600, st, 0x0DBB, 0x07CC, 0, 6))
    if biff == 70:
        return rec(0x809, struct.pack('<HHHH', 0x500, st, 0x0DBB, 0x07CC))
    return rec({40: 0x409, 30: 0x209, 20: 9}[biff], struct.pack('<HH', {40: 0x400, 30: 0x300, 20: 0x200}[biff], st),
               b'' if biff == 20 else b'\0\0')


def font(biff=80):
    return rec(0x31, struct.pack('<HHHHHBBBB', 200, 0, 0x7FFF, 400, 0, 0, 0, 0, 0),
               ustr('Arial', 1) if biff == 80 else b'\x05Arial')


def xf(biff=80, fmt=0, style=0, parent=0):
    t = (4 if style else 0) | (parent << 4) | 1
    if biff == 80:
        return rec(0xE0, struct.pack('<HHH', 0, fmt, t), struct.pack('<BBBBIIH', 0x20, 0, 0, 0xFC, 0, 0, 0x20C0))
    return rec(0xE0, struct.pack('<HHH', 0, fmt, t), struct.pack('<BBHHHHH', 0x20, 0xFC, 0x20C0, 0, 0, 0, 0)[:10])


def book(sheets, globs=(), biff=80, names=None, fmts=(0,), tail=(), cp=None):
    names = names or ['Sheet%d' % (i + 1) for i in range(len(sheets))]
    head = bof(biff, 5) + rec(0x42, struct.pack('<H', cp or (1200 if biff == 80 else 1252)))
    head += font(biff) * 5 + b''.join(globs) + b''.join(xf(biff, f) for f in fmts)
    bodies = [bof(biff, 0x10) + b''.join(s) + EOF for s in sheets]

    def bs(pos, n):
        return rec(0x85, struct.pack('<iBB', pos, 0, 0), ustr(n, 1) if biff == 80 else bytes([len(n)]) + n.encode())
    tail = b''.join(tail)
    pos = len(head) + sum(len(bs(0, n)) for n in names) + len(tail) + 4
    for n, b in zip(names, bodies):
        head += bs(pos, n)
        pos += len(b)
    return head + tail + EOF + b''.join(bodies)


def single(biff, recs):
    return bof(biff, 0x10) + rec(0x42, struct.pack('<H', 1252)) + b''.join(recs) + EOF


def opn(data, **kw):
    kw.setdefault('logfile', io.StringIO())
    return xlrd.open_workbook(file_contents=data, **kw)


def num(r, c, v, x=0):
    return rec(0x203, struct.pack('<HHHd', r, c, x, v))


def lab(r, c, s, x=0):
    return rec(0x204, struct.pack('<HHH', r, c, x), ustr(s))


def ole(stream, pad=None):
    """A compound file holding the stream as 'Workbook' (standard sectors)."""
    n = max(8, (len(stream) + 511) // 512)
    size = max(len(stream), 4096)
    stream = stream + b'\0' * (n * 512 - len(stream))
    sat = [0xFFFFFFFD, 0xFFFFFFFE] + [i + 1 for i in range(2, n + 1)] + [0xFFFFFFFE]
    sat += [0xFFFFFFFF] * (128 - len(sat))
    hdr = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + bytes(16) + struct.pack('<HHHHH', 0x3E, 3, 0xFFFE, 9, 6) + bytes(10)
    hdr += struct.pack('<IIIIIIIII', 1, 1, 0, 4096, 0xFFFFFFFE, 0, 0xFFFFFFFE, 0, 0) + b'\xff' * (108 * 4)

    def ent(name, typ, child, sid, size):
        nm = name.encode('utf-16le') + b'\0\0'
        return nm.ljust(64, b'\0') + struct.pack('<HBB', len(nm), typ, 1) + struct.pack('<iii', -1, -1, child) + \
            bytes(36) + struct.pack('<iii', sid, size, 0)
    d = ent('Root Entry', 5, 1, -2, 0) + ent('Workbook', 2, -1, 2, size)
    return hdr[:512] + struct.pack('<128I', *sat) + d.ljust(512, b'\0') + stream
