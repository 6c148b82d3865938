"""Builder of OLE2 compound files from explicit sectors."""
import struct

SIG = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"
EOC, FREE, SATID, MSATID = -2, -1, -3, -4


def header(sx, ssz=9, sssz=6, nsat=1, dirsid=0, minstd=4096, ssat=EOC, nssat=0, msatx=EOC, nmsatx=0, msat=()):
    head = SIG + bytes(16) + struct.pack('<HHHHH', 0x3E, 3, 0xFFFE, ssz, sssz) + bytes(10)
    out = [head, sx.pack('<iiIiiiii', nsat, dirsid, 0, minstd, ssat, nssat, msatx, nmsatx)]
    out.append(sx.pack('<%di' % len(msat), *msat) if msat else b'')
    out.append(b'\xff\xff\xff\xff' * (109 - len(msat)))
    return sx.cat(*out)


def dirent(sx, name, etype, left=-1, right=-1, root=-1, sid=EOC, size=0):
    nm = name.encode('utf-16-le') + b'\0\0' if name else b''
    body = nm + bytes(64 - len(nm))
    return sx.cat(body, struct.pack('<HBB', len(nm), etype, 1), sx.pack('<iii', left, right, root), bytes(36),
                  sx.pack('<iiI', sid, size, 0))


def pad(sx, b, n, fill=b'\0'):
    return sx.cat(b, fill * (n - len(b)))


def satsec(sx, entries, ss):
    b = sx.cat(*[sx.pack('<i', e) for e in entries]) if entries else b''
    return sx.cat(b, b'\xff' * (ss - len(b)))


def wrap(sx, stream, name='Workbook', ss=512, order=None):
    """A simple well-formed compound file around a long stream."""
    n = len(stream)
    size = max(n, 4096)
    stream = sx.cat(stream, bytes(-n % ss if n >= 4096 else 4096 - n))
    k = len(stream) // ss
    ent = ss // 4
    nsat = 1
    while nsat * ent < k + 1 + nsat:
        nsat += 1
    total = k + 1 + nsat
    order = order or list(range(k))
    sat = [None] * total
    # sectors: SAT..., directory, data
    for i in range(nsat):
        sat[i] = SATID
    sat[nsat] = EOC
    base = nsat + 1
    for a, b in zip(order, order[1:] + [None]):
        sat[base + a] = EOC if b is None else base + b
    dirs = sx.cat(dirent(sx, 'Root Entry', 5, root=1), dirent(sx, name, 2, sid=base + order[0], size=size))
    secs = [satsec(sx, sat[i * ent:(i + 1) * ent], ss) for i in range(nsat)]
    secs.append(pad(sx, dirs, ss))
    data = [None] * k
    for pos, a in enumerate(order):
        data[a] = stream[pos * ss:(pos + 1) * ss]
    return sx.cat(header(sx, nsat=nsat, dirsid=nsat, msat=list(range(nsat)), ssz={512: 9, 4096: 12}[ss]), *(secs + data))
