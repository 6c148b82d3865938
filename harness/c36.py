"""C36: dump and count_records account for every byte of the stream."""
import struct
from . import biff as B
from . import ole
from . import osfake

PROP = 'C36'
BOUNDS = ['one empty record of any type (16 bits); a record of 1, 2, 15, 16, 17, 32 or 33 (thorough: 1 to 40) content bytes, '
          'one of them arbitrary at an arbitrary position; with and without offsets',
          'streams of one record (normal, empty, unknown, or four zero bytes), 0, 2, 3, 4, 6, 7 or 8 (thorough: 0 to 13) zero bytes, and a last '
          'record followed by 0 to 7 bytes, zero or not, that claims any (16-bit) length',
          'every byte string of 1 to 5 (thorough: 6) bytes (record type one of 0, 0A, 203, 1C1)', 'bare files and streams at an offset inside an OLE2 file',
          'counting: three records, one of any type and two of the types EOF, BOF (three opcodes), unknown, or the same']
ASSUMES = ['A record named "BOF" may have any of its opcodes (2/4/8/09): the counter tallies by name.',
           'The file system and mmap are modelled (open, seek, tell, read, mmap).']
REACH = ['known', 'unknown', 'zeros', 'misc', 'too large', 'offset', 'numbered', 'unnumbered', 'count']
OPTS = {'max_steps': 400000}


def cases(tier):
    out = []
    for un in (0, 1):
        for n in range(41) if tier == 'thorough' else (0, 1, 2, 15, 16, 17, 32, 33):
            out.append({'name': 'op%d-%d' % (n, un), 'k': 'op', 'n': n, 'un': un, 'weight': 5})
        for z in range(0, 14) if tier == 'thorough' else (2, 3, 6) if un else (0, 2, 3, 4, 7, 8):
            out.append({'name': 'mix-%d-%d' % (z, un), 'k': 'mix', 'z': z, 'un': un, 'weight': 4})
    for n in range(1, 7 if tier == 'thorough' else 6):
        out.append({'name': 'free-%d' % n, 'k': 'free', 'n': n, 'un': 0, 'weight': 6})
    out.append({'name': 'ole', 'k': 'ole', 'un': 0, 'weight': 3})
    for i in range(5):
        out.append({'name': 'count-%d' % i, 'k': 'count', 'i': i, 'weight': 4})
    out.append({'name': 'countz', 'k': 'countz', 'weight': 4})
    out.append({'name': 'countfree', 'k': 'countfree', 'weight': 4})
    return out


def name_of(X, op):
    return X.biffh.biff_rec_name_dict.get(op)


def hexlines(sx, data, at, un):
    out = []
    for i in range(0, len(data), 16):
        chunk = data[i:i + 16]
        hx = ''.join(['%02x ' % b for b in chunk])
        tx = ''.join(['~' if b == 0 else chr(b) if b >= 32 and b <= 126 else '?' for b in chunk])
        hx = hx + ' ' * (48 - len(hx))
        out.append(('' if un else '%5d: ' % (at + i)) + '     ' + hx + ' ' + tx)
    return out


def expected(sx, X, data, un):
    """The dump of a stream: every byte is in a record, in a run of zero bytes, or in the tail."""
    n = len(data)
    pos, out, z = 0, [], 0

    def pre(p):
        return '' if un else '%5d: ' % p
    length = 0
    while n - pos >= 4:
        rc = data[pos] | data[pos + 1] << 8
        length = data[pos + 2] | data[pos + 3] << 8
        if rc == 0 and length == 0:
            z += 4
            pos += 4
            continue
        if z:
            sx.reach('zeros')
            out.append(pre(pos - z) + '---- %d zero bytes skipped ----' % z)
            z = 0
        nm = name_of(X, rc)
        sx.reach('unknown' if nm is None else 'known')
        out.append(pre(pos) + '%04x %s len = %04x (%d)' % (rc, '<UNKNOWN>' if nm is None else nm, length, length))
        length = sx.fork(sx.ite(length > n - pos - 4, n - pos - 4 + 1, length))
        out += hexlines(sx, data[pos + 4:min(n, pos + 4 + length)], pos + 4, un)
        pos += 4 + length
    if z and pos < n and all(b == 0 for b in data[pos:]):
        z += n - pos
        pos = n
    if z:
        sx.reach('zeros')
        out.append(pre(pos - z) + '---- %d zero bytes skipped ----' % z)
    if pos < n:
        sx.reach('misc')
        out.append(pre(pos) + '---- Misc bytes at end ----')
        out += hexlines(sx, data[pos:], pos, un)
    elif pos > n:
        sx.reach('too large')
        out.append(None)
    return out


def run_dump(sx, X, content, un):
    env = osfake.Env(sx, X, {'f.xls': content})
    sink = sx.text_sink()
    X.xlrd.dump('f.xls', sink, bool(un))
    return sink.text()


def compare(sx, X, data, text, un):
    sx.reach('unnumbered' if un else 'numbered')
    want = expected(sx, X, data, un)
    over = bool(want) and want[-1] is None
    if over:
        want = want[:-1]
    exp = ''.join([w + '\n' for w in want])
    if over:
        sx.check(len(text) > len(exp), 'overlong last record reported')
        sx.check_same(text[:len(exp)], exp, 'dump')
    else:
        sx.check_same(text, exp, 'dump')


def harness(sx, X, case):
    k = case['k']
    un = case.get('un')
    if k == 'op':
        n = case['n']
        body = bytes((i * 7 + 1) & 255 for i in range(n))
        op = (0x203, 0x1C1)[sx.fork(sx.int('which', 0, 1))]
        if n:
            at = sx.fork(sx.int('at', 0, n - 1))
            body = sx.cat(body[:at], sx.bytes('b', 1), body[at + 1:])
        else:
            op = sx.u16('op')
            sx.assume(op != 0)
        data = sx.cat(sx.pack('<HH', op, n), body)
        compare(sx, X, data, run_dump(sx, X, data, un), un)
    elif k == 'mix':
        op1, n1 = ((0x203, 17), (0, 4), (0x7E1, 0), (0x203, 1))[sx.fork(sx.int('r1', 0, 3 if case['z'] % 4 else 1))]
        r1 = B.rec(sx, op1, bytes([0, 0, 0, 0] + [65] * 13)[:n1])
        t = sx.fork(sx.int('t', 0, 7))
        last = sx.cat(sx.pack('<HH', 0x0A, sx.u16('claimed')), (bytes(t), bytes(range(30, 30 + t)))[sx.fork(sx.int('tz', 0, 1))])
        data = sx.cat(r1, bytes(case['z']), last)
        compare(sx, X, data, run_dump(sx, X, data, un), un)
    elif k == 'free':
        data = sx.bytes('d', case['n'])
        if case['n'] >= 4:
            op = (0, 0x0A, 0x203, 0x1C1)[sx.fork(sx.int('which', 0, 3))]
            data = sx.cat(struct.pack('<H', op), data[2:])
        compare(sx, X, data, run_dump(sx, X, data, un), un)
    elif k == 'ole':
        sx.reach('offset')
        a = sx.bytes('a', 2)
        data = sx.cat(B.rec(sx, 0x809, b'\0\6\5\0' + bytes(12)), B.rec(sx, 0x1C1, a), B.rec(sx, 0x203, bytes(range(20))),
                      B.rec(sx, 0x3C, bytes([65]) * 4020), B.rec(sx, 0x0A, b''))
        data = sx.cat(data, bytes(4096 - len(data)))
        text = run_dump(sx, X, ole.wrap(sx, data), un)
        compare(sx, X, data, text, un)
    else:
        counts(sx, X, case)


def counts(sx, X, case):
    sx.reach('count')
    k = case['k']
    if k == 'count':
        op = sx.u16('op')
        i = case['i']
        second = (0x0A, 0x809, 0x209, 0x1C1, op)[i]
        third = (0x0A, 0x409, op, 0x1C1, op)[i]
        ops = [op, second, third]
        n = sx.fork(sx.int('n', 1, 3))
        data = sx.cat(*[sx.cat(sx.pack('<HH', o, m), bytes([7]) * m) for o, m in zip(ops, (n, 0, 5 - n))])
        if i == 4:
            sx.assume(op != 0)
    elif k == 'countz':
        z = sx.fork(sx.int('z', 0, 3))
        t = sx.fork(sx.int('t', 0, 6))
        ops = [0x203, 0x0A]
        data = sx.cat(B.rec(sx, 0x203, b'\1\2'), bytes(4 * z), sx.pack('<HH', 0x0A, 1), sx.bytes('d', 1), bytes(t))
    else:
        n = sx.fork(sx.int('n', 1, 6))
        data = sx.bytes('d', n)
        ops = [data[0] | data[1] << 8] if n >= 4 else []
        if n >= 4:
            sx.assume(data[2] | data[3] << 8 != 0)
        z = 0
    env = osfake.Env(sx, X, {'f.xls': data})
    sink = sx.text_sink()
    X.xlrd.count_records('f.xls', sink)
    text = sink.text()
    tally = {}
    for o in ops:
        nm = name_of(X, o)
        if nm is None:
            nm = 'Unknown_0x%04X' % o
        tally[nm] = tally.get(nm, 0) + 1
    if k == 'countz' and z:
        tally['<Dummy (zero)>'] = z
    lines = ['%8d %s\n' % (c, nm) for nm, c in tally.items()]
    sx.check_same(len(text), sum([len(x) for x in lines]), 'length of the summary')
    for x in lines:
        sx.check(x in text, 'tally line')
