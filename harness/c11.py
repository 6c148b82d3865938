"""C11: streams of well-formed compound documents."""
import struct
from . import ole as O

PROP = 'C11'
BOUNDS = ['one standard stream of 2 to 4 (thorough: 5) sectors in any of 4 (thorough: 6) data sectors: every allocation '
          'table over these sectors that links the start to an end-of-chain marker (links symbolic), every '
          'recorded size that fits the chain; sector sizes 512 and 128 (thorough: 4096)',
          'one short stream of 1 to 3 short sectors among 4: every short allocation table linking them, every size, '
          'the container itself in 1 or 2 scattered standard sectors',
          'allocation table in 1 or 2 sectors listed in the header or through 1 or 2 extension sectors; directory '
          'of 1 to 8 entries over 1 or 2 scattered sectors, tree shapes with the stream at every position, '
          'storages, name case variants, 260 directory entries; streams of 40 to 6600 sectors (contiguous, reversed, scattered, in runs; '
          'up to 207 table sectors and four extension sectors, in front or between) and of 40 or 63 short sectors among 300; empty streams; absent streams']
ASSUMES = ['The sectors of the stream, the tables and the directory are disjoint and lie in the file.']
REACH = ['std', 'short', 'absent', 'contiguous', 'fragmented', 'dir', 'msatx', 'empty', 'path', 'long']
OPTS = {'max_steps': 8000000}


def cases(tier):
    out = []
    th = tier != 'quick'
    for ssz in (9, 7) + ((12,) if th else ()):
        for n in (1, 2, 3, 4) + ((5,) if th else ()):
            pool = 4 if not th else 6 if n < 5 else 5
            out.append({'name': 'std-%d-%d' % (ssz, n), 'k': 'std', 'ssz': ssz, 'n': n, 'pool': pool, 'weight': 4 ** n})
    for n in (1, 2, 3) + ((4,) if th else ()):
        for cont in (1, 2):
            out.append({'name': 'short-%d-%d' % (n, cont), 'k': 'short', 'n': n, 'cont': cont, 'weight': 4 ** n})
    for shape in range(12):
        out.append({'name': 'dir-%d' % shape, 'k': 'dir', 'shape': shape})
    for m in range(6):
        out.append({'name': 'msat-%d' % m, 'k': 'msat', 'm': m})
    out.append({'name': 'manydirs', 'k': 'manydirs'})
    for ssz, n in ((9, 40), (9, 300), (9, 1000), (7, 300), (7, 6600)):
        out.append({'name': 'long-%d-%d' % (ssz, n), 'k': 'long', 'ssz': ssz, 'n': n, 'weight': 30})
    for n in (63, 40):
        out.append({'name': 'longshort-%d' % n, 'k': 'longshort', 'n': n, 'weight': 30})
    for z in range(3):
        out.append({'name': 'empty-%d' % z, 'k': 'empty', 'z': z})
    return out


def both(sx, X, mem, qname, want, ncontig=None):
    """Both ways of asking for a stream give exactly `want` (None: absent)."""
    st, cd = sx.attempt(X.compdoc.CompDoc, mem, logfile=sx.sink())
    sx.check(st == 'ok', 'the compound document is accepted')
    if st != 'ok':
        return
    st, r = sx.attempt(cd.locate_named_stream, qname)
    sx.check(st == 'ok', 'locate_named_stream succeeds')
    if st != 'ok':
        return
    m, off, n = r
    if want is None:
        sx.reach('absent')
        sx.check_same((m, off, n), (None, 0, 0), 'absent stream')
    else:
        sx.check_same(n, len(want), 'recorded size')
        sx.check_same(m[off:off + n], want, 'content of the located stream')
        sx.reach('contiguous' if len(m) == len(mem) else 'fragmented')
    cd = X.compdoc.CompDoc(mem, logfile=sx.sink())
    st, r = sx.attempt(cd.get_named_stream, qname)
    sx.check(st == 'ok', 'get_named_stream succeeds')
    if st == 'ok':
        sx.check_same(r, want, 'content of the stream')


def chain(sx, nm, n, pool, base):
    """A symbolic start and table over sectors base..base+pool-1 forming a chain of n sectors.
    Returns (start, table entries, order of sectors)."""
    sat = [sx.int('%s%d' % (nm, i), -1, base + pool - 1) for i in range(pool)]
    start = sx.int(nm + 's', base, base + pool - 1)
    order = []
    cur = sx.fork(start)
    for i in range(n):
        order.append(cur - base)
        if i < n - 1:
            nxt = sx.fork(sat[cur - base])
            sx.assume(nxt >= base and nxt - base not in order)
            cur = nxt
    sat[cur - base] = O.EOC
    return start, sat, order


def sectors(sx, nm, count, size):
    return [sx.cat(sx.bytes('%s%d_' % (nm, i), 2), bytes([i + 1]) * (size - 4), sx.bytes('%s%dz' % (nm, i), 2))
            for i in range(count)]


def harness(sx, X, case):
    k = case['k']
    if k == 'std':
        sx.reach('std')
        ssz, n, pool = case['ssz'], case['n'], case['pool']
        ss = 1 << ssz
        ndir = max(1, 256 // ss)
        base = 1 + ndir
        start, sat, order = chain(sx, 'l', n, pool, base)
        data = sectors(sx, 'd', pool, ss)
        # recorded size: the last sector used from 1 byte to all of it
        last = sx.fork(sx.int('last', 0, 3))
        size = (n - 1) * ss + (1, 2, ss - 1, ss)[last]
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1), O.dirent(sx, 'Workbook', 2, sid=start, size=size))
        full = [O.SATID] + [i + 2 if i < ndir - 1 else O.EOC for i in range(ndir)] + sat
        dsec = [dirs[i * ss:(i + 1) * ss] if (i + 1) * ss <= len(dirs) else O.pad(sx, dirs[i * ss:], ss)
                for i in range(ndir)]
        mem = sx.cat(O.header(sx, ssz=ssz, sssz=6, dirsid=1, msat=[0], minstd=1),
                     O.satsec(sx, full, ss), *(dsec + data))
        want = sx.cat(*[data[i] for i in order])[:size]
        both(sx, X, mem, 'Workbook', want)
    elif k == 'short':
        sx.reach('short')
        n, cont = case['n'], case['cont']
        start, ssat, order = chain(sx, 'l', n, 4, 0)
        secs = sectors(sx, 'd', 4, 64)
        last = sx.fork(sx.int('last', 0, 3))
        size = (n - 1) * 64 + (1, 2, 63, 64)[last]
        # 0 SAT, 1 dir, 2 SSAT, container in 4 (and 3, where the container's first part is at 4)
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1, sid=4, size=256 if cont == 1 else 512 + 256),
                      O.dirent(sx, 'Workbook', 2, sid=start if cont == 1 else start + 8, size=size))
        cnt = sx.cat(*secs)
        if cont == 1:
            sat = [O.SATID, O.EOC, O.EOC, O.FREE, O.EOC]
            d3, d4 = bytes(512), O.pad(sx, cnt, 512)
            st = ssat
        else:
            sat = [O.SATID, O.EOC, O.EOC, O.EOC, 3]
            d4, d3 = b'\x55' * 512, O.pad(sx, cnt, 512)
            st = [-1] * 8 + [sx.ite(x >= 0, x + 8, x) for x in ssat]
        mem = sx.cat(O.header(sx, dirsid=1, msat=[0], ssat=2, nssat=1), O.satsec(sx, sat, 512), O.pad(sx, dirs, 512),
                     O.satsec(sx, st, 512), d3, d4)
        both(sx, X, mem, 'Workbook', sx.cat(*[secs[i] for i in order])[:size])
    elif k == 'long':
        long_stream(sx, X, case)
    elif k == 'longshort':
        long_short(sx, X, case)
    elif k == 'dir':
        directory(sx, X, case['shape'])
    elif k == 'msat':
        msat(sx, X, case['m'])
    elif k == 'manydirs':
        # 300 entries in a right-leaning but shallow tree: entry 290 is the stream
        ents = [O.dirent(sx, 'Root Entry', 5, root=1)]
        nent = 300

        def left(i):
            return 2 * i if 2 * i < nent else -1

        def right(i):
            return 2 * i + 1 if 2 * i + 1 < nent else -1
        at = (5, 249, 250, 255, 290)[sx.fork(sx.int('at', 0, 4))]
        for i in range(1, nent):
            ents.append(O.dirent(sx, 'Workbook' if i == at else 'x%d' % i, 2, left(i), right(i),
                                 sid=1 if i == at else O.EOC, size=600 if i == at else 0))
        nd = nent // 4
        sat = [O.SATID, 2, O.EOC] + [i + 4 for i in range(nd - 1)] + [O.EOC]
        data = sectors(sx, 'd', 2, 512)
        mem = sx.cat(O.header(sx, dirsid=3, msat=[0], minstd=1), O.satsec(sx, sat, 512), *(data + ents))
        both(sx, X, mem, 'Workbook', sx.cat(*data)[:600])
    elif k == 'empty':
        sx.reach('empty')
        z = case['z']
        sid = (O.EOC, O.FREE, O.EOC)[z]
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1, sid=sid, size=0),
                      O.dirent(sx, 'Workbook', 2, sid=2, size=700, right=2),
                      O.dirent(sx, 'Empty', 2, sid=O.EOC, size=0))
        data = sectors(sx, 'd', 2, 512)
        mem = sx.cat(O.header(sx, dirsid=1, msat=[0], minstd=1 if z < 2 else 512), O.satsec(sx, [O.SATID, O.EOC, 3, O.EOC], 512),
                     O.pad(sx, dirs, 512), *data)
        both(sx, X, mem, 'Workbook', sx.cat(*data)[:700])
        if z == 2:
            both(sx, X, mem, 'Empty', b'')


SHAPES = [
    # entries: (name, etype, left, right, root); the wanted stream is the one named like Workbook
    [('Workbook', 2, -1, -1, -1)],
    [('WORKBOOK', 2, 2, -1, -1), ('a', 2, -1, -1, -1)],
    [('a', 2, -1, 2, -1), ('workBook', 2, -1, -1, -1)],
    [('a', 2, 2, 3, -1), ('b', 2, -1, -1, -1), ('Workbook', 2, -1, -1, -1)],
    [('a', 2, 2, 3, -1), ('Workbook', 2, -1, -1, -1), ('c', 2, -1, -1, -1)],
    [('store', 1, -1, 2, 3), ('Workbook', 2, -1, -1, -1), ('Workbook', 2, -1, -1, -1)],
    [('store', 1, 3, -1, 2), ('Other', 2, -1, -1, -1), ('Workbook', 2, -1, -1, -1)],
    [('a', 2, 2, -1, -1), ('b', 2, 3, -1, -1), ('c', 2, -1, 4, -1), ('Workbook', 2, -1, -1, -1)],
    [('a', 2, 2, 3, -1), ('b', 2, 4, 5, -1), ('c', 2, 6, 7, -1), ('d', 2, -1, -1, -1), ('Workbook', 2, -1, -1, -1),
     ('f', 2, -1, -1, -1), ('g', 2, -1, -1, -1)],
    # absent
    [('Workboo', 2, -1, -1, -1)],
    [('store', 1, -1, -1, 2), ('Workbook', 2, -1, -1, -1)],
    [('Book', 2, 2, -1, -1), ('Workbook2', 2, -1, -1, -1)],
]
WANT = [1, 1, 2, 3, 2, 2, 3, 4, 5, None, None, None]


def directory(sx, X, shape):
    sx.reach('dir')
    ents = SHAPES[shape]
    want = WANT[shape]
    # two directory sectors, the second stored before the first
    dirs = [O.dirent(sx, 'Root Entry', 5, root=1)]
    data = {}
    for i, (nm, et, l, r, root) in enumerate(ents):
        j = i + 1
        sid, size = O.EOC, 0
        if et == 2:
            sid, size = 2 + j, 512
            data[2 + j] = sx.cat(sx.bytes('e%d' % j, 2), bytes([j]) * 510)
        dirs.append(O.dirent(sx, nm, et, l, r, root, sid, size))
    while len(dirs) < 8:
        dirs.append(bytes(64) + struct.pack('<HBBiii', 0, 0, 0, -1, -1, -1) + bytes(48))
    n = 2 + 8
    sat = [O.SATID, O.EOC, 1] + [O.EOC] * (n - 3)
    secs = [O.satsec(sx, sat, 512), sx.cat(*dirs[4:]), sx.cat(*dirs[:4])]
    for s in range(3, n):
        secs.append(data.get(s, bytes(512)))
    mem = sx.cat(O.header(sx, dirsid=2, msat=[0], minstd=1), *secs)
    both(sx, X, mem, 'Workbook', data[2 + want] if want else None)
    if shape in (5, 10):
        sx.reach('path')
        both(sx, X, mem, 'store/Workbook', data[2 + (3 if shape == 5 else 2)])
        both(sx, X, mem, 'STORE/nope', None)


def msat(sx, X, m):
    """The allocation table over two sectors, listed in the header or in extension sectors
    (128-byte sectors: 32 entries each, the last of an extension sector being its link)."""
    sx.reach('msatx')
    ss = 128
    nsec = 45
    a, b = 3, 40                    # the two table sectors
    d0, d1 = 5, 6                   # directory
    x0, x1 = 42, 2                  # extension sectors
    s0, s1, s2 = 39, 8, 44          # the stream
    sat = [-1] * 64
    sat[a] = sat[b] = O.SATID
    sat[d0], sat[d1] = d1, O.EOC
    sat[s0], sat[s1], sat[s2] = s1, s2, O.EOC
    sat[x0] = sat[x1] = O.MSATID
    secs = [bytes([i]) * ss for i in range(nsec)]
    first, second = O.satsec(sx, sat[:32], ss), O.satsec(sx, sat[32:], ss)
    secs[a], secs[b] = first, second
    hdr = dict(nsat=2, dirsid=d0, ssz=7, minstd=1)
    if m == 0:
        hdr['msat'] = [a, b]
    elif m == 1:
        hdr['msat'] = [-1, a, -2, b]
    elif m == 2:
        hdr.update(msat=[a], msatx=x0, nmsatx=1)
        secs[x0] = struct.pack('<32i', b, *([-1] * 30 + [O.EOC]))
    elif m == 3:
        hdr.update(msat=[], msatx=x0, nmsatx=1)
        secs[x0] = struct.pack('<32i', a, -1, b, *([-1] * 28 + [O.FREE]))
    elif m == 4:
        hdr.update(msat=[], msatx=x0, nmsatx=2)
        secs[x0] = struct.pack('<32i', *([-1] * 30 + [a, x1]))
        secs[x1] = struct.pack('<32i', b, *([-1] * 30 + [O.EOC]))
    else:
        hdr['msat'] = [b, a]
        secs[a], secs[b] = second, first
    data = [sx.cat(sx.bytes('s%d' % i, 3), bytes([100 + i]) * (ss - 3)) for i in range(3)]
    secs[s0], secs[s1], secs[s2] = data
    size = sx.fork(sx.int('size', 2 * ss + 1, 2 * ss + 3))
    dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1), O.dirent(sx, 'Workbook', 2, sid=s0, size=size))
    secs[d0], secs[d1] = dirs[:128], dirs[128:]
    if m == 5:
        # table order b, a: the first table sector in the list describes sectors 0..31
        secs[a], secs[b] = second, first
    both(sx, X, sx.cat(O.header(sx, **hdr), *secs), 'Workbook', sx.cat(*data)[:size])


def layout(sx, n):
    """Where the i-th sector of a stream of n sectors stands."""
    shape = sx.fork(sx.int('shape', 0, 5))
    if shape == 0:
        return list(range(n))
    if shape == 1:
        return list(range(n))[::-1]
    if shape == 2:
        return [(i * 7) % n if n % 7 else (i * 11) % n for i in range(n)]
    k = (1, 2, n // 2, n - 1)[sx.fork(sx.int('cut', 0, 3))]
    if shape == 3:                      # two runs exchanged
        return list(range(n - k, n)) + list(range(n - k))
    if shape == 4:                      # in runs of k, last run first
        out = []
        for j in range(0, n, k):
            out = list(range(j, min(j + k, n))) + out
        return out
    return list(range(k)) + list(range(k, n))[::-1]


def content(sx, n, ss):
    """n sectors with their number; first byte and last byte of some of them arbitrary"""
    out = []
    for i in range(n):
        b = struct.pack('<H', i) * (ss // 2 - 1)
        if i in (0, 1, n // 2, n - 2, n - 1):
            out.append(sx.cat(sx.bytes('a%d' % i, 1), b, sx.bytes('z%d' % i, 1)))
        else:
            out.append(b'\0' + b + b'\0')
    return out


def long_stream(sx, X, case):
    sx.reach('long')
    ssz, n = case['ssz'], case['n']
    ss = 1 << ssz
    ent = ss // 4
    order = layout(sx, n)
    cut = sx.fork(sx.int('last', 0, 2))
    size = n * ss - (0, 1, ss - 1)[cut]
    ndir = max(1, 256 // ss)
    spread = sx.fork(sx.int('spread', 0, 1))          # table sectors between the data or in front
    nsat = next(m for m in range(1, 9999) if m * ent >= n + ndir + m + max(0, (m - 109 + ent - 2) // (ent - 1)))
    nx = max(0, (nsat - 109 + ent - 2) // (ent - 1))
    # sector kinds in file order
    kinds = [('s', i) for i in range(nsat)] + [('x', i) for i in range(nx)] + [('d', i) for i in range(ndir)]
    data = [('w', i) for i in range(n)]
    if spread:
        step = max(1, n // len(kinds))
        for j, x in enumerate(kinds):
            data.insert(j * (step + 1), x)
        kinds = data
    else:
        kinds += data
    pos = {x: i for i, x in enumerate(kinds)}
    sat = [O.FREE] * len(kinds)
    for (t, i), p in pos.items():
        if t == 's':
            sat[p] = O.SATID
        elif t == 'x':
            sat[p] = O.MSATID
        elif t == 'd':
            sat[p] = pos['d', i + 1] if i + 1 < ndir else O.EOC
    at = {}
    for i in range(n):
        p = pos['w', order[i]]
        at[p] = i
        sat[p] = pos['w', order[i + 1]] if i + 1 < n else O.EOC
    dirs = O.pad(sx, sx.cat(O.dirent(sx, 'Root Entry', 5, root=1),
                            O.dirent(sx, 'Workbook', 2, sid=pos['w', order[0]], size=size)), ndir * ss)
    secs = content(sx, n, ss)
    where = [pos['s', i] for i in range(nsat)]
    out = []
    for p, (t, i) in enumerate(kinds):
        if t == 'w':
            out.append(secs[at[p]])
        elif t == 'd':
            out.append(dirs[i * ss:(i + 1) * ss])
        elif t == 's':
            e = sat[i * ent:(i + 1) * ent]
            out.append(struct.pack('<%di' % ent, *(e + [O.FREE] * (ent - len(e)))))
        else:
            e = where[109 + i * (ent - 1):109 + (i + 1) * (ent - 1)]
            nxt = pos['x', i + 1] if i + 1 < nx else O.EOC
            out.append(struct.pack('<%di' % ent, *(e + [O.FREE] * (ent - 1 - len(e)) + [nxt])))
    mem = sx.cat(O.header(sx, ssz=ssz, sssz=6, nsat=nsat, dirsid=pos['d', 0], msat=where[:109], minstd=1,
                          msatx=pos['x', 0] if nx else O.EOC, nmsatx=nx), *out)
    both(sx, X, mem, 'Workbook', sx.cat(*secs)[:size])


def long_short(sx, X, case):
    """A short stream of n short sectors among 300, the table of short sectors and their container in several sectors."""
    sx.reach('long')
    n, tot = case['n'], 300
    order = [tot - n + i for i in layout(sx, n)]
    secs = content(sx, n, 64)
    size = n * 64 - (0, 1, 63)[sx.fork(sx.int('last', 0, 2))]
    ssat = [O.EOC] * (tot - n) + [O.EOC] * n
    data = [b'\xee' * 64] * tot
    for i in range(n):
        data[order[i]] = secs[i]
        ssat[order[i]] = order[i + 1] if i + 1 < n else O.EOC
    nc, ns = (tot + 7) // 8, 3
    back = sx.fork(sx.int('back', 0, 1))
    # 0 table, 1 directory, 2.. short table, container (forwards or backwards)
    cont = list(range(2 + ns, 2 + ns + nc))
    if back:
        cont = cont[::-1]
    sat = [O.SATID, O.EOC] + [3, 4, O.EOC] + [0] * nc
    for a, b in zip(cont, cont[1:] + [O.EOC]):
        sat[a] = b
    dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1, sid=cont[0], size=tot * 64),
                  O.dirent(sx, 'Workbook', 2, sid=order[0], size=size))
    whole = sx.cat(*(data + [bytes(nc * 512 - tot * 64)]))
    csec = {c: whole[i * 512:(i + 1) * 512] for i, c in enumerate(cont)}
    short = [struct.pack('<128i', *(ssat + [O.FREE] * 84)[i * 128:(i + 1) * 128]) for i in range(ns)]
    mem = sx.cat(O.header(sx, dirsid=1, msat=[0], ssat=2, nssat=ns), O.satsec(sx, sat, 512), O.pad(sx, dirs, 512),
                 *(short + [csec[c] for c in sorted(csec)]))
    both(sx, X, mem, 'Workbook', sx.cat(*secs)[:size])
