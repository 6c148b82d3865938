"""C12: corrupt sector chains."""
import struct
from . import ole as O

PROP = 'C12'
BOUNDS = ['files of 128-byte sectors; every allocation-table entry of 3 (thorough: 4) data sectors takes every value in '
          '-5..n+1 or a value beyond the table; start sector and recorded sizes of 1 to 4 sectors; '
          'ignore_workbook_corruption on and off',
          'every short allocation table over 3 (thorough: 4) short sectors with the same range of entries, every start '
          'sector, sizes of 1 to 4 short sectors, container of 3 or 4 sectors',
          'the directory chain (start and both links, with 1 or 2 further sectors), entries -3..n+1 (thorough: -5)',
          'every start sector and chain of the container and of the short allocation table over 2 (thorough: 3) sectors; '
          'every start and content of the list of table sectors (3 entries in the header, or 1 with 2 extension sectors '
          'of 2 free entries each)',
          'chains of 60 and 300 sectors, and of 60 short sectors, in order or reversed, with one link at six positions set to '
          'each of about 25 values']
ASSUMES = ['The directory entries themselves are well formed (one root, one stream).']
REACH = ['ok', 'refused', 'ignored']
OPTS = {'max_steps': 8000}


def cases(tier):
    out = []
    th = tier != 'quick'
    for sz in (1, 2, 3, 4):
        for ign in (0, 1):
            out.append({'name': 'std-%d-i%d' % (sz, ign), 'k': 'std', 'sz': sz, 'pool': 4 if th else 3, 'ign': ign,
                        'lo': -5, 'weight': 30})
    for sz in (1, 2, 3, 4):
        out.append({'name': 'short-%d' % sz, 'k': 'short', 'sz': sz, 'pool': 4 if th else 3,
                    'ign': 0, 'lo': -5, 'weight': 20})
    out.append({'name': 'dir', 'k': 'dir', 'ign': 0, 'pool': 2 if th else 1, 'lo': -5 if th else -3, 'weight': 20})
    for n in (0, 1, 2):
        for sz in (0, 1, 2):
            out.append({'name': 'tables-%d-%d' % (n, sz), 'k': 'tables', 'n': n, 'sz': sz, 'ign': 0,
                        'pool': 3 if th else 2, 'lo': -3 if th else -2, 'weight': 20})
    for n in (60, 300):
        for ign in (0, 1):
            out.append({'name': 'long-%d-i%d' % (n, ign), 'k': 'long', 'n': n, 'ign': ign, 'lo': 0, 'weight': 20,
                        'opts': {'max_steps': 200000}})
    out.append({'name': 'longshort', 'k': 'longshort', 'n': 60, 'ign': 0, 'lo': 0, 'weight': 20, 'opts': {'max_steps': 200000}})
    for nx in (0, 1, 2):
        out.append({'name': 'msat-%d' % nx, 'k': 'msat', 'nx': nx, 'ign': 0, 'lo': -5 if th else -2, 'weight': 20})
    return out


def entry(sx, nm, n, lo=-5):
    """A table entry: -5..n+1 or far beyond every table."""
    x = sx.int(nm, lo, n + 2)
    return sx.ite(x == n + 2, 1000, x)


def walk(sx, start, table, limit):
    """Follow a chain.  (sectors, how it ends: 'eoc', 'neg', 'loop' or 'out')
    The values followed become concrete: the table is replaced in place."""
    out = []
    cur = sx.fork(start)
    while True:
        if cur < 0:
            return out, 'eoc' if cur == O.EOC else 'neg'
        if cur in out:
            return out, 'loop'
        if cur >= limit or cur >= len(table):
            return out, 'out'
        out.append(cur)
        table[cur] = cur = sx.fork(table[cur])


def run(sx, X, mem, ign):
    def f():
        cd = X.compdoc.CompDoc(mem, logfile=sx.sink(), ignore_workbook_corruption=bool(ign))
        return cd.locate_named_stream('Workbook')
    return sx.attempt(f)


def verdict(sx, st, r, wellformed, want, ign=0, ignorable=False):
    if st == 'ok':
        if ign:
            sx.reach('ignored')
            if not ignorable:
                sx.check(wellformed, 'a chain that leaves the file or exceeds the size is refused even when '
                                     'corruption is ignored')
        else:
            sx.reach('ok')
            sx.check(wellformed, 'a corrupt chain is never returned as data')
        if wellformed:
            m, off, n = r
            sx.check_same(m[off:off + n], want, 'content of an accepted stream')
    else:
        sx.reach('refused')
        sx.check(not wellformed, 'a well-formed chain is accepted')


def secdata(i, ss):
    return bytes([i + 1]) * ss


def harness(sx, X, case):
    k, ign, lo = case['k'], case['ign'], case['lo']
    if k == 'long':
        return long_chain(sx, X, case)
    if k == 'longshort':
        return long_short(sx, X, case)
    ss = 128
    if k in ('std', 'dir'):
        pool = case.get('pool', 2)
        nsec = 3 + pool
        sat = [entry(sx, 'l%d' % i, nsec, lo) for i in range(3, nsec)]
        sz = case.get('sz', 2)
        size = sz * ss - sx.fork(sx.int('short', 0, 1)) * (ss - 1)
        start = entry(sx, 'start', nsec, lo)
        dsid = 1
        if k == 'dir':
            dsid = entry(sx, 'dsid', nsec, lo)
            dl = [entry(sx, 'dl%d' % i, nsec, lo) for i in range(2)]
        else:
            dl = [2, O.EOC]
        table = [O.SATID] + dl + sat
        full = table + [-1] * (32 - len(table))
        start = sx.fork(start)
        if k == 'dir':
            dsid = sx.fork(dsid)
            dch, dend = walk(sx, dsid, full, nsec)
        if k == 'std' or (dend == 'eoc' and dch[:2] == [1, 2]):
            ch, end = walk(sx, start, full, nsec)
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1), O.dirent(sx, 'Workbook', 2, sid=start, size=size))
        data = [secdata(i, ss) for i in range(nsec)]
        data[0] = O.satsec(sx, full, ss)
        data[1], data[2] = dirs[:128], dirs[128:]
        mem = sx.cat(O.header(sx, ssz=7, sssz=6, dirsid=dsid, msat=[0], minstd=1), *data)
        st, r = run(sx, X, mem, ign)
        claimed = [0]
        good = True
        if k == 'dir':
            good = dend == 'eoc' and not any(s in claimed for s in dch)
            if not good:
                verdict(sx, st, r, False, None)
                return
            if dch[:2] != [1, 2]:
                # some other sectors are read as the directory
                if st == 'ok':
                    sx.check(dch[:2] == [1, 2] or r[0] is None, 'no stream without the directory')
                return
            claimed += dch
        else:
            claimed += [1, 2]
        clean = end == 'eoc' and len(ch) == sz and not any(s in claimed for s in ch)
        want = sx.cat(*[data[s] for s in ch])[:size] if clean else None
        # ignoring corruption forgives re-used sectors only
        verdict(sx, st, r, clean, want, ign, end in ('eoc', 'loop'))
    elif k == 'short':
        pool = case['pool']
        ssat = [entry(sx, 'l%d' % i, pool, lo) for i in range(pool)]
        full = ssat + [-1] * (32 - pool)
        start = entry(sx, 'start', pool, lo)
        sz = case['sz']
        size = sz * 32 - sx.fork(sx.int('short', 0, 1)) * 31
        start = sx.fork(start)
        ch, end = walk(sx, start, full, 32)
        # 0 SAT 1,2 directory 3 SSAT 4 container
        table = [O.SATID, 2, O.EOC, O.EOC, O.EOC]
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1, sid=4, size=pool * 32),
                      O.dirent(sx, 'Workbook', 2, sid=start, size=size))
        cont = [secdata(i, 32) for i in range(4)]
        mem = sx.cat(O.header(sx, ssz=7, sssz=5, dirsid=1, msat=[0], minstd=4096, ssat=3, nssat=1),
                     O.satsec(sx, table, ss), dirs, O.satsec(sx, full, ss), *cont)
        st, r = run(sx, X, mem, ign)
        if st == 'ok':
            sx.reach('ok')
            sx.check(end not in ('loop', 'out'), 'a looping or stray short-sector chain is never returned as data')
            sx.check(not any(s >= pool for s in ch[:sz]), 'a chain that leaves the container is never returned as data')
            if end == 'eoc' and len(ch) == sz:
                m, off, n = r
                sx.check_same(m[off:off + n], sx.cat(*[cont[s] for s in ch])[:size], 'content of a short stream')
        else:
            sx.reach('refused')
            sx.check(not (end == 'eoc' and len(ch) == sz and all(s < pool for s in ch)),
                     'a well-formed short-sector chain is accepted')
    elif k == 'tables':
        # container and short table: symbolic starts and links over the last sectors
        nsec = 3 + case['pool']
        sat = [entry(sx, 'l%d' % i, nsec, lo) for i in range(3, nsec)]
        rs = entry(sx, 'root', nsec, lo)
        sss = entry(sx, 'ssat', nsec, lo)
        n, sz = case['n'], case['sz']
        table = [O.SATID, 2, O.EOC] + sat
        full = table + [-1] * (32 - len(table))
        rs, sss = sx.fork(rs), sx.fork(sss)
        if sz:
            cch, cend = walk(sx, rs, full, nsec)
            tch, tend = walk(sx, sss, full, nsec)
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1, sid=rs, size=sz * ss),
                      O.dirent(sx, 'Workbook', 2, sid=0, size=40))
        data = [O.satsec(sx, full, ss), dirs[:128], dirs[128:]]
        # every sector can serve as container or as table (links 0 -> 1 -> end, then loops)
        for i in range(3, nsec):
            data.append(struct.pack('<32i', *([1, -2, -2, i] + [-2] * 28)))
        mem = sx.cat(O.header(sx, ssz=7, sssz=5, dirsid=1, msat=[0], minstd=4096, ssat=sss, nssat=n), *data)
        st, r = run(sx, X, mem, ign)
        if st == 'ok':
            sx.reach('ok')
            if sz:
                if sx.fork(rs) >= 0:
                    sx.check(cend == 'eoc' and not any(s < 3 for s in cch), 'a corrupt container chain is refused')
                else:
                    sx.check(False, 'a short stream without a container is refused')
                sx.check(tend == 'eoc' and len(tch) == n and not any(s < 3 or s in cch for s in tch),
                         'a corrupt short-table chain is refused')
                m, off, ln = r
                first = data[cch[0]][:64]
                sx.check_same(m[off:off + ln], first[:40], 'content of a short stream')
        else:
            sx.reach('refused')
            if sz:
                sx.check(not (cend == 'eoc' and tend == 'eoc' and len(cch) >= sz and len(tch) == n and n and cch and
                              not any(s < 3 for s in cch + tch) and not any(s in cch for s in tch)),
                         'well-formed tables are accepted')
    else:
        # the list of table sectors
        nx = case['nx']
        nsec = 7
        sat0 = [O.SATID, 2, O.EOC, O.EOC, O.EOC, O.EOC, O.EOC]
        dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1), O.dirent(sx, 'Workbook', 2, sid=3, size=100))
        hm = [entry(sx, 'm%d' % i, nsec, lo) for i in range(3 if nx == 0 else 1)] if nx < 2 or lo < -3 else [0]
        xs = entry(sx, 'x', nsec, lo) if nx else O.EOC
        data = [O.satsec(sx, sat0, ss), dirs[:128], dirs[128:], secdata(3, ss), secdata(4, ss)]
        for i in range(2):
            data.append(sx.cat(sx.pack('<i', entry(sx, 'e%d' % i, nsec, lo)), b'\xff' * (ss - 8),
                               sx.pack('<i', entry(sx, 'n%d' % i, nsec, lo))) if i < max(nx, 1) else secdata(6, ss))
        mem = sx.cat(O.header(sx, ssz=7, dirsid=1, msat=hm, minstd=1, msatx=xs, nmsatx=nx), *data)
        st, r = run(sx, X, mem, ign)
        ref = []
        for m in hm:
            ref.append(sx.fork(m))
        if nx == 0:
            real = [m for m in ref if m not in (-1, -2)]
            # sectors beyond the file are tolerated with a warning
            inside = [m for m in real if 0 <= m < nsec]
            if st == 'ok' and r[0] is not None:
                sx.reach('ok')
                sx.check(all(m >= 0 for m in real), 'an invalid table sector number is refused')
                sx.check(len(set(inside)) == len(inside), 'a table sector listed twice is refused')
                sx.check(not any(m in (1, 2, 3) for m in inside), 'a sector used as table and as data is refused')
            if st == 'exc':
                sx.reach('refused')
                sx.check(real != [0], 'a well-formed document is accepted')
            elif real == [0]:
                sx.check_same(r[0][r[1]:r[1] + r[2]] if r[0] is not None else None, data[3][:100], 'stream content')
        elif st == 'ok' and r[0] is not None:
            sx.reach('ok')
            x = sx.fork(xs)
            if x >= 0:
                sx.check(x < nsec and x not in (1, 2, 3), 'an extension sector outside the file or in use is refused')
        else:
            sx.reach('refused')


def spoil(sx, n, base, more):
    """A chain over sectors base..base+n-1 in order (or in reverse) with one link of a few positions set to any of many values."""
    order = list(range(base, base + n))
    if sx.fork(sx.int('rev', 0, 1)):
        order = order[::-1]
    link = {a: b for a, b in zip(order, order[1:] + [O.EOC])}
    at = sorted({0, 1, n // 2, min(n - 2, 127), n - 2, n - 1})
    at = order[at[sx.fork(sx.int('at', 0, len(at) - 1))]]
    i = order.index(at)
    vals = sorted({-5, -4, -3, -2, -1, 0, 1, base, base + 1, base + n // 2, base + n - 1, base + n, at, link[at], order[i - 1],
                   order[min(i + 2, n - 1)], 127, 128, 255, 1000, 65536, 0x7FFFFFFF} | set(more))
    link[at] = vals[sx.fork(sx.int('val', 0, len(vals) - 1))]
    return order, link


def long_chain(sx, X, case):
    n, ign, ss = case['n'], case['ign'], 512
    nsat = 3
    base = nsat + 1
    total = base + n
    order, link = spoil(sx, n, base, (nsat, total, total + 1))
    table = [O.SATID] * nsat + [O.EOC] + [link[s] for s in range(base, total)]
    table += [-1] * (128 * nsat - len(table))
    size = n * ss - sx.fork(sx.int('short', 0, 1)) * (ss - 1)
    dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1), O.dirent(sx, 'Workbook', 2, sid=order[0], size=size))
    data = [struct.pack('<H', s) * 256 for s in range(total)]
    for i in range(nsat):
        data[i] = struct.pack('<128i', *table[i * 128:(i + 1) * 128])
    data[nsat] = O.pad(sx, dirs, ss)
    mem = sx.cat(O.header(sx, nsat=nsat, dirsid=nsat, msat=list(range(nsat)), minstd=1), *data)
    ch, end = walk(sx, order[0], table, total)
    st, r = run(sx, X, mem, ign)
    clean = end == 'eoc' and len(ch) == n and min(ch) >= base
    want = sx.cat(*[data[s] for s in ch])[:size] if clean else None
    verdict(sx, st, r, clean, want, ign, end in ('eoc', 'loop'))


def long_short(sx, X, case):
    n, tot, ss = case['n'], 64, 512
    order, link = spoil(sx, n, 2, (tot - 1, tot))
    full = [link.get(s, O.EOC) for s in range(tot)] + [-1] * (128 - tot)
    size = n * 64 - sx.fork(sx.int('short', 0, 1)) * 63
    # 0 table, 1 directory, 2 short table, 3.. container of 8 sectors
    table = [O.SATID, O.EOC, O.EOC] + list(range(4, 11)) + [O.EOC]
    dirs = sx.cat(O.dirent(sx, 'Root Entry', 5, root=1, sid=3, size=tot * 64),
                  O.dirent(sx, 'Workbook', 2, sid=order[0], size=size))
    cont = [bytes([s + 1]) * 64 for s in range(tot)]
    mem = sx.cat(O.header(sx, dirsid=1, msat=[0], minstd=4096, ssat=2, nssat=1), O.satsec(sx, table, ss), O.pad(sx, dirs, ss),
                 struct.pack('<128i', *full), *cont)
    ch, end = walk(sx, order[0], full, 128)
    st, r = run(sx, X, mem, 0)
    if st == 'ok':
        sx.reach('ok')
        sx.check(end not in ('loop', 'out'), 'a looping or stray short-sector chain is never returned as data')
        sx.check(not any(s >= tot for s in ch[:n]), 'a chain that leaves the container is never returned as data')
        if end == 'eoc' and len(ch) == n:
            m, off, k = r
            sx.check_same(m[off:off + k], sx.cat(*[cont[s] for s in ch])[:size], 'content of a short stream')
    else:
        sx.reach('refused')
        sx.check(not (end == 'eoc' and len(ch) == n and all(s < tot for s in ch)), 'a well-formed short-sector chain is accepted')
