"""C29: files and memory maps are always closed."""
import struct
import zipfile
from . import biff as B
from . import c28
from . import c30
from . import ole
from . import osfake
from . import rich

PROP = 'C29'
BOUNDS = ['workbooks with one of everything (versions 8, 7, 4W, 4, 2; bare, contiguous and fragmented OLE2), mapped or '
          'read, on demand or not, with and without formatting info',
          'an I/O error in any one call (open, seek, tell, fileno, mmap, read)',
          'the file truncated to any length, or any one byte replaced by 00 or FF (thorough: also 7F or its complement)',
          'empty, missing, encrypted, non-BIFF and zip files; OLE2 files without a workbook stream']
ASSUMES = ['The file system, mmap and zipfile are modelled: each open, map and close is recorded, and a closed one cannot be used.']
REACH = ['io error', 'truncated', 'damaged', 'opened', 'failed', 'on demand', 'with block', 'refused', 'content unchanged']
OPTS = {'max_steps': 3000000, 'fanout': 8192}


def cases(tier):
    out = []
    q = tier == 'quick'
    for bv in (80, 70, 45, 40, 21):
        for form in ('bare', 'ole', 'frag'):
            if q and form != 'bare' and bv in (45, 40, 21) or bv < 45 and form == 'frag':
                continue
            for mm in (0, 1):
                out.append({'name': 'io-%d-%s-%d' % (bv, form, mm), 'k': 'io', 'bv': bv, 'form': form, 'mm': mm, 'weight': 2})
            for od in (0, 1):
                if q and (bv < 70 and od or form == 'frag'):
                    continue
                for part in range(4):
                    if q and bv == 70 and form == 'ole':
                        continue
                    c = {'bv': bv, 'form': form, 'mm': 1, 'od': od, 'weight': 6, 'part': part, 'vals': 2 if q else 4}
                    out.append(dict(c, name='trunc-%d-%s-%d-%d' % (bv, form, od, part), k='trunc'))
                    out.append(dict(c, name='byte-%d-%s-%d-%d' % (bv, form, od, part), k='byte'))
    out.append({'name': 'refused', 'k': 'refused'})
    for bv in (80, 70):
        out.append({'name': 'caller-%d' % bv, 'k': 'caller', 'bv': bv, 'weight': 2})
    return out


def build(sx, case):
    bv = case['bv']
    g = rich.strip(rich.globs(sx, bv))
    s = rich.strip(rich.cells(sx, bv))
    if case['k'] in ('trunc', 'byte') and bv >= 50:
        # what matters is which parts there are, not how many of each
        g = [r for r in g if len(r) < 220]
    other = [B.rec(sx, 0x203, struct.pack('<HHHd', 0, 0, 0, 3.0))] if bv >= 30 else []
    stream = rich.assemble(sx, bv, g, [s, other])
    name = 'Workbook' if bv >= 80 else 'Book'
    if case['form'] == 'ole':
        return ole.wrap(sx, stream, name)
    if case['form'] == 'frag':
        n = (max(len(stream), 4096) + 511) // 512
        order = list(range(n))
        order[1], order[2] = 2, 1
        return ole.wrap(sx, stream, name, order=order)
    return stream


def run(sx, X, content, fail=None, hows=3, **kw):
    """Open a path, use the result, and look at what is open at each stage."""
    env = osfake.Env(sx, X, {'f.xls': content} if content is not None else {}, fail)
    z = Zips(env)
    X.patch_all('zipfile', z)
    od = kw.get('on_demand')
    st, bk = sx.attempt(X.xlrd.open_workbook, 'f.xls', logfile=sx.sink(), **kw)
    if st == 'exc':
        sx.reach('failed')
        sx.check_same(env.still_open() + z.still_open(), [], 'all closed after a failure')
        return st, bk
    sx.reach('opened')
    sx.check_same([f.name for f in env.files if not f.closed] + z.still_open(), [], 'no file handle left open')
    if not od or bk.biff_version < 50:
        sx.check_same(env.still_open(), [], 'all closed after opening')
        return st, bk
    sx.reach('on demand')
    maps = [m for m in env.maps if not m.closed]
    sx.check_same([n for n in bk.sheet_names() if bk.sheet_loaded(n)], [], 'nothing loaded yet')
    how = sx.fork(sx.int('how', 0, hows - 1))
    if how == 0:
        for i in range(bk.nsheets):
            sx.attempt(bk.sheet_by_index, i)
        sx.check_same([m for m in env.maps if not m.closed] == maps, True, 'maps stay open until released')
        bk.release_resources()
    elif how == 1:
        sx.reach('with block')
        with bk as b2:
            sx.check_same(b2 is bk, True, 'with')
            sx.check_same([m for m in env.maps if not m.closed] == maps, True, 'maps stay open inside the block')
    else:
        try:
            with bk:
                raise KeyError('in the block')
        except KeyError:
            pass
    sx.check_same(env.still_open(), [], 'all closed after release')
    return st, bk


class Zips(c30.Archives):
    def __init__(self, env):
        self.env = env
        self.opened = []
        self.names = ['xl/workbook.xml']

    def ZipFile(self, f, *a, **k):
        if isinstance(f, str):
            f = self.env.open(f, 'rb')
            z = Zip(self.names, f)
            self.opened.append(z)
            return z
        return Zip(self.names, f)

    def still_open(self):
        return ['zip' for z in self.opened if not z.closed]


class Zip(c30.Archive):
    def __init__(self, names, f):
        self.names, self.f, self.closed = names, f, False

    def close(self):
        self.closed = True
        self.f.close()

    def __exit__(self, *a):
        self.close()
        return False


def harness(sx, X, case):
    k = case['k']
    if k == 'io':
        content = build(sx, case)
        od = sx.fork(sx.int('od', 0, 1))
        fi = sx.fork(sx.int('fi', 0, 1))
        fail = sx.int('fail', 0, 14)
        st, e = run(sx, X, content, fail, use_mmap=bool(case['mm']), on_demand=bool(od), formatting_info=bool(fi))
        if st == 'exc':
            sx.reach('io error')
            sx.check(isinstance(e, OSError), 'the error is passed on')
        return
    if k in ('trunc', 'byte'):
        content = build(sx, case)
        n = len(content)
        # an OLE2 file is mostly padding: look at everything up to the end of the workbook's own data
        lo, hi = n * case['part'] // 4, n * (case['part'] + 1) // 4
        at = sx.fork(sx.int('at', lo, hi - 1))
        if k == 'trunc':
            sx.reach('truncated')
            content = content[:at]
        else:
            sx.reach('damaged')
            b = content[at]
            b = (0, 255 if b != 255 else 254, 0x7F, 255 - b)[sx.fork(sx.int('v', 0, case['vals'] - 1))]
            content = sx.cat(content[:at], bytes([b]), content[at + 1:])
        run(sx, X, content, hows=1 + (at % 64 == 0) * 2, use_mmap=bool(case['mm']), on_demand=bool(case['od']), formatting_info=True)
        return
    if k == 'refused':
        w = sx.fork(sx.int('what', 0, 8))
        bv = 80
        wb = B.workbook(sx, [[]], [B.rec(sx, 0x2F, b'\0\0' + bytes(4))])
        content = (b'', b'PK\x03\x04' + bytes(20), b'hello world' * 20, None, wb, ole.wrap(sx, bytes(5000), 'Other'),
                   ole.SIG, ole.SIG + bytes(600), ole.wrap(sx, wb))[w]
        st, e = run(sx, X, content, use_mmap=bool(sx.fork(sx.int('mm', 0, 1))), on_demand=bool(sx.fork(sx.int('od', 0, 1))))
        sx.check_same(st, 'exc', 'refused')
        sx.reach('refused')
        return
    # a caller's own content is left as it was
    case = dict(case, form=('bare', 'ole', 'frag')[sx.fork(sx.int('form', 0, 2))])
    content = build(sx, case)
    mine = bytearray(content)
    od = sx.fork(sx.int('od', 0, 1))
    env = osfake.Env(sx, X, {})
    st, bk = sx.attempt(X.xlrd.open_workbook, file_contents=mine, logfile=sx.sink(), formatting_info=True, on_demand=bool(od))
    if st == 'ok' and od:
        for i in range(bk.nsheets):
            bk.sheet_by_index(i)
        bk.release_resources()
    sx.check_same(st, 'ok', 'opened from a bytearray')
    sx.check_same(bytes(mine), content, 'content unchanged')
    sx.check_same(len(env.files), 0, 'no file opened')
    sx.reach('content unchanged')
