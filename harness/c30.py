"""C30: file types are told apart by content; non-XLS types are refused."""
import io
import zipfile
from . import biff as B
from . import osfake

PROP = 'C30'
BOUNDS = ['content of 0 to 12 arbitrary bytes (not a zip archive), as bytes and as a path',
          'zip archives (any content after the signature) with 0 to 3 members: one name at a time arbitrary, of any '
          'length 0 to 16, or two arbitrary names of the length of an identifying member, the others fixed; as bytes '
          'and as a path; inspect_format and open_workbook',
          'archives of 21, 301 and 701 members with the identifying name at eight positions, among names that look like it',
          'zip-signature content that is not a readable archive']
ASSUMES = ['Member names are ASCII except for one character (any position, one-name cases), which is below U+0530 and not NUL, surrogates and letters whose lower case is another length '
           'or script (U+0130, U+03A3).',
           'Reading an archive is modelled (zipfile.ZipFile gives the member names, or raises BadZipFile); the replay uses a '
           'real archive and the real zipfile.', 'The file system is modelled (open, seek, tell, read, mmap).']
REACH = ['many', 'xls', 'xlsx', 'xlsb', 'ods', 'zip', 'unknown', 'bad zip', 'refused', 'path']
OPTS = {'max_steps': 200000}

XLS = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1'
ZIP = b'PK\x03\x04'
IDS = ('xl/workbook.xml', 'xl/workbook.bin', 'content.xml')
TYPES = ('xlsx', 'xlsb', 'ods')
TEXT = {'xlsb': 'Excel 2007 xlsb file', 'xlsx': 'Excel xlsx file', 'ods': 'Openoffice.org ODS file', 'zip': 'Unknown ZIP file'}


def cases(tier):
    out = []
    for n in range(13):
        out.append({'name': 'raw-%d' % n, 'k': 'raw', 'n': n})
    for n in range(17):
        for other in (0, 1, 2, 3, 4):
            if tier == 'quick' and n not in (11, 15) and other not in (0, 4):
                continue
            out.append({'name': 'zip1-%d-%d' % (n, other), 'k': 'zip', 'ns': [n], 'other': other, 'weight': 2})
    for a in (11, 15):
        for b in (11, 15):
            out.append({'name': 'zip2-%d-%d' % (a, b), 'k': 'zip', 'ns': [a, b], 'other': 0, 'weight': 3})
    for n in (20, 300, 700):
        for i in range(3):
            out.append({'name': 'many-%d-%d' % (n, i), 'k': 'zip', 'ns': [len(IDS[i])], 'id': i, 'many': n, 'other': 0, 'weight': 5})
    out.append({'name': 'bad', 'k': 'bad'})
    out.append({'name': 'near', 'k': 'near'})
    return out


def isid(sx, name, ident):
    """name is ident, without regard to case and slash direction."""
    if len(name) != len(ident):
        return False
    conds = []
    for i in range(len(ident)):
        c, w = ord(name[i]), ident[i]
        if w == '/':
            conds.append(sx.Or(c == 47, c == 92))
        elif w.isalpha():
            conds.append(sx.Or(c == ord(w), c == ord(w) - 32))
        else:
            conds.append(c == ord(w))
    return sx.And(*conds)


def expect(sx, names):
    for ident, ty in zip(IDS, TYPES):
        if sx.Or(*[isid(sx, n, ident) for n in names]):
            return ty
    return 'zip'


def archive(names):
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w') as z:
        for n in names:
            zi = zipfile.ZipInfo('x')
            zi.filename = n
            z.writestr(zi, b'data')
    return f.getvalue()


class Archives(object):
    """Stands for the zipfile module."""
    BadZipFile = zipfile.BadZipFile
    BadZipfile = zipfile.BadZipFile
    error = zipfile.BadZipFile
    LargeZipFile = zipfile.LargeZipFile
    names = None
    env = None

    def ZipFile(self, f, *a, **k):
        if isinstance(f, str):
            self.env.open(f, 'rb').close()
        if self.names is None:
            raise zipfile.BadZipFile('File is not a zip file')
        return Archive(self.names)

    def is_zipfile(self, f):
        return self.names is not None


class Archive(object):
    def __init__(self, names):
        self.names = names

    def namelist(self):
        return list(self.names)

    def infolist(self):
        return [zipfile.ZipInfo(n) for n in self.names]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def char(sx, name, wide):
    if not wide:
        return sx.int(name, 1, 127)
    c = sx.int(name, 1, 0x52F)
    sx.assume(sx.And(c != 0x130, c != 0x3A3))
    return c


def both(sx, X, content, want, label):
    env = osfake.Env(sx, X, {'f.dat': content})
    z = None
    if sx.symbolic:
        z = Archives()
        z.env = env
        X.patch_all('zipfile', z)
    got = X.xlrd.inspect_format(content=content)
    sx.check_same(got, want, label + ' from bytes')
    if not sx.symbolic and content[:4] == ZIP:
        real(sx, X, content, want, label)
        return
    sx.reach('path')
    got = X.xlrd.inspect_format('f.dat')
    sx.check_same(got, want, label + ' from a path')
    if want not in (None, 'xls'):
        refused(sx, X, want, file_contents=content)
        refused(sx, X, want, filename='f.dat')


def real(sx, X, content, want, label):
    import os
    import tempfile
    fd, path = tempfile.mkstemp()
    X.patch_open(open)
    try:
        os.write(fd, content)
        os.close(fd)
        sx.check_same(X.xlrd.inspect_format(path), want, label + ' from a path')
        if want not in (None, 'xls'):
            refused(sx, X, want, file_contents=content)
            refused(sx, X, want, filename=path)
    finally:
        os.unlink(path)


def refused(sx, X, want, **kw):
    st, e = sx.attempt(X.xlrd.open_workbook, logfile=sx.sink(), **kw)
    sx.check(st == 'exc' and isinstance(e, X.xlrd.XLRDError), 'refused with XLRDError')
    sx.check(st == 'exc' and TEXT[want] in str(e), 'the type is named')
    sx.reach('refused')


def harness(sx, X, case):
    k = case['k']
    if k == 'raw':
        n = case['n']
        content = sx.bytes('d', n)
        if n >= 4:
            sx.assume(sx.Not(content[:4] == ZIP))
        want = None
        if n >= 8:
            if content[:8] == XLS:
                want = 'xls'
        sx.reach('xls' if want else 'unknown')
        both(sx, X, content, want, 'type')
        return
    if k == 'near':
        # a workbook signature further on, or in a different case, is no signature
        off = sx.fork(sx.int('off', 0, 3))
        content = sx.cat(sx.bytes('d', off), (XLS, ZIP)[sx.fork(sx.int('w', 0, 1))], bytes(8))
        if off == 0:
            content = sx.cat(content[:3], sx.u8('x'), content[4:])
            sx.assume(sx.And(content[3] != 4, content[3] != 0xE0))
        want = None
        if content[:8] == XLS:
            want = 'xls'
        sx.assume(sx.Not(content[:4] == ZIP))
        both(sx, X, content, want, 'type')
        return
    if k == 'bad':
        sx.reach('bad zip')
        n = sx.fork(sx.int('n', 0, 8))
        content = sx.cat(ZIP, sx.bytes('d', n))
        both(sx, X, content, None, 'type of an unreadable archive')
        return
    wide = sum(case['ns']) and len(case['ns']) == 1 and not case.get('many')
    at = sx.fork(sx.int('wide', 0, sum(case['ns']) - 1)) if wide else -1
    names = [] if case.get('many') else [sx.mkstr([char(sx, 'c%d_%d' % (j, i), at == i) for i in range(n)]) for j, n in enumerate(case['ns'])]
    other = case['other']
    if other:
        names = [(None, 'XL/Workbook.xml', 'xl\\workbook.bin', 'Content.XML', 'mimetype')[other]] + names + ['xl/styles.xml']
    if case.get('many'):
        # one identifying name, in any case, among many others
        sx.reach('many')
        n, i = case['many'], case['id']
        names = [sx.mkstr([(0x2F if not sx.fork(sx.int('sl', 0, 1)) else 0x5C) if c == '/' else
                           sx.int('k%d' % j, 0, 1) * -32 + ord(c) if c.isalpha() and j in (0, 5, 9) else ord(c)
                           for j, c in enumerate(IDS[i])])]
        like = ('xl/workbook.xml.rels', 'xl/worksheets/sheet%d.xml', 'content.xml/%d', 'a/content.xml', '[Content_Types].xml',
                'xl/_rels/workbook.bin', 'mimetype%d', 'workbook.xml')
        rest = [like[j % 8] % j if '%' in like[j % 8] else like[j % 8] if j < 8 else like[j % 8] + str(j) for j in range(n)]
        at = (0, 1, 10, 63, 255, 256, 299, n)[sx.fork(sx.int('at', 0, 7))]
        if at > n:
            at = n // 2
        names = rest[:at] + names + rest[at:]
        want = TYPES[i]
    else:
        want = expect(sx, names)
    sx.reach(want)
    if sx.symbolic:
        content = sx.cat(ZIP, sx.bytes('rest', 6))
        both_zip(sx, X, content, want, names)
    else:
        both(sx, X, archive(names) if names else archive([]), want, 'type')


def both_zip(sx, X, content, want, names):
    env = osfake.Env(sx, X, {'f.dat': content})
    z = Archives()
    z.env = env
    z.names = names
    X.patch_all('zipfile', z)
    sx.check_same(X.xlrd.inspect_format(content=content), want, 'type from bytes')
    sx.check_same(X.xlrd.inspect_format('f.dat'), want, 'type from a path')
    refused(sx, X, want, file_contents=content)
    refused(sx, X, want, filename='f.dat')
