SPECS = [
 dict(ID='c10-table-pair', PROP='C10', EDITS=[('xlrd/sheet.py', "                            elif rc2 not in XL_SHRFMLA_ETC_ETC:\n",
"                            elif rc2 not in (XL_SHRFMLA, XL_ARRAY, XL_ARRAY2, XL_TABLEOP, XL_TABLEOP_B2):\n")],
 DEMO='''
f = rec(6, struct.pack('<HH', 0, 0), b'\\x40\\0\\0', bytes([0, 0, 0, 0, 0, 0, 255, 255]), b'\\0\\3\\x1e\\1\\0')
t = rec(0x37, struct.pack('<HHBBHHHHH', 0, 0, 0, 0, 0, 0, 1, 0, 1))
sh = opn(single(20, [rec(0, struct.pack('<HHHHH', 0, 1, 0, 1, 0)), f, t, rec(7, b'\\2ab')])).sheet_by_index(0)
assert sh.cell_value(0, 0) == 'ab', sh.cell_value(0, 0)
''', NEEDS='a BIFF2 two-input data table between a formula and its string result', BREAKS='the sheet cannot be read'),
 dict(ID='c12-short-loop', PROP='C12', EDITS=[('xlrd/compdoc.py', "                elif len(sectors) >= len(sat):\n", "                elif len(sectors) >= len(sat) and todo:\n")],
 DEMO='''
import signal
body = book([[num(0, 0, 1.0)]])
d = bytearray(ole(body))
# a short stream: size below the cutoff, in a container of 8 sectors starting at sector 2
sid = 2 + 8
n = (len(body) + 63) // 64
d[76 - 16:76 - 8] = struct.pack('<II', sid, 1)      # first SSAT sector, number of them
root = 512 + 512
d[root + 116:root + 124] = struct.pack('<II', 2, 4096)
e = root + 128
d[e + 116:e + 124] = struct.pack('<II', 0, len(body))
ss = [i + 1 for i in range(n)]
ss[n - 1] = 0                                        # the chain runs in a circle
sat = list(struct.unpack('<128I', d[512:1024]))
sat[sid] = 0xFFFFFFFE
d[512:1024] = struct.pack('<128I', *sat)
d = bytes(d).ljust(512 * (sid + 1), b'\\0') + struct.pack('<128I', *(ss + [0xFFFFFFFF] * (128 - n)))
signal.alarm(20)
try:
    opn(d)
except (xlrd.XLRDError, xlrd.compdoc.CompDocError) as ex:
    assert 'loop' in str(ex), ex
else:
    raise AssertionError('accepted')
''', NEEDS='a short-stream chain that runs in a circle after its last sector', BREAKS='opening never ends'),
 dict(ID='c17-biff7-hpb', PROP='C17', EDITS=[('xlrd/sheet.py', 'append((local_unpack("<H", data[pos:pos+2])[0], 0, 255))', 'append((local_unpack("<h", data[pos:pos+2])[0], 0, 255))')],
 DEMO='''
sh = opn(book([[rec(0x1B, struct.pack('<HH', 1, 40000))]], biff=70), formatting_info=True).sheet_by_index(0)
assert sh.horizontal_page_breaks == [(40000, 0, 255)], sh.horizontal_page_breaks
''', NEEDS='a BIFF7 horizontal page break beyond row 32767', BREAKS='the page break gets a negative row'),
 dict(ID='c18-surrogate-url', PROP='C18', EDITS=[('xlrd/sheet.py', "true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2", "true_nbytes = 2 * (len(h.url_or_path) + 1)")],
 DEMO='''
G0 = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
G1 = bytes.fromhex('E0C9EA79F9BACE118C8200AA004BA90B')
u = 'http://x/\\U0001F600'.encode('utf-16le') + b'\\0\\0'
m = 'A1'.encode('utf-16le') + b'\\0\\0'
l = rec(0x1B8, struct.pack('<HHHH', 0, 0, 0, 0), G0, struct.pack('<II', 2, 3 | 8), G1, struct.pack('<I', len(u)), u, struct.pack('<I', 3), m)
h = opn(book([[l, num(0, 0, 1.0)]]), formatting_info=True).sheet_by_index(0).hyperlink_list[0]
assert (h.url_or_path, h.textmark) == ('http://x/\\U0001F600', 'A1'), (h.url_or_path, h.textmark)
''', NEEDS='a URL with a character outside the basic plane and a text mark', BREAKS='the text mark is lost or garbage'),
 dict(ID='c18-first-wins', PROP='C18', EDITS=[('xlrd/sheet.py', "                self.hyperlink_map[rowx, colx] = h", "                self.hyperlink_map.setdefault((rowx, colx), h)")],
 DEMO='''
G0 = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
def l(r1, r2, t):
    m = t.encode('utf-16le') + b'\\0\\0'
    return rec(0x1B8, struct.pack('<HHHH', r1, r2, 0, 0), G0, struct.pack('<II', 2, 8), struct.pack('<I', len(t) + 1), m)
sh = opn(book([[l(0, 2, 'a'), l(1, 1, 'b'), num(0, 0, 1.0)]]), formatting_info=True).sheet_by_index(0)
assert [sh.hyperlink_map[r, 0].textmark for r in range(3)] == ['a', 'b', 'a']
''', NEEDS='two links that overlap', BREAKS='a cell maps to the earlier link'),
 dict(ID='c19-split-rich', PROP='C19', EDITS=[('xlrd/sheet.py', "o.rich_text_runlist[-1][0] == cchText:", "o.rich_text_runlist[-1][0] >= len(o.text):")],
 DEMO='''
t = 'a\\U0001F600b'
raw = t.encode('utf-16le')
ob = rec(0x5D, struct.pack('<HHHHH', 0x15, 18, 0x19, 1, 0x4011) + bytes(12) + struct.pack('<HH', 0x0D, 22) + bytes(22) + bytes(4))
tx = rec(0x1B6, struct.pack('<HH', 0x212, 0), bytes(6), struct.pack('<HHHH', 4, 16, 0, 0)) + rec(0x3C, b'\\1', raw) + rec(0x3C, struct.pack('<HHIHHI', 0, 1, 0, 3, 2, 0))
nt = rec(0x1C, struct.pack('<HHHH', 0, 0, 0, 1), ustr('me'), b'\\0')
n = opn(book([[ob, tx, nt, num(0, 0, 1.0)]]), formatting_info=True).sheet_by_index(0).cell_note_map[0, 0]
assert (n.text, list(map(tuple, n.rich_text_runlist))) == (t, [(0, 1), (3, 2)]), (n.text, n.rich_text_runlist)
''', NEEDS='a comment with a character outside the basic plane whose last run starts near the end', BREAKS='the last formatting run is dropped'),
 dict(ID='c20-biff5-year', PROP='C20', EDITS=[('xlrd/book.py', "if year < 1994 or build in (2412, 3218, 3321):", "if 0 < year < 1994 or build in (2412, 3218, 3321):")],
 DEMO='''
d = book([[num(0, 0, 1.0)]], biff=70).replace(struct.pack('<HHHH', 0x500, 5, 0x0DBB, 0x07CC), struct.pack('<HHHH', 0x500, 5, 0x1111, 0))
assert opn(d).biff_version == 50, opn(d).biff_version
''', NEEDS='a BIFF5 file whose build year is zero', BREAKS='Excel 5 files are reported as Excel 95'),
 dict(ID='c21-user-before', PROP='C21', EDITS=[('xlrd/book.py', "            strg = strg.rstrip()\n", "            strg = strg.strip()\n")],
 DEMO='''
u = rec(0x5C, bytes([5]) + b'  ab '.ljust(31))
d = bof(40, 0x10) + u + rec(0x42, struct.pack('<H', 1252)) + EOF
assert opn(d).user_name == '  ab', repr(opn(d).user_name)
''', NEEDS='a user name with leading blanks that precedes the CODEPAGE record', BREAKS='the leading blanks are lost'),
 dict(ID='c22-hidden-old', PROP='C22', EDITS=[('xlrd/book.py', "            self._sheet_visibility.append(visibility)", "            self._sheet_visibility.append(visibility if bv >= 80 else visibility & 1)")],
 DEMO='''
d = book([[num(0, 0, 1.0)], [num(0, 0, 2.0)]], biff=70)
i = d.index(rec(0x85)[:2], 20)
while d[i + 2:i + 4] != bytes([13, 0]):
    i = d.index(rec(0x85)[:2], i + 1)
d = d[:i + 8] + b'\\2' + d[i + 9:]
b = opn(d)
assert [s.visibility for s in b.sheets()] == [2, 0], [s.visibility for s in b.sheets()]
''', NEEDS='a very hidden sheet in a BIFF7 workbook', BREAKS='the sheet is reported as visible'),
 dict(ID='c23-trim-case', PROP='C23', EDITS=[('xlrd/book.py', "            name_lcase = nobj.name.lower()", "            name_lcase = nobj.name.lower().strip()")],
 DEMO='''
def nm(t, n):
    return rec(0x18, struct.pack('<HBBHHHBBBB', 0, 0, len(t), 3, 0, 0, 0, 0, 0, 0), ustr(t, 1)[1:], b'\\x1e' + struct.pack('<H', n))
b = opn(book([[num(0, 0, 1.0)]], tail=[nm('ab', 1), nm('ab\\xa0', 2)]))
assert sorted(b.name_map) == ['ab', 'ab\\xa0'], sorted(b.name_map)
''', NEEDS='two names that differ only in a trailing blank', BREAKS='two names share one entry of name_map'),
 dict(ID='c24-full-column', PROP='C24', EDITS=[('xlrd/formula.py', "        if row_rel and rowx >= 8192:\n            rowx -= 16384", "        if row_rel and rowx > 8192:\n            rowx -= 16384")],
 DEMO='''
from xlrd.formula import evaluate_name_formula
ext = rec(0x16, struct.pack('<H', 1)) + rec(0x17, bytes([len('Sheet1'), 3]) + b'Sheet1')
f = b'\\x3a' + struct.pack('<h', -1) + bytes(8) + struct.pack('<HH', 0, 0) + struct.pack('<HB', 0x8000 | 8192, 0)
f2 = b'\\x4c'
def nm(t, f):
    return rec(0x18, struct.pack('<HBBHHHBBBB', 0, 0, len(t), len(f), 0, 0, 0, 0, 0, 0), t.encode(), f)
r = b'\\x5a' + struct.pack('<h', -1) + bytes(8) + struct.pack('<HH', 0, 0) + struct.pack('<HB', 0xC000 | 8192, 0)
b = opn(book([[num(0, 0, 1.0)]], biff=70, tail=[ext, nm('a', r)]))
o = b.name_map['a'][0].result
assert 'R[-8192]' in o.text, o.text
''', NEEDS='a BIFF7 relative reference exactly 8192 rows up', BREAKS='the reference points down instead of up'),
 dict(ID='c25-if-missing', PROP='C25', EDITS=[('xlrd/formula.py', """                            respos = -nargs + 2 - int(testarg.value)
                            chosen = stack[respos]
                            if chosen.kind == oMSNG:""", """                            respos = -nargs + 2 - int(testarg.value)
                            chosen = stack[respos]
                            if chosen.kind == oMSNG and nargs > 2:""")],
 DEMO='''
f = b'\\x1d\\1' + b'\\x19\\x02\\x05\\0' + b'\\x16' + b'\\x19\\x08\\x03\\0' + b'\\x42\\2\\1\\0'
d = rec(0x18, struct.pack('<HBBHHHBBBB', 0, 0, 1, len(f), 0, 0, 0, 0, 0, 0), b'\\0a', f)
o = opn(book([[num(0, 0, 1.0)]], tail=[d])).name_map['a'][0].result
assert (o.kind, o.value) == (2, 0.0), (o.kind, o.value)
''', NEEDS='IF(TRUE,) with an empty branch and no third argument', BREAKS='the result is a missing value instead of 0'),
 dict(ID='c26-percent-rank', PROP='C26', EDITS=[('xlrd/formula.py', "    0x14: (lambda x: x / 100.0, 60, '',  '%'),# percent", "    0x14: (lambda x: x / 100.0, 70, '',  '%'),# percent")],
 DEMO='''
f = b'\\x1e\\2\\0\\x13\\x14'
d = rec(0x18, struct.pack('<HBBHHHBBBB', 0, 0, 1, len(f), 0, 0, 0, 0, 0, 0), b'\\0a', f)
o = opn(book([[num(0, 0, 1.0)]], tail=[d])).name_map['a'][0].result
assert o.text == '-2.0%', o.text
f = b'\\x1e\\2\\0\\x14\\x13'
d = rec(0x18, struct.pack('<HBBHHHBBBB', 0, 0, 1, len(f), 0, 0, 0, 0, 0, 0), b'\\0a', f)
o = opn(book([[num(0, 0, 1.0)]], tail=[d])).name_map['a'][0].result
assert o.text == '-(2.0%)', o.text
''', NEEDS='a percentage of a signed number', BREAKS='the parentheses are wrong'),
 dict(ID='c26-two-quotes', PROP='C26', EDITS=[('xlrd/formula.py', """                if blah: print("   sz=%d strg=%r" % (sz, strg), file=bk.logfile)
                text = '"' + strg.replace('"', '""') + '"'
                spush(Operand(oSTRG, strg, LEAF_RANK, text))""", """                if blah: print("   sz=%d strg=%r" % (sz, strg), file=bk.logfile)
                text = '"' + strg.replace('"', '""', 2) + '"'
                spush(Operand(oSTRG, strg, LEAF_RANK, text))""")],
 DEMO='''
f = b'\\x17\\x03\\0"""'
d = rec(0x18, struct.pack('<HBBHHHBBBB', 0, 0, 1, len(f), 0, 0, 0, 0, 0, 0), b'\\0a', f)
o = opn(book([[num(0, 0, 1.0)]], tail=[d])).name_map['a'][0].result
assert o.text == '"' * 8, o.text
''', NEEDS='a string constant with three quotation marks', BREAKS='the text is not the formula'),
 dict(ID='c27-empty-range', PROP='C27', EDITS=[('xlrd/formula.py', '''        return "'" + shname.replace("'", "''") + "'"''', '''        return "'" + shname.replace("'", "''", 1) + "'"''')],
 DEMO='''
b = opn(book([[num(0, 0, 1.0)]], names=["a'b'c"]))
from xlrd.formula import rangename3d, Ref3D
t = rangename3d(b, Ref3D((0, 1, 0, 1, 0, 1)))
assert t == "'a''b''c'!$A$1", t
''', NEEDS='a sheet name with two apostrophes', BREAKS='the range name is malformed'),
 dict(ID='c28-alias', PROP='C28', EDITS=[('xlrd/book.py', "        return self._sheet_list[:]", "        return self._sheet_list")],
 DEMO='''
b = opn(book([[num(0, 0, 1.0)], [num(0, 0, 2.0)]]), on_demand=True)
s = b.sheets()
b.unload_sheet(0)
assert s[0] is not None and s[0].cell_value(0, 0) == 1.0, s
''', NEEDS='a sheet unloaded after sheets() was called', BREAKS='the caller loses the sheet it holds'),

 dict(ID='c29-corrupt-map', PROP='C29', EDITS=[('xlrd/book.py', "        if hasattr(self.filestr, \"close\"):\n            self.filestr.close()\n        self.filestr = None\n        self._sharedstrings", "        if self.biff_version and hasattr(self.filestr, \"close\"):\n            self.filestr.close()\n        self.filestr = None\n        self._sharedstrings")],
 DEMO='''
import mmap, tempfile, shutil
d = tempfile.mkdtemp()
real = mmap.mmap
live = []
class M(real):
    def __new__(cls, *a, **k):
        m = real.__new__(cls, *a, **k)
        live.append(m)
        return m
mmap.mmap = M
try:
    p = os.path.join(d, 'a.xls')
    with open(p, 'wb') as f:
        f.write(ole(book([[num(0, 0, 1.0)]])).replace('Workbook'.encode('utf-16le'), 'Warkbook'.encode('utf-16le')))
    try:
        xlrd.open_workbook(p, logfile=io.StringIO())
    except xlrd.XLRDError:
        pass
    else:
        raise AssertionError('accepted')
    assert live and all(m.closed for m in live), live
finally:
    shutil.rmtree(d)
''', NEEDS='a mapped OLE2 file without a workbook stream', BREAKS='the memory map stays open'),
 dict(ID='c30-case', PROP='C30', EDITS=[('xlrd/__init__.py', "        if 'content.xml' in component_names:", "        if 'content.xml' in names:")],
 DEMO='''
import zipfile
f = io.BytesIO()
with zipfile.ZipFile(f, 'w') as z:
    z.writestr('Content.xml', b'')
assert xlrd.inspect_format(content=f.getvalue()) == 'ods'
''', NEEDS='an OpenDocument container whose component has capital letters', BREAKS='the file is not recognised as ods'),
 dict(ID='c31-sheet-pass', PROP='C31', EDITS=[('xlrd/sheet.py', "                elif rc == XL_FILEPASS:\n                    bk.handle_filepass(data)", "                elif rc == XL_FILEPASS and data_len:\n                    bk.handle_filepass(data)")],
 DEMO='''
d = single(40, [rec(0x2F), rec(0, struct.pack('<HHHHH', 0, 1, 0, 1, 0))])
try:
    opn(d)
except xlrd.XLRDError:
    pass
else:
    raise AssertionError('accepted')
''', NEEDS='an empty FILEPASS record in a single-sheet file', BREAKS='an encrypted file is opened'),
 dict(ID='c32-country-code', PROP='C32', EDITS=[('xlrd/sheet.py', "            elif rc == XL_COUNTRY:\n", "            elif rc & 0xFF == XL_COUNTRY:\n")],
 DEMO='''
sh = opn(book([[rec(0x98C, b'ab'), num(0, 0, 1.0)]])).sheet_by_index(0)
assert sh.cell_value(0, 0) == 1.0
b = opn(book([[rec(0x98C, struct.pack('<HH', 7, 9)), num(0, 0, 1.0)]]))
assert b.countries == (0, 0), b.countries
''', NEEDS='an unknown record whose code ends in 8C', BREAKS='an unknown record changes the workbook or stops the reader'),
 dict(ID='c33-mulblank', PROP='C33', EDITS=[('xlrd/sheet.py', "                if not fmt_info: continue\n                nitems = data_len >> 1\n", "                if not fmt_info and not self.ragged_rows: continue\n                nitems = data_len >> 1\n")],
 DEMO='''
r = rec(0xBE, struct.pack('<HHHHH', 0, 1, 0, 0, 2))
sh = opn(book([[num(0, 0, 1.0), r]]), ragged_rows=True).sheet_by_index(0)
assert (sh.ncols, sh.row_len(0)) == (1, 1), (sh.ncols, sh.row_len(0))
''', NEEDS='multiple blank cells, ragged rows, no formatting', BREAKS='blank cells appear without formatting info'),
 dict(ID='c34-window2-len', PROP='C34', EDITS=[('xlrd/sheet.py', 'if bv >= 80 and data_len >= 14:', 'if bv >= 80 and data_len >= 18:')],
 DEMO='''
w = rec(0x23E, struct.pack('<HHHHHHH', 0x6B6, 0, 0, 64, 0, 75, 120))
sh = opn(book([[w, num(0, 0, 1.0)]])).sheet_by_index(0)
assert sh.cached_normal_view_mag_factor == 120, sh.cached_normal_view_mag_factor
''', NEEDS='a WINDOW2 record of 14 bytes', BREAKS='the cached zoom factors are lost'),
 dict(ID='c35-ixfe-byte', PROP='C35', EDITS=[('xlrd/sheet.py', '                    xfx = self._ixfe\n', '                    xfx = self._ixfe & 0xFF\n')],
 DEMO='''
recs = [rec(0x43, bytes(4))] * 300 + [rec(0, struct.pack('<HHHHH', 0, 1, 0, 1, 0)), rec(0x44, struct.pack('<H', 257)),
        rec(3, struct.pack('<HH', 0, 0), b'\\x3f\\0\\0', struct.pack('<d', 1.0))]
sh = opn(single(20, recs), formatting_info=True).sheet_by_index(0)
assert sh.cell_xf_index(0, 0) == 257, sh.cell_xf_index(0, 0)
''', NEEDS='a BIFF2 file with more than 256 XF records', BREAKS='cells get another format'),
 dict(ID='c35-border-sides', PROP='C35', EDITS=[('xlrd/sheet.py', "(0x20, 'top'), (0x40, 'bottom')", "(0x40, 'top'), (0x20, 'bottom')")],
 DEMO='''
recs = [rec(0, struct.pack('<HHHHH', 0, 1, 0, 1, 0)), rec(3, struct.pack('<HH', 0, 0), b'\\x40\\0\\x20', struct.pack('<d', 1.0))]
b = opn(single(20, recs), formatting_info=True)
x = b.xf_list[b.sheet_by_index(0).cell_xf_index(0, 0)].border
assert (x.top_line_style, x.bottom_line_style) == (1, 0), (x.top_line_style, x.bottom_line_style)
''', NEEDS='a BIFF2 cell with a top border only', BREAKS='top and bottom borders are exchanged'),
 dict(ID='c36-long-record', PROP='C36', EDITS=[('xlrd/biffh.py', "            hex_char_dump(mem, pos, length, adj+pos, fout, unnumbered)", "            hex_char_dump(mem, pos, min(length, 8224), adj+pos, fout, unnumbered)")],
 DEMO='''
from xlrd.biffh import biff_dump
f = io.StringIO()
d = rec(0x1C1, b'z' * 9000)
biff_dump(d, 0, len(d), 0, f)
assert f.getvalue().count('zzzzzzzzzzzzzzzz') >= 9000 // 16, f.getvalue().count('z')
''', NEEDS='a record of more than 8224 bytes', BREAKS='its tail is not dumped'),
]
