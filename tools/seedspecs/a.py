SPECS = [
 dict(ID='c01-carry-hour', PROP='C01', EDITS=[('xlrd/xldate.py',
"""        hour = minute = second = 0
        xldays += 1
""",
"""        hour = minute = second = 0
        if xldays:
            xldays += 1
""")],
 DEMO='''
from xlrd.xldate import *
assert xldate_as_tuple(0.9999999, 1) == (1904, 1, 2, 0, 0, 0), xldate_as_tuple(0.9999999, 1)
''', NEEDS='a time of day within half a second of midnight on day zero', BREAKS='the carry into the next day is lost for serials in [0,1)'),
 dict(ID='c02-leap-century', PROP='C02', EDITS=[('xlrd/xldate.py',
"""    if y % 400: return 0
    return 1""",
"""    if y % 200: return 0
    return 1""")],
 DEMO='''
from xlrd.xldate import *
for y in (2200, 2600, 3000):
    try:
        xldate_from_date_tuple((y, 2, 29), 0)
    except XLDateBadTuple:
        pass
    else:
        raise AssertionError(y)
''', NEEDS='29 February of a century year divisible by 200 but not by 400', BREAKS='a non-existent date is encoded'),
 dict(ID='c03-epoch', PROP='C03', EDITS=[('xlrd/xldate.py', "        if xldate < 60:\n            epoch = epoch_1900\n", "        if xldate < 59.5:\n            epoch = epoch_1900\n")],
 DEMO='''
from xlrd.xldate import *
import datetime
assert xldate_as_datetime(59.75, 0) == datetime.datetime(1900, 2, 28, 18), xldate_as_datetime(59.75, 0)
''', NEEDS='a serial number in [59.5, 60) of the 1900 system', BREAKS='the afternoon of 28 February 1900 decodes to the day before'),
 dict(ID='c04-rk-split', PROP='C04', EDITS=[('xlrd/sheet.py', """        if flags & 1:
            return i / 100.0
        return float(i)
""", """        if flags & 1:
            # exact for whole numbers of any size
            return i // 100 + (i % 100) / 100.0
        return float(i)
""")],
 DEMO='''
from xlrd.sheet import unpack_RK
for i in range(-3000, 300000):
    got = unpack_RK(struct.pack('<i', (i << 2) | 3))
    assert got == i / 100.0, (i, got)
''', NEEDS='an integer RK number flagged /100 where the split sum rounds differently', BREAKS='the value is one unit in the last place off'),
 dict(ID='c05-boolerr-extra', PROP='C05', EDITS=[('xlrd/sheet.py', "                        value = BYTES_ORD(result_str[2])\n                        self_put_cell(rowx, colx, XL_CELL_BOOLEAN, value, xf_index)",
"                        value = BYTES_ORD(result_str[1]) or BYTES_ORD(result_str[2])\n                        self_put_cell(rowx, colx, XL_CELL_BOOLEAN, value, xf_index)")],
 DEMO='''
f = rec(6, struct.pack('<HHH', 0, 0, 0), bytes([1, 7, 0, 0, 0, 0, 255, 255]), struct.pack('<HIH', 0, 0, 3), bytes([0x1e, 1, 0]))
sh = opn(book([[f]])).sheet_by_index(0)
assert (sh.cell_type(0, 0), sh.cell_value(0, 0)) == (4, 0), sh.cell(0, 0)
''', NEEDS='a boolean formula result whose unused byte is not zero', BREAKS='FALSE is read as something else'),
 dict(ID='c06-first-full', PROP='C06', EDITS=[('xlrd/sheet.py', "                if nr < self.nrows:\n                    # cell data is not in non-descending row order *AND*",
"                if nr < self.nrows - 1:\n                    # cell data is not in non-descending row order *AND*")],
 DEMO='''
sh = opn(book([[num(0, 0, 1.0), num(1, 1, 2.0), num(2, 0, 3.0), num(1, 4, 4.0)]])).sheet_by_index(0)
assert [sh.row_len(r) for r in range(3)] == [5, 5, 5], [sh.row_len(r) for r in range(3)]
''', NEEDS='cells out of row order: a cell that widens the last row but one after the last row was started', BREAKS='rows below are not padded to the full width'),
 dict(ID='c07-slice-clamp', PROP='C07', EDITS=[('xlrd/sheet.py', '''        return [
            self._cell_types[rowx][colx]
            for rowx in xrange(start_rowx, end_rowx)
        ]
''', '''        if start_rowx >= end_rowx > 0:
            start_rowx = end_rowx - 1
        return [
            self._cell_types[rowx][colx]
            for rowx in xrange(start_rowx, end_rowx)
        ]
''')],
 DEMO='''
sh = opn(book([[num(0, 0, 1.0), num(1, 0, 2.0), num(2, 0, 3.0)]])).sheet_by_index(0)
assert sh.col_types(0, 2, 1) == [], sh.col_types(0, 2, 1)
''', NEEDS='col_types with a start at or beyond the end', BREAKS='one cell is returned instead of an empty slice'),
 dict(ID='c08-pho-rich', PROP='C08', EDITS=[('xlrd/biffh.py', '''    if richtext:
        pos += 4 * rt
    if phonetic:
        pos += sz
    return (strg, pos)''', '''    if phonetic:
        pos += sz
    elif richtext:
        pos += 4 * rt
    return (strg, pos)''')],
 DEMO='''
from xlrd.biffh import unpack_unicode_update_pos as u
d = struct.pack('<HBHi', 2, 0x0c, 1, 6) + b'ab' + bytes(4) + bytes(6) + b'next'
assert u(d, 0) == ('ab', 21), u(d, 0)
# an rich string cell record with both options
r = rec(0xD6, struct.pack('<HHH', 0, 0, 0), d[:-4], struct.pack('<H', 0))
assert opn(book([[r]])).sheet_by_index(0).cell_value(0, 0) == 'ab'
''', NEEDS='a string with both rich-text runs and a phonetic block followed by more data', BREAKS='what follows the string is read from the wrong place'),
 dict(ID='c09-run-split', PROP='C09', EDITS=[('xlrd/book.py', '''                if pos == datalen:
                    pos = 0
                    datainx += 1''', '''                if pos == datalen and runindex:
                    pos = 0
                    datainx += 1''')],
 DEMO='''
a = struct.pack('<II', 2, 2) + struct.pack('<HBH', 2, 8, 1) + b'ab'
sst = rec(0xFC, a) + rec(0x3C, struct.pack('<HH', 1, 0), struct.pack('<HB', 1, 0) + b'z')
s = [rec(0xFD, struct.pack('<HHHI', 0, i, 0, i)) for i in (0, 1)]
sh = opn(book([s], tail=[sst])).sheet_by_index(0)
assert sh.row_values(0) == ['ab', 'z'], sh.row_values(0)
''', NEEDS='a split exactly between the characters and the first formatting run', BREAKS='the runs and all later strings are misread'),
 dict(ID='c10-toomany', PROP='C10', EDITS=[('xlrd/sheet.py', "            if nchars_found > nchars_expected:", "            if nchars_found > nchars_expected + 1:")],
 DEMO='''
f = rec(6, struct.pack('<HHH', 0, 0, 0), bytes(6) + b'\\xff\\xff', struct.pack('<HIH', 0, 0, 3), bytes([0x1e, 1, 0]))
try:
    opn(book([[f, rec(0x207, struct.pack('<HB', 2, 0), b'abc')]]))
except xlrd.XLRDError:
    pass
else:
    raise AssertionError('accepted')
''', NEEDS='a formula string with exactly one character more than announced', BREAKS='the string is returned though it does not have the announced length'),
 dict(ID='c11-short-cutoff', PROP='C11', EDITS=[('xlrd/compdoc.py', '''        if d.tot_size > self.mem_data_len:
            raise CompDocError("%r stream length (%d bytes) > file data size (%d bytes)"
                % (qname, d.tot_size, self.mem_data_len))
        if d.tot_size >= self.min_size_std_stream:''', '''        if d.tot_size > self.mem_data_len:
            raise CompDocError("%r stream length (%d bytes) > file data size (%d bytes)"
                % (qname, d.tot_size, self.mem_data_len))
        if d.tot_size >= 4096:''')],
 DEMO='''
import xlrd.compdoc as C
w = book([[num(0, 0, 7.0)]]) + bytes(4000)
o = bytearray(ole(w))
# the file declares a cutoff of 8192 bytes and keeps the stream short; here: the other way round
o[56:60] = struct.pack('<i', 1024)
i = o.index('Workbook'.encode('utf-16le')) + 120
o[i:i + 4] = struct.pack('<i', 2048)
sat = 512
for k in range(5, 128):
    o[sat + 4 * k:sat + 4 * k + 4] = struct.pack('<i', -1)
o[sat + 20:sat + 24] = struct.pack('<i', -2)
assert opn(bytes(o)).sheet_by_index(0).cell_value(0, 0) == 7.0
''', NEEDS='a header whose minimum size of standard streams is not 4096', BREAKS='the stream is looked up in the wrong kind of sectors'),
 dict(ID='c12-seen-short', PROP='C12', EDITS=[('xlrd/compdoc.py', '''            self.seen[s] = seen_id
            tot_found += 1
''', '''            if s != p + 1:
                self.seen[s] = seen_id
            tot_found += 1
''')],
 DEMO='''
import xlrd.compdoc as C
w = book([[num(0, 0, 7.0)]])
o = bytearray(ole(w + bytes(4096)))
n = (len(o) - 512) // 512
# 2 -> 3 -> 4 -> 3 -> ...: one sector is used twice within the recorded size
o[512 + 16:512 + 20] = struct.pack('<i', 9)
last = 9
o[512 + 36:512 + 40] = struct.pack('<i', 10)
o[512 + 40:512 + 44] = struct.pack('<i', 4)
o[512 + 16:512 + 20] = struct.pack('<i', 5)
o[512 + 20:512 + 24] = struct.pack('<i', 6)
o[512 + 24:512 + 28] = struct.pack('<i', 7)
o[512 + 28:512 + 32] = struct.pack('<i', 8)
# the second stream entry reuses sectors 3.. of the first
d = C.CompDoc(bytes(ole(w + bytes(4096))), logfile=io.StringIO())
d.locate_named_stream('Workbook')
try:
    d.locate_named_stream('Workbook')
except C.CompDocError:
    pass
e = d.dirlist[1]
e.first_SID += 1
e.DID += 1
e.tot_size -= 512
try:
    d.locate_named_stream('Workbook')
except C.CompDocError:
    pass
else:
    raise AssertionError('sectors 3.. were read twice')
''', NEEDS='a second stream whose chain enters the middle of a contiguous run that is already claimed', BREAKS='a reused sector is not noticed'),
 dict(ID='c13-escape-sep', PROP='C13', EDITS=[('xlrd/formatting.py', r'''            elif c in UNICODE_LITERAL(r"\_*"):''', r'''            elif c in UNICODE_LITERAL("\\_"):''')],
 DEMO='''
fm = rec(0x41E, struct.pack('<H', 164), ustr('* 0*d*d'))
sh = opn(book([[num(0, 0, 7.0, 1)]], globs=[fm], fmts=(0, 164))).sheet_by_index(0)
assert sh.cell_type(0, 0) == 2, sh.cell(0, 0)
''', NEEDS='a format string with a date letter as repeated fill character', BREAKS='a fill character counts as a date letter'),
 dict(ID='c14-b7-used', PROP='C14', EDITS=[('xlrd/formatting.py', "        orientation = pkd_orient_used & 0x03\n        xf.alignment.rotation", "        orientation = pkd_orient_used & 0x07\n        if orientation > 3: orientation = 0\n        xf.alignment.rotation")],
 DEMO='''
x = rec(0xE0, struct.pack('<HHHBBIi', 0, 0, 1, 0x20, 0xFC | 1, 0, 0))
bk = opn(book([[num(0, 0, 7.0)]], biff=70, globs=[x]), formatting_info=True)
assert bk.xf_list[0].alignment.rotation == 255, bk.xf_list[0].alignment.rotation
''', NEEDS='a BIFF5/7 XF with stacked text and its own number format', BREAKS='text orientation is lost'),
 dict(ID='c15-palette-blue', PROP='C15', EDITS=[('xlrd/formatting.py', "        blue  = (c >> 16) & 0xff", "        blue  = abs(c >> 16) & 0xff")],
 DEMO='''
pal = rec(0x92, struct.pack('<H', 56), bytes([1, 2, 3, 0]) * 55 + bytes([1, 2, 3, 0xC0]))
bk = opn(book([[num(0, 0, 7.0)]], globs=[pal]), formatting_info=True)
assert bk.colour_map[63] == (1, 2, 3), bk.colour_map[63]
''', NEEDS='a palette entry whose unused fourth byte has its top bit set', BREAKS='the blue component'),
 dict(ID='c16-row-default', PROP='C16', EDITS=[('xlrd/sheet.py', '''            xfx = self.rowinfo_map[rowx].xf_index
            if xfx > -1:''', '''            xfx = self.rowinfo_map[rowx].xf_index
            if xfx > 0:''')],
 DEMO='''
row = rec(0x208, struct.pack('<HHHHHHI', 0, 0, 0, 255, 0, 0, 0x80))
sh = opn(book([[row, num(0, 1, 7.0)]]), formatting_info=True).sheet_by_index(0)
assert sh.cell_xf_index(0, 0) == 0, sh.cell_xf_index(0, 0)
''', NEEDS='a row whose explicit default format index is 0', BREAKS='the row default is ignored'),
]
