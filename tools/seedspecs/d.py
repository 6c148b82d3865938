SPECS = [
 dict(ID='c16-shared-colinfo', PROP='C16', EDITS=[('xlrd/sheet.py', "        self.colinfo_map = {}\n", "")],
 DEMO='''
g = []
col = rec(0x7D, struct.pack('<HHHHHH', 1, 2, 2560, 0, 1, 0))
xf = [rec(0xE0, bytes(20))]
b = opn(book([[col, num(0, 0, 1.0)], [num(0, 0, 1.0)]], xf), formatting_info=True)
assert sorted(b.sheet_by_index(0).colinfo_map) == [1, 2]
assert not b.sheet_by_index(1).colinfo_map, b.sheet_by_index(1).colinfo_map
''', NEEDS='a second sheet or workbook without column records of its own', BREAKS='it shows the column widths of another sheet'),
 dict(ID='c18-shared-map', PROP='C18', EDITS=[('xlrd/sheet.py', "        self.hyperlink_list = []\n        self.hyperlink_map = {}\n", "        self.hyperlink_list = []\n        self.hyperlink_map = book.__dict__.setdefault('_hyperlink_map', {})\n")],
 DEMO='''
G = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
l = rec(0x1B8, struct.pack('<HHHH', 0, 1, 2, 2), G, struct.pack('<III', 2, 8, 4), 'Loc\\0'.encode('utf-16-le'))
b = opn(book([[l, num(0, 0, 1.0)], [num(0, 0, 1.0)]]), formatting_info=True)
assert len(b.sheet_by_index(0).hyperlink_map) == 2
assert not b.sheet_by_index(1).hyperlink_map, b.sheet_by_index(1).hyperlink_map
''', NEEDS='two sheets, one of them with a link', BREAKS='cells of one sheet carry the links of another'),
 dict(ID='c13-shared-formats', PROP='C13', EDITS=[('xlrd/book.py', "        self.format_map = {}\n        self.format_list = []\n", "        self.format_map = self.format_map or {}\n        self.format_list = []\n"), ('xlrd/book.py', "        self.format_list = []\n        self.xfcount = 0\n", "        self.__class__.format_map = self.format_map\n        self.format_list = []\n        self.xfcount = 0\n")],
 DEMO='''
def xf(k):
    return rec(0xE0, struct.pack('<HHH', 0, k, 1), bytes(14))
f = rec(0x41E, struct.pack('<H', 170), b'\\6\\0\\0d/m/yy')
a = opn(book([[num(0, 0, 5.0)]], [f, xf(170)]), formatting_info=True)
assert a.sheet_by_index(0).cell_type(0, 0) == 3
b = opn(book([[num(0, 0, 5.0)]], [xf(170)]), formatting_info=True)
assert b.sheet_by_index(0).cell_type(0, 0) == 2, b.sheet_by_index(0).cell_type(0, 0)
''', NEEDS='a file with an undefined format key opened after one that defines it as a date', BREAKS='numbers of one workbook become dates because of another'),
]
