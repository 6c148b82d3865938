SPECS = [
 dict(ID='c38-level', PROP='C38', EDITS=[('xlrd/formatting.py', "        if 1 <= built_in_id <= 2:\n            name += str(level + 1)", "        if built_in_id == 1 or built_in_id == 2 and level:\n            name += str(level + 1)")],
 DEMO='''
st = [rec(0x293, struct.pack('<HBB', 0x8001, 2, 0)), rec(0x293, struct.pack('<HBB', 0x8002, 2, 1))]
recs = [rec(0x243, bytes(12))] + st + [rec(0x200, struct.pack('<HHHHH', 0, 0, 0, 0, 0))]
b = opn(single(30, recs), formatting_info=True)
assert b.style_name_map == {'ColLevel_1': (1, 1), 'ColLevel_2': (1, 2)}, b.style_name_map
''', NEEDS='a style for the first column outline level', BREAKS='the style is listed under a name without its level'),
 dict(ID='c38-zero', PROP='C38', EDITS=[('xlrd/formatting.py', '''if data == b"\\0\\0\\0\\0" and "Normal" not in book.style_name_map:''', '''if data == b"\\0\\0\\0\\0" and not book.style_name_map:''')],
 DEMO='''
st = [rec(0x293, struct.pack('<HBB', 0x8001, 5, 0)), rec(0x293, bytes(4))]
recs = [rec(0x243, bytes(12))] + st + [rec(0x200, struct.pack('<HHHHH', 0, 0, 0, 0, 0))]
b = opn(single(30, recs), formatting_info=True)
assert b.style_name_map == {'Percent': (1, 1), 'Normal': (1, 0)}, b.style_name_map
''', NEEDS='an all-zero STYLE record that is not the first one', BREAKS='the style Normal is missing'),
]
