"""C20: recognition of the file version from the BOF record."""
import struct
from . import biff as B

PROP = 'C20'
BOUNDS = ['every opcode, every record length (4 to 20 bytes of arbitrary content each; all other lengths refused), followed '
          'by an empty body; with and without formatting info and on-demand loading',
          'truncation after every byte of the BOF record, with arbitrary content',
          'the BOF of a worksheet inside a BIFF8, 7 and 5 workbook: every opcode, length and content']
ASSUMES = ['The content does not start with the OLE2 or the zip signature (see C11, C12, C30).',
           'A version 2 file is reported as 21 until a cell with BIFF2 attributes makes it 20 (C35).']
REACH = ['80', '70', '50', '45', '40', '30', '21', 'refused', 'length', 'trunc', 'sheet ok', 'sheet refused', 'opcode']
OPTS = {'max_steps': 100000}
OPC = (0x0809, 0x0409, 0x0209, 0x0009)


def cases(tier):
    out = []
    for kw in ({}, {'formatting_info': True}, {'on_demand': True}):
        s = ''.join(k[0] for k in kw)
        for op in OPC:
            for ln in range(4, 21):
                if tier == 'quick' and kw and ln not in (4, 8, 16):
                    continue
                out.append({'name': 'bof-%x-%d%s' % (op, ln, s), 'k': 'bof', 'op': op, 'ln': ln, 'kw': kw, 'weight': 2})
            out.append({'name': 'len-%x%s' % (op, s), 'k': 'len', 'op': op, 'kw': kw})
    out.append({'name': 'op', 'k': 'op'})
    for n in range(1, 24):
        out.append({'name': 'trunc-%d' % n, 'k': 'trunc', 'n': n})
    for bv in (80, 70, 50):
        for op in OPC:
            for ln in (4, 6, 8, 16, 20) if tier == 'quick' else range(4, 21):
                out.append({'name': 'sheet-%d-%x-%d' % (bv, op, ln), 'k': 'sheet', 'bv': bv, 'op': op, 'ln': ln})
            out.append({'name': 'sheetlen-%d-%x' % (bv, op), 'k': 'sheetlen', 'bv': bv, 'op': op})
        out.append({'name': 'sheetop-%d' % bv, 'k': 'sheetop', 'bv': bv})
    return out


def refused(sx, X, stream, **kw):
    sx.reach('refused')
    sx.expect('refused with XLRDError', X.xlrd.XLRDError, B.open_wb, sx, X, stream, **kw)


def u16(its, i):
    a = its[i] if i < len(its) else 0
    b = its[i + 1] if i + 1 < len(its) else 0
    return a + b * 256


def harness(sx, X, case):
    k = case['k']
    if k == 'op':
        sx.reach('opcode')
        op = sx.u16('op')
        sx.assume(sx.And(*[op != o for o in OPC]))
        ln = sx.u16('ln')
        sx.assume(sx.Not(sx.And(op == 0x4B50, ln == 0x0403)))
        sx.assume(sx.Not(sx.And(op == 0xCFD0, ln == 0xE011)))
        return refused(sx, X, sx.cat(sx.pack('<HH', op, ln), sx.bytes('d', 16), B.EOF))
    if k == 'len':
        sx.reach('length')
        ln = sx.u16('ln')
        sx.assume(sx.Or(ln < 4, ln > 20))
        return refused(sx, X, sx.cat(sx.pack('<HH', case['op'], ln), sx.bytes('d', 24), B.EOF), **case['kw'])
    if k == 'trunc':
        sx.reach('trunc')
        n = case['n']
        d = sx.bytes('d', n)
        its = sx.items(d)
        if n >= 4:
            sx.assume(sx.Not(sx.And(u16(its, 0) == 0x4B50, u16(its, 2) == 0x0403)))
            sx.assume(sx.Not(sx.And(u16(its, 0) == 0xCFD0, u16(its, 2) == 0xE011)))
            sx.assume(u16(its, 2) > n - 4)
        return refused(sx, X, d)
    if k in ('sheet', 'sheetop', 'sheetlen'):
        return sheet(sx, X, case)
    op, ln = case['op'], case['ln']
    d = sx.bytes('d', ln)
    its = sx.items(d)
    v2, st, build, year = [u16(its, i) for i in (0, 2, 4, 6)]
    if op == 0x809:
        if v2 == 0x600:
            v = 80
        elif v2 == 0x500:
            v = 50 if sx.Or(year < 1994, build == 2412, build == 3218, build == 3321) else 70
        elif sx.Or(v2 == 0, v2 == 7, v2 == 0x200):
            v = 21
        elif v2 == 0x300:
            v = 30
        elif v2 == 0x400:
            v = 40
        else:
            v = 0
    else:
        v = {4: 40, 2: 30, 0: 21}[op >> 8]
    if v == 40 and st == 0x100:
        v = 45
    want = {0: None, 80: 5, 70: 5, 50: 5, 45: 0x100}.get(v, 0x10)
    stream = sx.cat(struct.pack('<HH', op, ln), d, B.EOF)
    if want is None or st != want:
        return refused(sx, X, stream, **case['kw'])
    sx.reach(str(v))
    bk = B.open_wb(sx, X, stream, **case['kw'])
    sx.check_same(bk.biff_version, v, 'file version')
    sx.check_same(bk.nsheets, 1 if v < 45 else 0, 'number of sheets')


def sheet(sx, X, case):
    k, bv = case['k'], case['bv']
    if k == 'sheetop':
        op, ln = sx.u16('op'), sx.u16('ln')
        sx.assume(sx.And(*[op != o for o in OPC]))
        bof, ok = sx.cat(sx.pack('<HH', op, ln), sx.bytes('d', 8)), False
    elif k == 'sheetlen':
        ln = sx.u16('ln')
        sx.assume(sx.Or(ln < 4, ln > 20))
        bof, ok = sx.cat(sx.pack('<HH', case['op'], ln), sx.bytes('d', 24)), False
    else:
        d = sx.bytes('d', case['ln'])
        bof = sx.cat(struct.pack('<HH', case['op'], case['ln']), d)
        ok = bool(u16(sx.items(d), 2) == 0x10)
    head = sx.cat(B.bof(sx, bv, 5), B.codepage(sx, 1252))
    n = len(head) + len(B.boundsheet(sx, 0, 'S1', biff=bv)) + 4
    cell = B.rec(sx, 0x205, struct.pack('<HHHBB', 0, 0, 0, 1, 0))
    stream = sx.cat(head, B.boundsheet(sx, n, 'S1', biff=bv), B.EOF, bof, cell, B.EOF)
    if not ok:
        sx.reach('sheet refused')
        sx.expect('refused with XLRDError', X.xlrd.XLRDError, B.open_wb, sx, X, stream)
        return
    sx.reach('sheet ok')
    bk = B.open_wb(sx, X, stream)
    sx.check_same(bk.biff_version, bv, 'file version')
    sx.check_same(B.grid(bk.sheet_by_index(0)), [[(4, 1, None)]], 'cells')
