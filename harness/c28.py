"""C28: on-demand loading and unloading."""
import struct
from . import biff as B
from . import ole
from . import osfake
from . import rich

PROP = 'C28'
BOUNDS = ['every history of 3 (thorough: 4) steps, each a load by index, by name, by [] or by iterating, load of all, '
          'unload by index or name, sheet_loaded, use of an unknown name, or release, over a workbook of three sheets with '
          'arbitrary cell contents (versions 8, 7; bare stream, OLE2, memory-mapped or not, path or content)',
          'every order of loading, unloading and reloading the sheets of a workbook with one of everything, with '
          'formatting info']
ASSUMES = ['Sheet indexes are in range(nsheets), as documented.', 'The file system and mmap are modelled.']
ISO = {'after': r'(rich-(80|70)-mmap-1|.*-80-content-.*)'}
REACH = ['load', 'reload', 'unload', 'release', 'refused', 'still readable', 'unknown name', 'iterate']
OPTS = {'max_steps': 2000000}

FORMS = ('mmap', 'file', 'content', 'ole-mmap', 'ole-frag')


def cases(tier):
    out = []
    for form in FORMS:
        for bv in (80, 70):
            for first in range(10):
                if tier == 'quick' and (bv == 70 and form != 'mmap' or form in ('file', 'ole-frag') and first not in (2, 6, 9)):
                    continue
                out.append({'name': 'hist-%s-%d-%d' % (form, bv, first), 'k': 'hist', 'form': form, 'bv': bv,
                            'first': first, 'n': 4 if tier == 'thorough' else 3, 'weight': 4})
    for bv in (80, 70):
        for form in ('mmap', 'ole-frag'):
            for fi in (0, 1):
                out.append({'name': 'rich-%d-%s-%d' % (bv, form, fi), 'k': 'rich', 'form': form, 'bv': bv, 'fi': fi,
                            'n': 4 if tier == 'thorough' else 3, 'weight': 5})
    return out


def open_form(sx, X, form, stream, on_demand, **kw):
    if form.startswith('ole'):
        if form == 'ole-frag':
            n = (max(len(stream), 4096) + 511) // 512
            order = list(range(n))
            order[1], order[2] = 2, 1
            stream = ole.wrap(sx, stream, order=order)
        else:
            stream = ole.wrap(sx, stream)
    env = osfake.Env(sx, X, {'f.xls': stream})
    kw.update(logfile=sx.sink(), on_demand=on_demand)
    if form == 'content':
        return env, X.xlrd.open_workbook(file_contents=stream, **kw)
    return env, X.xlrd.open_workbook('f.xls', use_mmap=form != 'file', **kw)


def sheet_state(sh):
    cells = [[list(sh.row_types(r)), list(sh.row_values(r)),
              [sh.cell_xf_index(r, c) for c in range(sh.row_len(r))] if sh.formatting_info else []]
             for r in range(sh.nrows)]
    return rich.deep(sh) + [['cells', cells]]


def build(sx, case):
    bv = case['bv']
    if case['k'] == 'rich':
        g = rich.strip(rich.globs(sx, bv))
        a = rich.strip(rich.cells(sx, bv))
        b = [B.rec(sx, 0x203, struct.pack('<HHH', 0, 1, 1), sx.bytes('v', 2), bytes(6)),
             B.rec(sx, 0xFD, struct.pack('<HHHI', 1, 0, 0, 0)) if bv >= 80 else B.rec(sx, 0x204, struct.pack('<HHHH', 1, 0, 0, 1), b'x')]
        return rich.assemble(sx, bv, g, [a, b, a[:9]])
    g = [B.codepage(sx, 1200 if bv >= 80 else 1252)] + B.std_globals(sx, bv, (0, 14, 0x31))
    if bv >= 80:
        g.append(B.rec(sx, 0xFC, struct.pack('<ii', 1, 1), B.ustr(sx, 'one')))
    num = lambda i: B.rec(sx, 0x203, struct.pack('<HHH', i, i, 0), sx.bytes('v%d' % i, 2), b'\0\0\0\0\xf0\x3f')
    s0 = [num(0), B.rec(sx, 0x205, struct.pack('<HHH', 1, 0, 0), sx.bytes('b', 1), b'\0')]
    sx.assume(s0[1][10] <= 1)
    s1 = [num(1), B.rec(sx, 0xFD, struct.pack('<HHHI', 0, 0, 0, 0)) if bv >= 80 else
          B.rec(sx, 0x204, struct.pack('<HHHH', 0, 0, 0, 1), b'x')]
    return rich.assemble(sx, bv, g, [s0, s1, []])


def harness(sx, X, case):
    stream = build(sx, case)
    kw = {'formatting_info': bool(case.get('fi'))}
    names = ['Sheet1', 'Sheet2', 'Sheet3']
    env0, base = open_form(sx, X, case['form'], stream, False, **kw)
    want = [sheet_state(base.sheet_by_index(i)) for i in range(3)]
    env, bk = open_form(sx, X, case['form'], stream, True, **kw)
    if B.AFTER:
        B.AFTER()           # another workbook is opened and read before the sheets of this one
    loaded = [False] * 3
    ever = [False] * 3
    released = False
    got = []

    def obtained(sh, i):
        sx.reach('reload' if ever[i] and not loaded[i] else 'load')
        sx.check_same(sheet_state(sh), want[i], 'content of sheet %d' % i)
        loaded[i] = ever[i] = True
        got.append((sh, i))

    def load(f, i):
        if released and not loaded[i]:
            sx.reach('refused')
            sx.expect('loading after release', X.xlrd.XLRDError, f)
        else:
            if released:
                sx.reach('still readable')
            obtained(f(), i)

    for step in range(case['n']):
        if step == 0 and 'first' in case:
            op = case['first']
        else:
            op = sx.fork(sx.int('op%d' % step, 0, 4 if case['k'] == 'rich' else 9))
            if case['k'] == 'rich' and op == 4:
                op = 6
        i = 0
        if op in (0, 1, 2, 3, 4, 5) or op == 8:
            i = sx.fork(sx.int('i%d' % step, 0, 2))
        if op == 0:
            load(lambda: bk.sheet_by_index(i), i)
        elif op == 1:
            load(lambda: bk.sheet_by_name(names[i]), i)
        elif op == 2:
            sx.reach('unload')
            bk.unload_sheet(i)
            loaded[i] = False
        elif op == 3:
            bk.unload_sheet(names[i])
            loaded[i] = False
        elif op == 4:
            load(lambda: bk[i], i)
        elif op == 5:
            load(lambda: bk[names[i]], i)
        elif op == 6:
            sx.reach('release')
            bk.release_resources()
            released = True
            sx.check_same(env.still_open(), [], 'released')
        elif op == 7:
            if released and not all(loaded):
                sx.expect('loading all after release', X.xlrd.XLRDError, bk.sheets)
            else:
                shs = bk.sheets()
                sx.check_same(len(shs), 3, 'sheets()')
                for j in range(3):
                    obtained(shs[j], j)
        elif op == 8:
            # iterate over the first i + 1 sheets
            sx.reach('iterate')
            it = iter(bk)
            for j in range(i + 1):
                if released and not loaded[j]:
                    sx.expect('iterating after release', X.xlrd.XLRDError, lambda: next(it))
                    break
                obtained(next(it), j)
        else:
            sx.reach('unknown name')
            for f in (bk.sheet_by_name, bk.unload_sheet, bk.sheet_loaded, bk.__getitem__):
                sx.expect('unknown sheet name', X.xlrd.XLRDError, f, 'Sheet9')
        sx.check_same(bk.nsheets, 3, 'nsheets')
        sx.check_same(bk.sheet_names(), names, 'sheet names')
        for j in range(3):
            sx.check_same(bk.sheet_loaded(j), loaded[j], 'sheet_loaded by index')
            sx.check_same(bk.sheet_loaded(names[j]), loaded[j], 'sheet_loaded by name')
    for sh, i in got:
        sx.check_same(sheet_state(sh), want[i], 'sheet %d afterwards' % i)
