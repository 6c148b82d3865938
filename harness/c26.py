"""C26: the text of a name formula denotes the stored expression tree."""
import struct
from . import biff as B
from . import c23 as N

PROP = 'C26'
BOUNDS = ['every tree of at most three operators (12 binary operators, 3 reference operators on references, 2 signs and percent), '
          'the operator bytes arbitrary; thorough: also four operators, the '
          'binary ones of one or two per precedence level',
          'every tree of at most one operator over every kind of leaf: integer, number (negative, large, small), string, boolean, '
          'error, reference, area, global and local name (sheet name with blank), function without arguments, in BIFF8, 7 and 5',
          'functions (fixed and variable number of arguments, the SUM attribute) of one to three arguments, each a leaf or any '
          'operator, as root and as operand',
          'one string leaf of up to three arbitrary characters (8-bit and 16-bit), or of 60 and 255 with three arbitrary',
          'trees of 20 to 31 operators of seven shapes, operators in two patterns of any phase; functions of 30 arguments, 30 nested calls']
ASSUMES = ['Reference operators have references as operands.', 'Text is read with Excel\'s documented precedence: ":", blank, ",", '
           'sign, "%", "^", "*" "/", "+" "-", "&", comparison; binary operators associate to the left.']
REACH = ['long', 'parentheses', 'no parentheses', 'union', 'string', 'quote', 'function', 'no arguments', 'missing', 'local', 'error', 'attr']
OPTS = {'max_steps': 400000}

BIN = {3: '+', 4: '-', 5: '*', 6: '/', 7: '^', 8: '&', 9: '<', 10: '<=', 11: '=', 12: '>=', 13: '>', 14: '<>'}
REF = {15: ' ', 16: ',', 17: ':'}
UN = {0x12: '+', 0x13: '-', 0x14: '%'}
FEW = (3, 4, 6, 7, 8, 9)
PREC = {':': 10, ' ': 9, ',': 8, '%': 6, '^': 5, '*': 4, '/': 4, '+': 3, '-': 3, '&': 2,
        '<': 1, '<=': 1, '=': 1, '>=': 1, '>': 1, '<>': 1}
FUNC = {1: 'IF', 4: 'SUM', 100: 'CHOOSE', 24: 'ABS', 19: 'PI', 8: 'ROW'}


# Shapes: 'n' number leaf, 'r' reference leaf, ('b', x, y), ('R', x, y), ('u', x), ('f', func, args...)
def refs(n):
    if n == 0:
        return ['r']
    return [('R', a, b) for i in range(n) for a in refs(i) for b in refs(n - 1 - i)]


def vals(n):
    if n == 0:
        return ['n']
    out = refs(n)
    out += [('u', a) for a in vals(n - 1)]
    out += [('b', a, b) for i in range(n) for a in vals(i) for b in vals(n - 1 - i)]
    return out


def kinds(s):
    return s if isinstance(s, str) else s[0] + ''.join(kinds(x) for x in s[1:] if not isinstance(x, int))


def name(s):
    return s if isinstance(s, str) else s[0] + '(' + ''.join(name(x) if not isinstance(x, int) else str(x) for x in s[1:]) + ')'


LEAVES = ('int', 'num', 'neg', 'big', 'small', 'str', 'bool', 'err', 'ref', 'area', 'glob', 'loc', 'pi', 'row')


def cases(tier):
    out = []
    def add(k, shape, bv=80, **kw):
        out.append(dict({'name': '%s-%d-%s%s' % (k, bv, name(shape), ''.join('-%s' % v for v in kw.values())), 'k': k, 'bv': bv,
                         'shape': shape, 'weight': 3 ** kinds(shape).count('b')}, **kw))
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for s in vals(n):
            nb = kinds(s).count('b')
            if nb >= 3:
                for first in BIN:
                    if n < 4 or first in FEW:
                        add('tree', s, first=first, few=n == 4)
            else:
                add('tree', s, few=n == 4)
    for bv in (80, 70, 50):
        for lf in LEAVES:
            if bv == 50 and lf not in ('str', 'ref', 'loc'):
                continue
            for s in (lf, ('b', lf, 'n'), ('b', 'n', lf), ('u', lf), ('b', lf, lf)):
                add('leaf', s, bv)
    for lf in ('ref', 'glob', 'loc', 'row'):
        for s in (('R', lf, 'r'), ('R', 'r', lf)):
            add('leaf', s)
    one = ['n', 'r', ('b', 'n', 'n'), ('u', 'n'), ('R', 'r', 'r'), ('u', ('R', 'r', 'r'))]
    for f in (24, 4, -4):
        for a in one:
            add('func', ('f', f, a))
            add('func', ('b', ('f', f, a), 'n'))
            add('func', ('b', 'n', ('f', f, a)))
            add('func', ('u', ('f', f, a)))
    for f in (4, 1, 100):
        for a in one:
            for b in one + ['miss']:
                add('func', ('f', f, a, b))
            add('func', ('f', f, 'n', a, 'r'))
            add('func', ('f', f, 'miss' if f == 4 else 'n', 'n', a))
            add('func', ('b', ('f', f, a, 'n'), 'n'))
            add('func', ('b', 'n', ('f', f, a, ('f', 4, 'n', 'r'))))
        for lf in ('pi', 'row'):
            add('func', ('f', f, 'n', lf))
            add('func', ('b', 'n', ('f', f, lf, 'n')))
    for bv in (80, 70):
        for n in (0, 1, 2, 3) if tier != 'quick' else (0, 1, 2) if bv == 80 else (0, 1):
            for wide in (0, 1) if bv == 80 else (0,):
                for s in (('b', 'sym', 'n'), ('f', 4, 'n', 'sym')):
                    add('str', s, bv, n=n, wide=wide)
    for how in ('left', 'right', 'zig', 'balanced', 'unary', 'args', 'calls'):
        for step in (1, 5) if how not in ('args', 'calls') else (1,):
            for bv in (80, 70):
                out.append({'name': 'long-%d-%s-%d' % (bv, how, step), 'k': 'tree', 'bv': bv, 'shape': longshape(how), 'step': step,
                            'weight': 9, 'opts': {'max_steps': 2000000}})
    for n in (60, 255):
        out.append({'name': 'longtext-%d' % n, 'k': 'str', 'bv': 80, 'shape': ('b', 'longtext', 'n'), 'n': n, 'weight': 5})
    seen = set()
    return [c for c in out if not (c['name'] in seen or seen.add(c['name']))]


def longshape(how):
    if how == 'args':
        return ('f', 4) + tuple(('b', 'n', 'n') if i % 3 else 'n' for i in range(30))
    if how == 'balanced':
        t = ['n'] * 32
        while len(t) > 1:
            t = [('b', a, b) for a, b in zip(t[::2], t[1::2])]
        return t[0]
    t = 'n'
    for i in range(20 if how == 'unary' else 30):
        if how == 'unary':
            t = ('u', t) if i % 4 else ('b', t, 'n') if i % 8 else ('b', 'n', t)
        elif how == 'calls':
            t = ('f', 4, t, 'n') if i % 2 else ('f', 24, t)
        else:
            t = ('b', 'n', t) if how == 'right' or how == 'zig' and i % 2 else ('b', t, 'n')
    return t


class Build:
    def __init__(self, sx, case):
        self.sx, self.case, self.bv = sx, case, case['bv']
        self.out, self.k = [], 0

    def num(self):
        self.k += 1
        return self.k

    def add(self, x):
        self.out.append(x)

    def op(self, table):
        """a symbolic operator byte; -> name of the input"""
        sx, case = self.sx, self.case
        keys = list(table)
        if case.get('step'):
            # operators in a fixed pattern of arbitrary phase
            if not self.out or not hasattr(self, 'phase'):
                self.sx.reach('long')
                self.phase = sx.fork(sx.int('phase', 0, 11))
                self.ops = 0
            self.ops += 1
            v = keys[(self.phase + self.ops * case['step']) % len(keys)]
            self.add(bytes([v]))
            return (v, table)
        nm = 'op%d' % self.num()
        if case.get('first') and table is BIN and not getattr(self, 'had', 0):
            self.had = 1
            v = case['first']
        else:
            v = sx.int(nm, min(keys), max(keys))
            if case.get('few') and table is BIN:
                sx.assume(sx.Or(*[v == x for x in FEW]))
        v = sx.fork(v)
        self.add(bytes([v]))
        return (v, table)

    def node(self, s):
        """emits RPN, -> expected tree, operators as (symbolic byte, table)"""
        sx, bv = self.sx, self.bv
        if not isinstance(s, str):
            if s[0] in 'bR':
                a = self.node(s[1])
                b = self.node(s[2])
                return ('bin', self.op(BIN if s[0] == 'b' else REF), a, b)
            if s[0] == 'u':
                a = self.node(s[1])
                return ('un', self.op(UN), a)
            f = s[1]
            args = [self.node(x) for x in s[2:]]
            if f == -4:
                self.add(b'\x19\x10\0\0')
                sx.reach('attr')
                f = 4
            elif f == 24:
                self.add(struct.pack('<BH', 0x41, f))
            else:
                self.add(struct.pack('<BBH', 0x42, len(args), f))
            sx.reach('function')
            return ('func', FUNC[f]) + tuple(args)
        k = self.num()
        if s in ('n', 'int'):
            self.add(struct.pack('<BH', 0x1E, k))
            return ('num', float(k))
        if s in ('num', 'neg', 'big', 'small'):
            v = {'num': 2.5, 'neg': -5.0, 'big': 1e300, 'small': 1e-7}[s]
            self.add(struct.pack('<Bd', 0x1F, v))
            return ('num', v) if v > 0 else ('un', '-', ('num', -v))
        if s == 'str':
            self.add(b'\x17\3' + (b'\0' if bv >= 80 else b'') + b'a"b')
            return ('str', 'a"b')
        if s == 'sym':
            return self.sym()
        if s == 'longtext':
            cs = [34 if i % 7 in (0, 1) else 97 + i % 26 for i in range(self.case['n'])]
            cs[0], cs[len(cs) // 2], cs[-1] = [sx.int('s%d' % i, 32, 126) for i in range(3)]
            self.add(sx.cat(b'\x17', len(cs), 0, sx.mkbytes(cs)))
            return ('str', sx.mkstr(cs))
        if s == 'bool':
            v = sx.int('bool%d' % k, 0, 1)
            self.add(sx.mkbytes([0x1D, v]))
            return ('bool', v)
        if s == 'err':
            codes = {0: '#NULL!', 7: '#DIV/0!', 15: '#VALUE!', 23: '#REF!', 29: '#NAME?', 36: '#NUM!', 42: '#N/A'}
            v = sx.int('err%d' % k, 0, 42)
            sx.assume(sx.Or(*[v == c for c in codes]))
            self.add(sx.mkbytes([0x1C, v]))
            sx.reach('error')
            return ('err', (v, codes))
        if s in ('r', 'ref', 'area'):
            lo = (k, k)
            op = 0x3B if s == 'area' else 0x3A
            head = struct.pack('<BH', op, 0) if bv >= 80 else struct.pack('<Bh8xhh', op, -1, 0, 0)
            if s == 'area':
                tail = struct.pack('<HHHH' if bv >= 80 else '<HHBB', k, k + 1, k, k + 2)
            else:
                tail = struct.pack('<HH' if bv >= 80 else '<HB', k, k)
            self.add(head + tail)
            txt = 'S0!$%s$%d' % (chr(65 + k), k + 1)
            if s != 'area':
                return ('id', txt)
            return ('bin', ':', ('id', txt), ('id', '$%s$%d' % (chr(67 + k), k + 2)))
        if s in ('glob', 'loc'):
            self.add(b'\x23' + struct.pack('<H', 1 if s == 'glob' else 2) + (b'\0\0' if bv >= 80 else b'\0' * 12))
            if s == 'loc':
                sx.reach('local')
            return ('id', 'gg' if s == 'glob' else "'S''s 1'!ll")
        if s == 'pi':
            self.add(struct.pack('<BH', 0x41, 19))
            sx.reach('no arguments')
            return ('func', 'PI')
        if s == 'row':
            self.add(struct.pack('<BBH', 0x42, 0, 8))
            sx.reach('no arguments')
            return ('func', 'ROW')
        if s == 'miss':
            self.add(b'\x16')
            sx.reach('missing')
            return ('miss',)
        raise KeyError(s)

    def sym(self):
        sx, case, n, wide = self.sx, self.case, self.case['n'], self.case['wide']
        sx.reach('string')
        if self.bv >= 80:
            units, want = B.chars8(sx, 's', ('b' if wide else 'c') * n)
            self.add(sx.cat(bytes([0x17, n, wide]), B.raw8(sx, units, wide)))
            return ('str', want)
        its = [sx.int('s%d' % i, 1, 255) for i in range(n)]
        for u in its:
            sx.assume(sx.Or(u < 0x80, u >= 0xA0))
        self.add(sx.cat(bytes([0x17, n]), sx.mkbytes(its)))
        return ('str', sx.mkstr(its))


def resolve(sx, t):
    """expected tree with concrete operators"""
    if t[0] == 'bin' and not isinstance(t[1], str):
        return ('bin', t[1][1][sx.fork(t[1][0])], resolve(sx, t[2]), resolve(sx, t[3]))
    if t[0] == 'un' and not isinstance(t[1], str):
        return ('un', t[1][1][sx.fork(t[1][0])], resolve(sx, t[2]))
    if t[0] == 'func':
        return t[:2] + tuple(resolve(sx, x) for x in t[2:])
    if t[0] == 'bool':
        return ('id', 'TRUE' if t[1] == 1 else 'FALSE')
    if t[0] == 'err':
        return ('err', t[1][1][sx.fork(t[1][0])])
    return t


class Bad(Exception):
    pass


SPECIAL = '+-*/^&<=>,:% ()"#'


def tokens(text):
    """Tokens of the text; only string tokens may hold arbitrary characters."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == '"':
            i += 1
            s = text[0:0]
            while True:
                if i >= n:
                    raise Bad('unterminated string')
                if text[i] == '"':
                    if i + 1 < n and text[i + 1] == '"':
                        s = s + '"'
                        i += 2
                        continue
                    i += 1
                    break
                s = s + text[i]
                i += 1
            out.append(('str', s))
            continue
        for e in ('#NULL!', '#DIV/0!', '#VALUE!', '#REF!', '#NAME?', '#NUM!', '#N/A'):
            if c == '#' and text[i:i + len(e)] == e:
                out.append(('err', e))
                i += len(e)
                break
        else:
            two = text[i:i + 2]
            if two == '<=' or two == '>=' or two == '<>':
                out.append(('op', '<=' if two == '<=' else '>=' if two == '>=' else '<>'))
                i += 2
                continue
            hit = None
            for sp in SPECIAL:
                if c == sp:
                    hit = sp
            if hit == '#' or hit == '"':
                raise Bad('unknown error value')
            if hit:
                out.append(('op', hit))
                i += 1
                continue
            j = i
            w = ''
            if c == "'":
                w, j = "'", i + 1
                while not (text[j] == "'" and text[j + 1:j + 2] != "'"):
                    w += str(text[j])
                    if text[j] == "'":
                        w += "'"
                        j += 1
                    j += 1
            while j < n:
                ch = text[j]
                stop = False
                for sp in SPECIAL:
                    if ch == sp:
                        stop = True
                if stop and not ((ch == '+' or ch == '-') and w[-1:] in ('e', 'E') and w[:1].isdigit()):
                    break
                w += str(ch)
                j += 1
            out.append(('num', float(w)) if w[:1].isdigit() else ('id', w))
            i = j
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end',)

    def isop(self, s):
        p = self.peek()
        return p[0] == 'op' and p[1] == s

    def eat(self, s):
        if not self.isop(s):
            raise Bad('expected %s' % s)
        self.i += 1

    def expr(self, minp, inargs):
        if self.isop('-') or self.isop('+'):
            s = self.peek()[1]
            self.i += 1
            lhs = ('un', s, self.expr(7, inargs))
        else:
            lhs = self.primary()
        while True:
            p = self.peek()
            if p[0] != 'op' or p[1] not in PREC or p[1] == ',' and inargs:
                return lhs
            pr = PREC[p[1]]
            if pr < minp:
                return lhs
            self.i += 1
            lhs = ('un', '%', lhs) if p[1] == '%' else ('bin', p[1], lhs, self.expr(pr + 1, inargs))

    def primary(self):
        p = self.peek()
        if p[0] == 'op':
            self.eat('(')
            x = self.expr(0, False)
            self.eat(')')
            return x
        if p[0] == 'end':
            raise Bad('operand missing')
        self.i += 1
        if p[0] == 'id' and self.isop('('):
            self.i += 1
            args = []
            if self.isop(')'):
                self.i += 1
                return ('func', p[1])
            while True:
                if self.isop(',') or self.isop(')'):
                    args.append(('miss',))
                else:
                    args.append(self.expr(0, True))
                if self.isop(')'):
                    self.i += 1
                    return ('func', p[1]) + tuple(args)
                self.eat(',')
        return p


def parse(text):
    p = Parser(tokens(text))
    x = p.expr(0, False)
    if p.peek()[0] != 'end':
        raise Bad('trailing text')
    return x


def plain(t):
    """structure of a tree without its strings, and its strings"""
    if t[0] == 'str':
        return ('str',), [t[1]]
    ss, out = [], []
    for x in t:
        if isinstance(x, tuple):
            x, s = plain(x)
            ss += s
        out.append(x)
    return tuple(out), ss


def harness(sx, X, case):
    bv, shape = case['bv'], tuple_(case['shape'])
    b = Build(sx, case)
    want = b.node(shape)
    fmla = sx.cat(*b.out)
    wide = b'\0' if bv >= 80 else b''
    recs = []
    names = ['S0', "S's 1"]
    if bv >= 80:
        recs += [B.rec(sx, 0x1AE, b'\2\0\1\4'), B.rec(sx, 0x17, struct.pack('<HHHH', 1, 0, 0, 0))]
        scope = (0, 2)
    else:
        recs += [B.rec(sx, 0x17, bytes([len(n), 3]) + n.encode()) for n in names]
        scope = (2, 0)
    recs.append(N.name_rec(sx, bv, 0, 0, wide + b'gg', 2, b'\x1e\5\0', (0, 0)))
    recs.append(N.name_rec(sx, bv, 0, 0, wide + b'll', 2, b'\x1e\6\0', scope))
    recs.append(N.name_rec(sx, bv, 0, 0, wide + b'tt', 2, fmla, (0, 0)))
    data = B.workbook(sx, [[], []], recs if bv >= 80 else recs, biff=bv, cp=1200 if bv >= 80 else 1252, names=names)
    bk = B.open_wb(sx, X, data)
    res = bk.name_obj_list[2].result
    sx.check(res is not None, 'a result')
    text = res.text
    want, ws = plain(resolve(sx, want))
    try:
        got, gs = plain(parse(text))
    except Bad as e:
        return sx.check(False, 'formula text can be read: %s' % e)
    sx.check_same(got, want, 'expression tree of the text')
    sx.check_same(len(gs), len(ws), 'strings')
    for g, w in zip(gs, ws):
        sx.check_same(g, w, 'string constant')
        for i in range(len(w)):
            if w[i] == '"':
                sx.reach('quote')
    if case['k'] == 'tree':
        par = False
        for i in range(len(text)):
            if text[i] == '(':
                par = True
        sx.reach('parentheses' if par else 'no parentheses')
        if ',' in str(want):
            sx.reach('union')


def tuple_(s):
    return tuple(tuple_(x) for x in s) if isinstance(s, (list, tuple)) else s
