"""C25: constant name formulas evaluate like Excel, or to unknown."""
import math
import struct
from decimal import Decimal, ROUND_HALF_EVEN, Context
from . import biff as B
from . import c23 as N
from . import c26 as T

PROP = 'C25'
BOUNDS = ['one operator with an arbitrary operator byte: operands arbitrary doubles and integers (+ - * / and comparisons, sign, '
          'percent), 14 chosen numbers (also ^ and &), 24 chosen strings, strings of one or two arbitrary characters (8-bit and '
          '16-bit), booleans, all error values, references, and functions of unknown value, in every pairing',
          'two operators of arbitrary operator bytes over three numbers, two strings, boolean, error',
          'IF with two and three, CHOOSE with two to four arguments, each argument a leaf of any kind or missing, and as operands of '
          'operators; with and without the jump attributes that Excel stores',
          'chains of 3 to 200 operands (left or right nested), of signs and of texts up to 255 characters each, comparisons of such texts, '
          'CHOOSE with 29 values',
          'BIFF8 and BIFF7']
ASSUMES = ['Doubles in formulas are finite.', 'Booleans are 0 or 1, error codes those of Excel.',
           'Arithmetic is that of IEEE doubles; numbers that differ but agree to 15 digits are not compared.',
           'Where Excel\'s result depends on the locale, or is an error, any unknown value is right.']
REACH = ['long', 'number', 'text', 'boolean', 'unknown', 'error value', 'zero divide', 'overflow', 'power', 'text number', 'if', 'choose',
         'missing', 'mixed comparison', 'case', 'reference']
OPTS = {'max_steps': 400000, 'query_ms': 20000}

NUMS = (0.0, 1.0, -1.0, 2.0, 0.5, -8.0, 1 / 3.0, 1e14 + 0.25, 1e15, 1e-5, 1e308, -0.0, 100.0, -2.5)
STRS = (u'', u'a', u'A', u'b', u'1', u' 2 ', u'1_0', u'nan', u'inf', u'1e3', u'1e999', u'-3.5', u'\xe9', u'\xc9', u'a-b', u'0x10',
        u'\u0661', u'5%', u'5\n', u'TRUE', u'.5', u'1.', u'+1', u'1234567890123456', u'0', u'Ab', u'a!')
FEWN = (0.0, -2.5, 1e308)
FEWS = (u'B', u'2')
TEST = (0.0, 1.0, -1.0, 0.5, 1.75, 2.0, 2.5, 3.0, 4.0)
ERRS = (0, 7, 15, 23, 29, 36, 42)
BIN, UN = T.BIN, T.UN
CMP = ('<', '<=', '=', '>=', '>', '<>')
KIND = {'num': 2, 'str': 1, 'bool': 3, 'err': 4}
NONE = ('none',)

LEAVES = ('C', 'S', 'B', 'E', 'R', 'F', 'I', 'D')


def cases(tier):
    out = []
    def add(k, shape, bv=80, **kw):
        out.append(dict({'name': '%s-%d-%s%s' % (k, bv, T.name(shape), ''.join('-%s' % v for v in kw.values())), 'k': k, 'bv': bv,
                         'shape': shape, 'weight': 2}, **kw))
    for a in LEAVES:
        add('one', a)
        add('one', ('u', a))
        for b in LEAVES:
            if 'D' in a + b and (a not in 'DIC' or b not in 'DIC'):
                continue
            for grp in (3, 5, 6, 7, 8, 9, 12):
                if grp in (7, 8) and ('D' in a + b or 'I' in a + b):
                    continue
                add('one', ('b', a, b), grp=grp)
    for bv in (80, 70):
        add('one', ('b', 'S', 'C'), bv, grp=3)
        add('one', ('b', 'S', 'S'), bv, grp=8)
    for n, wide in ((1, 0), (1, 1), (2, 0)):
        for grp in (3, 5, 6):
            add('sym', ('b', 'Y', 'c'), n=n, wide=wide, grp=grp)
            if tier != 'quick':
                add('sym', ('b', 'c', 'Y'), n=n, wide=wide, grp=grp)
        add('sym', ('u', 'Y'), n=n, wide=wide)
        for grp in (8, 9, 12):
            add('sym', ('b', 'Y', 's'), n=n, wide=wide, grp=grp)
            add('sym', ('b', 's', 'Y'), n=n, wide=wide, grp=grp)
    few = ('c', 's', 'B', 'e')
    for a in few:
        for b in few:
            add('two', ('u', ('b', a, b)))
            add('two', ('b', ('u', a), b))
            add('two', ('b', a, ('u', b)))
            for c in few:
                if tier == 'quick' and ('c' not in (a, b, c) or sum(x in 'Be' for x in (a, b, c)) > 1):
                    continue
                for grp in (3, 5, 6, 7, 8, 9, 12):
                    if tier == 'quick' and (a + b + c).count('s') > 1 and grp in (5, 6, 7):
                        continue
                    add('two', ('b', ('b', a, b), c), grp=grp, few=tier == 'quick')
                    add('two', ('b', a, ('b', b, c)), grp=grp, few=tier == 'quick')
        add('two', ('u', ('u', a)))
    args = ('c', 's', 'B', 'e', 'R', 'F', 'M', ('b', 'c', 'n'))
    for attr in (0, 1):
        for t in ('T', 's', 'B', 'e', 'R', 'F', ('b', 'T', 'n')):
            for a in args:
                if attr and (t not in ('B', 'T') or a not in ('c', 'M')):
                    continue
                add('if', ('f', 1, t, a), attr=attr)
                add('if', ('f', 1, t, a, 'n'), attr=attr)
                add('if', ('f', 1, t, 'n', a), attr=attr)
                if not isinstance(a, tuple):
                    add('choose', ('f', 100, t, a), attr=attr)
                    add('choose', ('f', 100, t, 'n', a), attr=attr)
                    add('choose', ('f', 100, t, 'n', a, 'n'), attr=attr)
        for t in ('B', 'T') if tier != 'quick' or not attr else ():
            add('if', ('b', ('f', 1, t, 'c', 's'), 'c'), attr=attr)
            add('if', ('b', 'M1', ('f', 1, t, 'M', 'c')), attr=attr)
            add('if', ('u', ('f', 1, t, 's', 'E')), attr=attr)
            add('choose', ('b', ('f', 100, t, 'c', 's'), 'c'), attr=attr)
            add('if', ('f', 1, ('b', t, 'n'), ('f', 1, t, 'n', 's'), 'n'), attr=attr)
    for bv in (80, 70):
        for how in ('sum', 'deep', 'text', 'textdeep', 'choose', 'compare', 'unary'):
            out.append({'name': 'long-%s-%d' % (how, bv), 'k': 'long', 'how': how, 'bv': bv, 'weight': 5,
                        'opts': {'max_steps': 2000000}})
    return out


def long_formula(sx, case):
    """-> (tokens, expected value) of a formula of many operands."""
    bv, how = case['bv'], case['how']
    sx.reach('long')
    tint = lambda v: sx.cat(b'\x1e', sx.pack('<H', v))
    n = (3, 16, 64, 200)[sx.fork(sx.int('n', 0, 3))]
    if how in ('sum', 'deep'):
        a = sx.u16('a')
        vals = [a] + [(i * 37) % 1000 + 1 for i in range(1, n)]
        ops = [(3, 4, 3, 5, 4, 3, 3)[i % 7] if how == 'sum' and i < 30 else 3 + i % 2 for i in range(n - 1)]
        f = lambda o, x, y: x + y if o == 3 else x - y if o == 4 else x * y
        if how == 'sum':
            out, v = [tint(vals[0])], vals[0] * 1.0
            for o, y in zip(ops, vals[1:]):
                out += [tint(y), bytes([o])]
                v = f(o, v, y * 1.0)
        else:
            out, v = [tint(x) for x in vals], vals[-1] * 1.0
            for o, x in zip(ops, vals[-2::-1]):
                out.append(bytes([o]))
                v = f(o, x * 1.0, v)
        return sx.cat(*out), ('num', v)
    if how == 'unary':
        v = sx.u16('a')
        signs = [0x13 if i % 3 else 0x12 for i in range(n)]
        neg = sum(o == 0x13 for o in signs) % 2
        return sx.cat(tint(v), bytes(signs)), ('num', v * (-1.0 if neg else 1.0))

    def text(cs):
        return sx.cat(b'\x17', len(cs), b'\0' if bv >= 80 else b'', sx.mkbytes(cs))
    if how == 'compare':
        ln = (100, 127, 128, 255)[sx.fork(sx.int('len', 0, 3))]
        base = [97 + i % 26 for i in range(ln - 1)]
        x, y = sx.int('x', 97, 122), sx.int('y', 97, 122)
        op = sx.fork(sx.int('op', 9, 14))
        c = {9: x < y, 10: x <= y, 11: x == y, 12: x >= y, 13: x > y, 14: x != y}[op]
        return sx.cat(text(base + [x]), text(base + [y]), bytes([op])), ('bool', sx.ite(c, 1, 0))
    if how == 'choose':
        k = sx.fork(sx.int('k', 1, 29))
        args = [sx.u16('v%d' % i) for i in range(1, 30)]
        return sx.cat(tint(k), *([tint(v) for v in args] + [struct.pack('<BBH', 0x42, 30, 100)])), ('num', args[k - 1] * 1.0)
    m = min(n, 16)
    parts = [[33 + (i * 5 + j) % 90 for j in range((20, 255, 1, 128)[i % 4])] for i in range(m)]
    parts[0][0] = sx.int('x', 1, 127)
    parts[-1][-1] = sx.int('y', 1, 127) if parts[-1] is not parts[0] else parts[-1][-1]
    out = [text(p) for p in parts]
    if how == 'text':
        for i in range(1, m):
            out[i] = sx.cat(out[i], b'\x08')
    else:
        out.append(b'\x08' * (m - 1))
    return sx.cat(*out), ('str', sx.mkstr(sum(parts, [])))


class Build(T.Build):
    def pick(self, vals):
        return vals[self.sx.fork(self.sx.int('k%d' % self.num(), 0, len(vals) - 1))]

    def op(self, table):
        sx, case = self.sx, self.case
        if table is BIN and 'grp' in case and not getattr(self, 'had', 0):
            self.had = 1
            g = case['grp']
            v = sx.int('op%d' % self.num(), g, {3: 4, 9: 11, 12: 14}.get(g, g))
        else:
            v = sx.int('op%d' % self.num(), min(table), max(table))
            if case.get('few') and table is BIN:
                sx.assume(sx.Or(*[v == x for x in (3, 6, 7, 8, 9, 11)]))
        v = sx.fork(v)
        self.add(bytes([v]))
        return (v, table)

    def str(self, s):
        if self.bv < 80:
            raw = s.encode('cp1252', 'ignore')
            self.add(bytes([0x17, len(raw)]) + raw)
            return ('str', raw.decode('cp1252'))
        try:
            raw, w = s.encode('latin-1'), 0
        except UnicodeEncodeError:
            raw, w = s.encode('utf-16-le'), 1
        self.add(bytes([0x17, len(s), w]) + raw)
        return ('str', s)

    def node(self, s):
        sx, bv = self.sx, self.bv
        if not isinstance(s, str):
            if s[0] == 'f':
                f, attr = s[1], self.case['attr']
                sx.reach('if' if f == 1 else 'choose')
                args = []
                for i, x in enumerate(s[2:]):
                    args.append(self.node(x))
                    if attr:
                        if i == 0 and f == 1:
                            self.add(b'\x19\x02\x07\0')
                        elif i == 0:
                            n = len(s) - 3
                            self.add(struct.pack('<BBH', 0x19, 4, n) + b'\1\0' * (n + 1))
                        else:
                            self.add(b'\x19\x08\x03\0')
                    if i == 0 and attr:
                        self.add(b'\x19\x40\0\1')
                self.add(struct.pack('<BBH', 0x42, len(args), f))
                return ('func', f) + tuple(args)
            return T.Build.node(self, s)
        if s in 'CcT' or s == 'M1':
            v = self.pick(NUMS if s == 'C' else TEST if s == 'T' else FEWN)
            self.add(struct.pack('<Bd', 0x1F, v))
            return ('num', v)
        if s in 'Ss':
            return self.str(self.pick(STRS if s == 'S' else FEWS))
        if s == 'B':
            v = sx.int('b%d' % self.num(), 0, 1)
            self.add(sx.mkbytes([0x1D, v]))
            return ('bool', v)
        if s == 'E':
            v = sx.int('e%d' % self.num(), 0, 42)
            sx.assume(sx.Or(*[v == c for c in ERRS]))
            self.add(sx.mkbytes([0x1C, v]))
            return ('err', v)
        if s == 'n':
            return T.Build.node(self, s)
        if s == 'e':
            self.add(b'\x1c\x17')
            return ('err', 23)
        if s == 'I':
            v = sx.u16('i%d' % self.num())
            self.add(sx.pack('<BH', 0x1E, v))
            return ('num', v * 1.0)
        if s == 'D':
            v = sx.double('d%d' % self.num())
            sx.assume(v - v == 0)
            self.add(sx.pack('<Bd', 0x1F, v))
            return ('num', v)
        if s == 'Y':
            sx.reach('text number')
            return self.sym()
        if s == 'M':
            self.add(b'\x16')
            sx.reach('missing')
            return ('miss',)
        if s == 'R':
            sx.reach('reference')
            self.add(struct.pack('<BHHH', 0x3A, 0, 1, 2) if bv >= 80 else struct.pack('<Bh8xhhHB', 0x3A, -1, 0, 0, 1, 2))
            return ('any',)
        self.add(struct.pack('<BBH', 0x42, 0, 8) if s == 'F' else b'')
        return NONE


# -- Excel's semantics ------------------------------------------------------
def finite(v):
    return v - v == 0


def isdigit(c):
    return c >= '0' and c <= '9'


def text_number(s):
    """The number a text converts to in every locale, else None."""
    i, n = 0, len(s)
    if n > 15:
        return None
    while i < n and s[i] == ' ':
        i += 1
    while n > i and s[n - 1] == ' ':
        n -= 1
    j = i
    if j < n and (s[j] == '-' or s[j] == '+'):
        j += 1
    k = j
    while j < n and isdigit(s[j]):
        j += 1
    digits = j - k
    if j < n and s[j] == '.':
        j += 1
        k = j
        while j < n and isdigit(s[j]):
            j += 1
        digits += j - k
    if not digits:
        return None
    if j < n and (s[j] == 'e' or s[j] == 'E'):
        j += 1
        if j < n and (s[j] == '-' or s[j] == '+'):
            j += 1
        k = j
        while j < n and isdigit(s[j]):
            j += 1
        if j == k:
            return None
    if j != n:
        return None
    v = float(''.join(str(s[x]) for x in range(i, n)))
    return v if finite(v) else None


def number_text(v):
    if v == 0:
        return '0'
    if not 1e-4 <= abs(v) < 1e15:
        return None
    d = Decimal(v).normalize(Context(prec=15, rounding=ROUND_HALF_EVEN))
    t = format(d, 'f')
    return None if abs(d) >= 10 ** 15 else t


def num(x):
    if x[0] == 'num':
        return x[1]
    if x[0] == 'str':
        return text_number(x[1])
    return None


def ascii_(s, alnum):
    for c in s:
        if not (isdigit(c) or c >= 'a' and c <= 'z' or c >= 'A' and c <= 'Z' or not alnum and c < '\x80'):
            return False
    return True


def fold(sx, s):
    return [sx.ite(sx.And(c >= 65, c <= 90), c + 32, c) for c in sx.items(s)]


def compare(sx, op, x, y):
    """True, False, or None"""
    if x[0] not in ('num', 'str') or y[0] not in ('num', 'str'):
        return None
    if x[0] != y[0]:
        sx.reach('mixed comparison')
        c = -1 if x[0] == 'num' else 1
    elif x[0] == 'num':
        c = -1 if x[1] < y[1] else 1 if x[1] > y[1] else 0
    elif x[1] == y[1]:
        c = 0
    else:
        alnum = op not in ('=', '<>')
        if not ascii_(x[1], alnum) or not ascii_(y[1], alnum):
            return None
        sx.reach('case')
        a, b = fold(sx, x[1]), fold(sx, y[1])
        c = 0
        for p, q in zip(a, b):
            if p != q:
                c = -1 if p < q else 1
                break
        else:
            c = (len(a) > len(b)) - (len(a) < len(b))
    return {'<': c < 0, '<=': c <= 0, '=': c == 0, '>=': c >= 0, '>': c > 0, '<>': c != 0}[op]


def binop(sx, op, x, y):
    if op in CMP:
        r = compare(sx, op, x, y)
        return NONE if r is None else ('bool', 1 if r else 0)
    if op == '&':
        t = [number_text(v[1]) if v[0] == 'num' else v[1] if v[0] == 'str' else None for v in (x, y)]
        return NONE if t[0] is None or t[1] is None else ('str', t[0] + t[1])
    a, b = num(x), num(y)
    if a is None or b is None:
        return NONE
    if op == '^':
        sx.reach('power')
        if a == 0 and b <= 0 or a < 0 and b != math.floor(b):
            return NONE
        try:
            r = math.pow(a, b)
        except (OverflowError, ValueError):
            return NONE
    elif op == '/':
        if b == 0:
            sx.reach('zero divide')
            return NONE
        r = a / b
    else:
        r = a + b if op == '+' else a - b if op == '-' else a * b
    if not finite(r):
        sx.reach('overflow')
        return NONE
    return ('num', r)


def unop(op, x):
    if op == '+':
        return x if x[0] in ('num', 'str', 'bool') else NONE
    a = num(x)
    if a is None:
        return NONE
    return ('num', -a if op == '-' else a / 100.0)


def evaluate(sx, t):
    if t[0] == 'bin':
        x, y = evaluate(sx, t[2]), evaluate(sx, t[3])
        return binop(sx, t[1][1][sx.fork(t[1][0])], x, y)
    if t[0] == 'un':
        return unop(t[1][1][sx.fork(t[1][0])], evaluate(sx, t[2]))
    if t[0] != 'func':
        return t
    args = t[2:]
    c = evaluate(sx, args[0])
    if t[1] == 1:
        if c[0] not in ('num', 'bool') or not (c[1] == 0 or c[1] == 1):
            # another number is true in Excel; xlrd need not know
            if c[0] == 'num':
                return ('perhaps', evaluate(sx, args[1]))
            return NONE
        if c[1] == 1:
            r = evaluate(sx, args[1])
        elif len(args) == 2:
            return ('bool', 0)
        else:
            r = evaluate(sx, args[2])
    else:
        if c[0] == 'bool':
            return ('perhaps', evaluate(sx, args[1])) if c[1] == 1 else NONE
        n = num(c)
        if n is None or not 1 <= n < len(args):
            return NONE
        r = evaluate(sx, args[int(n)])
        if c[0] == 'str':
            return ('perhaps', r)
    return ('num', 0.0) if r[0] == 'miss' else r


def harness(sx, X, case):
    bv, shape = case['bv'], T.tuple_(case.get('shape', 'c'))
    if case['k'] == 'long':
        fmla, tree = long_formula(sx, case)
    else:
        b = Build(sx, case)
        tree = b.node(shape)
        fmla = sx.cat(*b.out)
    recs = []
    if bv >= 80:
        recs += [B.rec(sx, 0x1AE, b'\1\0\1\4'), B.rec(sx, 0x17, struct.pack('<HHHH', 1, 0, 0, 0))]
    recs.append(N.name_rec(sx, bv, 0, 0, (b'\0' if bv >= 80 else b'') + b'tt', 2, fmla, (0, 0)))
    data = B.workbook(sx, [[]], recs, biff=bv, cp=1200 if bv >= 80 else 1252, names=['S0'])
    bk = B.open_wb(sx, X, data)
    res = bk.name_obj_list[0].result
    sx.check(res is not None, 'a result')
    want = evaluate(sx, tree)
    if want[0] in ('any', 'miss'):
        return
    if want[0] == 'perhaps':
        want = want[1]
        if want[0] in ('any', 'miss') or res.value is None:
            return
    if want[0] == 'err':
        sx.reach('error value')
        if res.value is None:
            return
    if want[0] == 'none':
        sx.reach('unknown')
        sx.check(res.value is None, 'no value where Excel gives an error or the value is not known')
        return
    sx.reach({'num': 'number', 'str': 'text', 'bool': 'boolean', 'err': 'error value'}[want[0]])
    sx.check(res.value is not None, 'a value')
    sx.check_same(res.kind, KIND[want[0]], 'kind of the result')
    if want[0] == 'num':
        sx.check(res.value == want[1], 'number')
    else:
        sx.check_same(res.value, want[1], 'value')
