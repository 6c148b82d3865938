"""The object a harness talks to: symbolic or concrete inputs, checks."""
import math
import struct
import sys
import types
import z3
from . import engine, runtime, values
from .values import (SInt, SBool, SFloat, SBytes, SStr, SLazyStr, SYMTYPES, ite, sand, sor,
                     snot, sbool, mkint, mkbytes, mkstr, bytes_to_int, const, ext, coerce,
                     byteitems, stritems, bexpr)


class Skip(Exception):
    """A concrete replay left the assumed input space."""


def same(a, b):
    """Deep, type-strict equality (floats by bit pattern); no forking."""
    ta, tb = type(a), type(b)
    if ta in SYMTYPES or tb in SYMTYPES:
        ka, kb = kind(a), kind(b)
        if ka != kb:
            return False
        if ka == 'float':
            x, y = values.sfloat(a), values.sfloat(b)
            if x._bits is None or y._bits is None:
                # same IEEE value, sign of zero included (or both NaN)
                return values.mkbool(x.fp == y.fp)
            return values.mkbool(z3.simplify(x.bits == y.bits))
        return sbool(a == b)
    ka, kb = kind(a), kind(b)
    if ka != kb:
        return False
    if ka == 'seq':
        if len(a) != len(b):
            return False
        return sand(*[same(x, y) for x, y in zip(list(a), list(b))])
    if ka == 'float':
        return struct.pack('<d', a) == struct.pack('<d', b) or (a != a and b != b)
    if ka == 'dict':
        if len(a) != len(b):
            return False
        conds = []
        bi = list(b.items())
        for k, v in a.items():
            alts = [sand(same(k, k2), same(v, v2)) for k2, v2 in bi]
            conds.append(sor(*alts))
        return sand(*conds)
    return sbool(a == b)


def kind(x):
    if x is None:
        return 'none'
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, int):
        return 'int'
    if isinstance(x, float):
        return 'float'
    if isinstance(x, str):
        return 'str'
    if isinstance(x, (bytes, bytearray)):
        return 'bytes'
    if isinstance(x, dict):
        return 'dict'
    if isinstance(x, (tuple, list)) or type(x).__name__ == 'array':
        return 'seq'
    return type(x).__name__


class Base(object):
    def u8(self, name):
        return self.int(name, 0, 255)

    def u16(self, name):
        return self.int(name, 0, 65535)

    def u32(self, name):
        return self.int(name, 0, 0xFFFFFFFF)

    def bytes(self, name, n):
        return self.mkbytes([self.u8('%s[%d]' % (name, i)) for i in range(n)])

    def ints(self, name, n, lo, hi):
        return [self.int('%s[%d]' % (name, i), lo, hi) for i in range(n)]

    def check_same(self, a, b, label):
        self.check(same(a, b), label)

    # value helpers usable from harness code in both modes
    same = staticmethod(same)
    ite = staticmethod(ite)
    And = staticmethod(sand)
    Or = staticmethod(sor)
    Not = staticmethod(snot)

    @staticmethod
    def Implies(a, b):
        return sor(snot(sbool(a)), b)

    @staticmethod
    def number(its):
        from . import codec
        return codec.number(its)

    @staticmethod
    def table(b, vals):
        from . import codec
        return codec.table(b, vals)

    @staticmethod
    def mkbytes(items):
        return mkbytes(list(items))

    @staticmethod
    def mkstr(items):
        return mkstr(list(items))

    @staticmethod
    def cat(*chunks):
        out = []
        for c in chunks:
            if isinstance(c, (bytes, bytearray)):
                out.extend(byteitems(c))
            elif isinstance(c, int):
                out.append(c)
            else:
                out.extend(c)
        return mkbytes(out)

    @staticmethod
    def items(x):
        return list(byteitems(x)) if isinstance(x, (bytes, bytearray)) else list(stritems(x))

    @staticmethod
    def pack(fmt, *a):
        return runtime.s_pack(fmt, *a)

    @staticmethod
    def unpack(fmt, d):
        return runtime.s_unpack(fmt, d)

    def attempt(self, f, *a, **k):
        """('ok', value) or ('exc', exception)."""
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            return 'exc', e

    def expect(self, label, exc, f, *a, **k):
        """Check that the call raises exc; returns the exception or None."""
        try:
            v = f(*a, **k)
        except exc as e:
            return e
        self.check(False, label)
        return None


class SymX(Base):
    symbolic = True

    def __init__(self, path):
        self.p = path

    def int(self, name, lo, hi):
        w = values.width_for(lo, hi)
        v = self.p.bv_input(name, w)
        self.p.inputs[name] = ('bv', v, w, lo < 0, (lo, hi))
        s = SInt(v, lo, hi)
        if lo >= 0:
            if lo > 0:
                self.p.assume(z3.UGE(v, const(lo, w)))
            if hi != (1 << w) - 1:
                self.p.assume(z3.ULE(v, const(hi, w)))
        else:
            if lo != -(1 << (w - 1)):
                self.p.assume(v >= const(lo, w))
            if hi != (1 << (w - 1)) - 1:
                self.p.assume(v <= const(hi, w))
        if lo == hi:
            return lo
        return s

    def bool(self, name):
        v = self.p.bv_input(name, 1)
        self.p.inputs[name] = ('bv', v, 1, False)
        return SBool(v == const(1, 1))

    def double(self, name):
        v = self.p.bv_input(name, 64)
        self.p.inputs[name] = ('bv', v, 64, False)
        return SFloat(bits=v)

    def assume(self, c):
        c = sbool(c)
        if c is True:
            return
        if c is False:
            self.p.dead = True
            self.p.stats.infeasible += 1
            raise engine.PathEnd()
        self.p.assume(c.b)

    def check(self, c, label):
        if type(label) is not str or type(c) is str:
            raise TypeError('check(condition, label)')
        c = sbool(c)
        self.p.stats.checks += 1
        if c is True:
            return
        self.p.pending.append((label, bexpr(c)))
        if c is False:
            raise engine.PathEnd()

    def reach(self, label):
        self.p.reached.add(label)

    def observe(self, label, v):
        self.p.observed.append((label, v))

    def fork(self, x):
        """A concrete value of x (forks over all feasible ones)."""
        return values.concretize(x)

    def set_steps(self, n):
        self.p.max_steps = n

    def float_bits(self, f):
        if type(f) is SFloat:
            return SInt(f.bits, 0, (1 << 64) - 1)
        return int.from_bytes(struct.pack('<d', f), 'little')

    def join(self, hi, lo, k):
        """hi * 2**k + lo for 0 <= hi, 0 <= lo < 2**k."""
        if k == 0:
            return hi
        h, l = values.parts(hi), values.parts(lo)
        if type(hi) is not SInt and type(lo) is not SInt:
            return (hi << k) + lo
        e = z3.Concat(ext(hi, values.xw(hi)), ext(lo, k))
        return values.mkint(e, (h[0] << k) + l[0], (h[1] << k) + l[1])

    @staticmethod
    def us_of_day(d):
        """Microseconds since midnight of a datetime."""
        return runtime.dt.of_datetime(d).us

    def fixed(self, x, k):
        """The double x / 2**k; x must be an int of at most 53 significant bits."""
        return values.fx_make(x, k)

    def float_of_bits(self, b):
        if type(b) is SInt:
            return SFloat(bits=ext(b, 64))
        return struct.unpack('<d', b.to_bytes(8, 'little'))[0]

    def sink(self):
        return runtime.Sink()

    def text_sink(self):
        return runtime.TextSink()


class ConX(Base):
    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.failed = []
        self.reached = set()
        self.observed = []
        self.nchecks = 0

    def int(self, name, lo, hi):
        v = self.vals.get(name, 0)
        if lo < 0:
            w = values.width_for(lo, hi)
            if v >= (1 << (w - 1)):
                v -= 1 << w
        if lo == hi:
            return lo
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self.vals.get(name, 0))

    def double(self, name):
        return struct.unpack('<d', self.vals.get(name, 0).to_bytes(8, 'little'))[0]

    def assume(self, c):
        if not c:
            raise Skip('assume')

    def check(self, c, label):
        if type(label) is not str or type(c) is str:
            raise TypeError('check(condition, label)')
        self.nchecks += 1
        if not c:
            self.failed.append(label)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, label, v):
        self.observed.append((label, v))

    def fork(self, x):
        return x

    def set_steps(self, n):
        pass

    def float_bits(self, f):
        return int.from_bytes(struct.pack('<d', f), 'little')

    def join(self, hi, lo, k):
        return (hi << k) + lo

    @staticmethod
    def us_of_day(d):
        return ((d.hour * 60 + d.minute) * 60 + d.second) * 1000000 + d.microsecond

    def fixed(self, x, k):
        return x / (1 << k) if k >= 0 else float(x << -k)

    def float_of_bits(self, b):
        return struct.unpack('<d', b.to_bytes(8, 'little'))[0]

    def sink(self):
        return runtime.Sink()

    def text_sink(self):
        return runtime.TextSink()


def model_value(x, m):
    """Concrete Python value of a symbolic structure under a model."""
    t = type(x)
    if t is SInt:
        v = engine.model_int(m, x.e)
        if x.lo < 0 and v >= 1 << (x.e.size() - 1):
            v -= 1 << x.e.size()
        return v
    if t is SBool:
        return z3.is_true(m.eval(x.b, model_completion=True))
    if t is SFloat:
        if x._bits is not None:
            v = engine.model_int(m, x._bits)
        else:
            b = z3.simplify(z3.fpToIEEEBV(m.eval(x.fp, model_completion=True)))
            v = b.as_long() if z3.is_bv_value(b) else 0x7FF8000000000000
        return struct.unpack('<d', v.to_bytes(8, 'little'))[0]
    if isinstance(x, bytes) and t in SYMTYPES:
        return bytes(model_value(b, m) for b in x.items)
    if isinstance(x, str) and t in SYMTYPES:
        return ''.join(chr(model_value(b, m)) for b in x.items)
    if isinstance(x, tuple):
        return tuple(model_value(y, m) for y in x)
    if isinstance(x, dict):
        return {model_value(k, m): model_value(v, m) for k, v in x.items()}
    if isinstance(x, (list, runtime.SRange)) and not isinstance(x, tuple):
        return [model_value(y, m) for y in x]
    if t is runtime.SSet:
        return {model_value(y, m) for y in x}
    return x


def norm(x):
    """Observation in a JSON-able canonical form."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return 'f:nan' if x != x else 'f:' + struct.pack('>d', x).hex()
    if isinstance(x, str):
        return 's:' + x.encode('utf-16-le', 'surrogatepass').hex()
    if isinstance(x, (bytes, bytearray)):
        return 'b:' + bytes(x).hex()
    if isinstance(x, dict):
        return ['dict'] + sorted([[norm(k), norm(v)] for k, v in x.items()], key=repr)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted([norm(y) for y in x], key=repr)
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'array':
        return ['seq'] + [norm(y) for y in x]
    return 'o:' + type(x).__name__
