"""Symbolic values: exact Python integers over bit-vectors with adaptive width,
booleans, IEEE doubles, byte strings and unicode strings of concrete length."""
import math
import z3
from . import engine
from .engine import Unsupported, PathEnd


def C():
    c = engine.CTX
    if c is None:
        raise RuntimeError('symbolic operation outside a path')
    return c


def width_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max(hi.bit_length(), (-lo - 1).bit_length()) + 1


def is_sym(x):
    return isinstance_sym(x)


SYMTYPES = ()


def isinstance_sym(x):
    return type(x) in SYMTYPES


# ---------------------------------------------------------------- booleans
class SBool(object):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return C().branch(self.b)

    def to_int(self):
        return SInt(z3.If(self.b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SBool(%s)' % (self.b,)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.And(self.b, bexpr(o)))
        return self.to_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Or(self.b, bexpr(o)))
        return self.to_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.b, bexpr(o)))
        return self.to_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.b == bexpr(o))
        return self.to_int() == o

    def __ne__(self, o):
        return snot(self == o)


def _delegate(name):
    def f(self, *a):
        r = getattr(self.to_int(), name)(*a)
        return r
    f.__name__ = name
    return f


for _n in ('add radd sub rsub mul rmul floordiv rfloordiv mod rmod lshift rlshift '
           'rshift rrshift truediv rtruediv pow rpow lt le gt ge neg pos abs invert '
           'float round trunc divmod rdivmod').split():
    setattr(SBool, '__%s__' % _n, _delegate('__%s__' % _n))


def bexpr(x):
    """z3 Bool of a Python/symbolic boolean."""
    if type(x) is SBool:
        return x.b
    return z3.BoolVal(bool(x))


def mkbool(b):
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SBool(b)


def snot(x):
    if type(x) is SBool:
        return mkbool(z3.Not(x.b))
    if x is NotImplemented:
        return x
    return not x


def sbool(x):
    """Truth of any value as bool/SBool without forking."""
    t = type(x)
    if t is SBool or t is bool:
        return x
    if t is SInt:
        return x != 0
    if t is SFloat:
        return x != 0.0
    if t is SStr or t is SBytes:
        return len(x) != 0
    return bool(x)


def sand(*xs):
    out = []
    for x in xs:
        x = sbool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x.b)
    if not out:
        return True
    if len(out) == 1:
        return SBool(out[0])
    return mkbool(z3.And(*out))


def sor(*xs):
    out = []
    for x in xs:
        x = sbool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x.b)
    if not out:
        return False
    if len(out) == 1:
        return SBool(out[0])
    return mkbool(z3.Or(*out))


# ---------------------------------------------------------------- integers
def mkint(e, lo, hi):
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    ew = e.size()
    if ew > w:
        e = z3.Extract(w - 1, 0, e)
    elif ew < w:
        raise AssertionError('width')
    if z3.is_bv_value(e):
        v = e.as_long()
        if lo < 0 and v >= (1 << (w - 1)):
            v -= 1 << w
        return v
    return SInt(e, lo, hi)


_CONST = {}


def const(v, w):
    k = (v, w)
    r = _CONST.get(k)
    if r is None:
        if len(_CONST) > 200000:
            _CONST.clear()
        r = _CONST[k] = z3.BitVecVal(v, w)
    return r


def parts(x):
    """(lo, hi) interval of an int-like."""
    t = type(x)
    if t is SInt:
        return x.lo, x.hi
    return x, x


def ext(x, w):
    """Term of width w representing x modulo 2**w (w >= own width)."""
    if type(x) is SInt:
        k = w - x.e.size()
        if k == 0:
            return x.e
        if k < 0:
            return z3.Extract(w - 1, 0, x.e)
        return z3.ZeroExt(k, x.e) if x.lo >= 0 else z3.SignExt(k, x.e)
    return const(int(x), w)


def xw(x):
    return x.e.size() if type(x) is SInt else width_for(int(x), int(x))


def coerce(o):
    """Normalise an operand to int / SInt, or None."""
    t = type(o)
    if t is int or t is SInt:
        return o
    if t is bool:
        return int(o)
    if t is SBool:
        return o.to_int()
    if t is SFloat or t is float:
        return None
    if isinstance(o, int):
        return int(o)
    return None


def isfloat(o):
    return type(o) is SFloat or isinstance(o, float)


class SInt(object):
    """Exact integer. e is a bit-vector; unsigned if lo >= 0, else two's
    complement; lo <= value <= hi always holds."""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    __class__ = property(lambda self: int)

    def __repr__(self):
        return 'SInt[%d..%d]' % (self.lo, self.hi)

    # conversions that need a concrete value fork over the feasible ones
    def concrete(self, why=''):
        v = C().choose_value(self.e, why=why)
        if self.lo < 0 and v >= (1 << (self.e.size() - 1)):
            v -= 1 << self.e.size()
        return v

    def __index__(self):
        return self.concrete('index')

    def __int__(self):
        return self.concrete('int')

    def __hash__(self):
        return hash(self.concrete('hash'))

    def __bool__(self):
        return C().branch(self.e != const(0, self.e.size()))

    def __str__(self):
        return str(self.concrete('str'))

    def __format__(self, spec):
        return format(self.concrete('format'), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __float__(self):
        raise Unsupported('float() of a symbolic integer in native code')

    # arithmetic
    def _add(a, b):
        la, ha = parts(a)
        lb, hb = parts(b)
        lo, hi = la + lb, ha + hb
        w = max(width_for(lo, hi), xw(a), xw(b))
        return mkint(ext(a, w) + ext(b, w), lo, hi)

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        v = coerce(o)
        if v is None:
            return self.to_float() + o if isfloat(o) else NotImplemented
        return SInt._add(self, v)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            return self
        v = coerce(o)
        if v is None:
            return o + self.to_float() if isfloat(o) else NotImplemented
        return SInt._add(v, self)

    def _sub(a, b):
        la, ha = parts(a)
        lb, hb = parts(b)
        lo, hi = la - hb, ha - lb
        w = max(width_for(lo, hi), xw(a), xw(b))
        return mkint(ext(a, w) - ext(b, w), lo, hi)

    def __sub__(self, o):
        if type(o) is int and o == 0:
            return self
        v = coerce(o)
        if v is None:
            return self.to_float() - o if isfloat(o) else NotImplemented
        return SInt._sub(self, v)

    def __rsub__(self, o):
        v = coerce(o)
        if v is None:
            return o - self.to_float() if isfloat(o) else NotImplemented
        return SInt._sub(v, self)

    def _mul(a, b):
        la, ha = parts(a)
        lb, hb = parts(b)
        c = [la * lb, la * hb, ha * lb, ha * hb]
        lo, hi = min(c), max(c)
        w = max(width_for(lo, hi), xw(a), xw(b))
        return mkint(ext(a, w) * ext(b, w), lo, hi)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) and coerce(o) is None:
            return o * self.concrete('repeat')
        v = coerce(o)
        if v is None:
            return self.to_float() * o if isfloat(o) else NotImplemented
        return SInt._mul(self, v)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)) and coerce(o) is None:
            return o * self.concrete('repeat')
        v = coerce(o)
        if v is None:
            return o * self.to_float() if isfloat(o) else NotImplemented
        return SInt._mul(v, self)

    def _divmod(a, b):
        """floor division and modulo, exact."""
        lb, hb = parts(b)
        if lb <= 0 <= hb:
            if type(b) is SInt:
                if C().branch(b.e == const(0, b.e.size())):
                    raise ZeroDivisionError('integer division or modulo by zero')
            else:
                raise ZeroDivisionError('integer division or modulo by zero')
        la, ha = parts(a)
        if type(b) is int and b == 1:
            return a, 0
        if lb >= 0 and la >= 0:
            w = max(xw(a), xw(b))
            A, B = ext(a, w), ext(b, w)
            lbb = max(lb, 1)
            qlo, qhi = la // hb, ha // lbb
            rlo, rhi = 0, min(ha, hb - 1)
            if type(b) is int and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return (mkint(z3.LShR(A, const(k, w)), qlo, qhi),
                        mkint(A & const(b - 1, w), rlo, rhi))
            if qlo == qhi:
                q = qlo
                r = mkint(ext(a, w + 1) - ext(SInt._mul(b, q) if q else 0, w + 1),
                          rlo, max(rhi, 0)) if q else a
                return q, r
            return (mkint(z3.UDiv(A, B), qlo, qhi), mkint(z3.URem(A, B), rlo, rhi))
        # general signed floor division
        w = max(xw(a), xw(b)) + 2
        A, B = ext(a, w), ext(b, w)
        q = A / B            # truncated signed
        r = z3.SRem(A, B)
        adj = z3.And(r != 0, (r < 0) != (B < 0))
        q = z3.If(adj, q - 1, q)
        r = z3.If(adj, r + B, r)
        m = max(abs(la), abs(ha)) + 1
        if lb > 0:
            qlo = min(la // lb, la // hb)
            qhi = max(ha // lb, ha // hb)
            rlo, rhi = 0, hb - 1
        else:
            qlo, qhi = -m, m
            mb = max(abs(lb), abs(hb))
            rlo, rhi = -mb, mb
        return (mkint(q, qlo, qhi) if width_for(qlo, qhi) <= w else SInt(q, qlo, qhi),
                mkint(r, rlo, rhi))

    def __floordiv__(self, o):
        v = coerce(o)
        if v is None:
            return self.to_float() // o if isfloat(o) else NotImplemented
        return SInt._divmod(self, v)[0]

    def __rfloordiv__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return SInt._divmod(v, self)[0]

    def __mod__(self, o):
        v = coerce(o)
        if v is None:
            return self.to_float() % o if isfloat(o) else NotImplemented
        return SInt._divmod(self, v)[1]

    def __rmod__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return SInt._divmod(v, self)[1]

    def __divmod__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return SInt._divmod(self, v)

    def __rdivmod__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return SInt._divmod(v, self)

    def __truediv__(self, o):
        return self.to_float() / (o.to_float() if type(o) is SInt else o)

    def __rtruediv__(self, o):
        if coerce(o) is None and not isfloat(o):
            return NotImplemented
        return sfloat(o) / self.to_float()

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if mod is None and type(o) is int and o > 0 and self.hi - self.lo <= 64:
            return self.concrete('pow') ** o
        return self.concrete('pow') ** (int(o) if type(o) is SInt else o)

    def __rpow__(self, o):
        return o ** self.concrete('pow')

    def __neg__(self):
        return SInt._sub(0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        n = -self
        w = max(self.e.size(), xw(n))
        return mkint(z3.If(ext(self, w) < 0, ext(n, w), ext(self, w)),
                     0, max(-self.lo, self.hi))

    def __invert__(self):
        return SInt._sub(-1, self)

    def __round__(self, nd=None):
        if nd is None or (type(nd) is int and nd >= 0):
            return self
        raise Unsupported('round of symbolic integer to negative digits')

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        r = 0
        a = abs(self)
        hi = a.hi
        r = 0
        for k in range(hi.bit_length()):
            r = ite(a >= (1 << k), k + 1, r)
        return r

    def to_bytes(self, length=1, byteorder='big', signed=False):
        if not signed:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= (1 << (8 * length)):
                raise OverflowError('int too big to convert')
        else:
            if self < -(1 << (8 * length - 1)) or self >= (1 << (8 * length - 1)):
                raise OverflowError('int too big to convert')
        its = int_to_bytes(self, length)
        if byteorder == 'big':
            its.reverse()
        return mkbytes(its)

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    numerator = property(lambda self: self)
    denominator = property(lambda self: 1)

    # bit operations
    def _bits(a, b, op):
        la, ha = parts(a)
        lb, hb = parts(b)
        w = max(xw(a), xw(b))
        if la < 0 or lb < 0:
            w += 1
        A, B = ext(a, w), ext(b, w)
        if op == '&':
            if la >= 0 and lb >= 0:
                lo, hi = 0, min(ha, hb)
            elif la >= 0:
                lo, hi = 0, ha
            elif lb >= 0:
                lo, hi = 0, hb
            else:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            # an & with a contiguous low mask is an extraction
            return mkint(A & B, lo, hi)
        if la >= 0 and lb >= 0:
            lo, hi = 0, (1 << w) - 1
            if op == '|':
                lo = max(la, lb)
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mkint(A | B if op == '|' else A ^ B, lo, hi)

    def __and__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        if type(v) is int and v >= 0:
            if v == 0:
                return 0
            # narrow first: x & mask only needs the low bits
            k = v.bit_length()
            w = self.e.size()
            if k < w:
                low = z3.Extract(k - 1, 0, self.e)
                if v == (1 << k) - 1:
                    return mkint(low, 0, v)
                return mkint(low & const(v, k), 0, v)
        return SInt._bits(self, v, '&')

    def __rand__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return self.__and__(v)

    def __or__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        if type(v) is int and v == 0:
            return self
        return SInt._bits(self, v, '|')

    __ror__ = __or__

    def __xor__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return SInt._bits(self, v, '^')

    __rxor__ = __xor__

    def __lshift__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        if type(v) is SInt:
            v = v.concrete('shift')
        if v < 0:
            raise ValueError('negative shift count')
        return SInt._mul(self, 1 << v)

    def __rlshift__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return v << self.concrete('shift')

    def __rshift__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        if type(v) is SInt:
            v = v.concrete('shift')
        if v < 0:
            raise ValueError('negative shift count')
        if v == 0:
            return self
        lo, hi = self.lo >> v, self.hi >> v
        if lo == hi:
            return lo
        w = self.e.size()
        return mkint(z3.Extract(w - 1, v, self.e) if w - v >= width_for(lo, hi)
                     else (self.e >> v), lo, hi)

    def __rrshift__(self, o):
        v = coerce(o)
        if v is None:
            return NotImplemented
        return v >> self.concrete('shift')

    # comparisons
    def _cmp(a, b, op):
        la, ha = parts(a)
        lb, hb = parts(b)
        if op == '<':
            if ha < lb:
                return True
            if la >= hb:
                return False
        elif op == '<=':
            if ha <= lb:
                return True
            if la > hb:
                return False
        else:
            if ha < lb or la > hb:
                return False
        w = max(xw(a), xw(b))
        signed = la < 0 or lb < 0
        if signed:
            w += 1
        A, B = ext(a, w), ext(b, w)
        if op == '==':
            return mkbool(A == B)
        if op == '<':
            return mkbool(A < B if signed else z3.ULT(A, B))
        return mkbool(A <= B if signed else z3.ULE(A, B))

    def __eq__(self, o):
        v = coerce(o)
        if v is None:
            if isfloat(o):
                return self.to_float() == o
            return NotImplemented
        return SInt._cmp(self, v, '==')

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __lt__(self, o):
        v = coerce(o)
        if v is None:
            return self.to_float() < o if isfloat(o) else NotImplemented
        return SInt._cmp(self, v, '<')

    def __le__(self, o):
        v = coerce(o)
        if v is None:
            return self.to_float() <= o if isfloat(o) else NotImplemented
        return SInt._cmp(self, v, '<=')

    def __gt__(self, o):
        v = coerce(o)
        if v is None:
            return self.to_float() > o if isfloat(o) else NotImplemented
        return SInt._cmp(v, self, '<')

    def __ge__(self, o):
        v = coerce(o)
        if v is None:
            return self.to_float() >= o if isfloat(o) else NotImplemented
        return SInt._cmp(v, self, '<=')

    def to_float(self):
        if max(abs(self.lo), abs(self.hi)) <= (1 << 53):
            return SFloat(fx=(self, 0))
        return SFloat(fp=int_to_fp(self))


def int_to_fp(x):
    w = xw(x) + (1 if x.lo >= 0 else 0)
    return z3.fpSignedToFP(z3.RNE(), ext(x, w), z3.Float64())


def int_to_bytes(x, n):
    """little-endian byte items of x modulo 2**(8n)."""
    if type(x) is SBool:
        x = x.to_int()
    if type(x) is not SInt:
        return list((int(x) & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
    e = ext(x, max(8 * n, x.e.size()))
    out = []
    for i in range(n):
        b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))
        out.append(mkint(b, 0, 255))
    return out


def bytes_to_int(items, signed=False):
    """int from little-endian byte items."""
    n = len(items)
    if all(type(b) is int for b in items):
        return int.from_bytes(bytes(items), 'little', signed=signed)
    # strip known-zero high bytes
    terms = [ext(b, 8) for b in reversed(items)]
    if not signed:
        k = 0
        while k < n - 1 and type(items[n - 1 - k]) is int and items[n - 1 - k] == 0:
            k += 1
        its = items[:n - k]
        terms = terms[k:]
        e = z3.Concat(*terms) if len(terms) > 1 else terms[0]
        e = z3.simplify(e) if len(terms) > 1 else e
        lo = sum(parts(b)[0] << (8 * i) for i, b in enumerate(its))
        hi = sum(parts(b)[1] << (8 * i) for i, b in enumerate(its))
        w = width_for(lo, hi)
        return mkint(e, lo, hi) if e.size() >= w else SInt(e, lo, hi)
    e = z3.Concat(*terms) if n > 1 else terms[0]
    e = z3.simplify(e)
    return mkint(e, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)


def ite(c, a, b):
    """Value-level if-then-else without forking, for like-typed values."""
    c = sbool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (bool, SBool) and tb in (bool, SBool):
        return mkbool(z3.If(c.b, bexpr(a), bexpr(b)))
    ia, ib = coerce(a), coerce(b)
    if ia is not None and ib is not None:
        la, ha = parts(ia)
        lb, hb = parts(ib)
        lo, hi = min(la, lb), max(ha, hb)
        if lo == hi:
            return lo
        w = max(width_for(lo, hi), xw(ia), xw(ib))
        return mkint(z3.If(c.b, ext(ia, w), ext(ib, w)), lo, hi)
    if isfloat(a) and isfloat(b):
        x, y = sfloat(a), sfloat(b)
        return SFloat(bits=z3.If(c.b, x.bits, y.bits))
    if isinstance(a, str) and isinstance(b, str) and len(a) == len(b):
        return mkstr([ite(c, x, y) for x, y in zip(stritems(a), stritems(b))])
    if isinstance(a, bytes) and isinstance(b, bytes) and len(a) == len(b):
        return mkbytes([ite(c, x, y) for x, y in zip(byteitems(a), byteitems(b))])
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    return a if c else b


# ---------------------------------------------------------------- floats
F64 = z3.Float64()


def fxof(o):
    """(X, k) when o is known to equal X / 2**k exactly (X an int or SInt), else None."""
    t = type(o)
    if t is SFloat:
        return o.fx
    v = coerce(o)
    if v is not None:
        lo, hi = parts(v)
        return (v, 0) if max(abs(lo), abs(hi)) <= 1 << 53 else None
    if t is float and o == o and abs(o) < 2.0 ** 200 and (o or math.copysign(1, o) > 0):
        n, d = o.as_integer_ratio()
        k = d.bit_length() - 1
        while n and not n & 1 and k > -60:
            n >>= 1
            k -= 1
        return (n, k) if k <= 200 else None
    return None


def fx_align(a, b):
    (x, i), (y, j) = a, b
    k = max(i, j)
    if abs(i - j) > 160:
        return None
    return x << (k - i) if k > i else x, y << (k - j) if k > j else y, k


def fx_make(z, k):
    """The double nearest to z / 2**k (ties to even), or None if not expressible."""
    if type(z) is not SInt:
        return z / (1 << k) if k >= 0 else float(z << -k)
    if z.lo < 0 <= z.hi and C().entails(z.e >= 0):
        z = mkint(z.e, 0, z.hi) if z.hi else 0
        if type(z) is not SInt:
            return 0.0
    if max(abs(z.lo), abs(z.hi)) <= 1 << 53:
        return SFloat(fx=(z, k))
    if z.lo < 0:
        return None
    r = fx_round(z, 1)
    if r is None:
        return None
    return SFloat(fx=(r, k)) if type(r) is SInt else fx_make(r, k)


def fx_round(z, first):
    """z >= 0 rounded to 53 significant bits, ties to even; smaller values than
    2**(52 + first) stay."""
    t = z.hi.bit_length() - 53
    first = max(first, z.lo.bit_length() - 53)
    if t - first > 40:
        return None
    r = z
    for d in range(first, t + 1):
        q, rem, half = z >> d, z & ((1 << d) - 1), 1 << (d - 1)
        up = sor(rem > half, sand(rem == half, (q & 1) == 1))
        r = ite(z >= (1 << (52 + d)), (q + ite(up, 1, 0)) << d, r)
    return r


def fx_div(a, c, nz):
    """The double nearest to (X / 2**k) / c for a positive integer c, or None."""
    x, k = a
    if type(x) is not SInt or x.lo < 0:
        return None
    # the least magnitude of a non-zero X decides how many bits are needed
    j = max(x.lo, nz, 1).bit_length() - 1
    s = max(0, 55 + c.bit_length() - j)
    if x.hi.bit_length() - j > 30:
        return None
    z = x << s
    q = z // c
    qq = q * 2 + ite(z % c != 0, 1, 0)      # the last bit is sticky
    r = fx_round(qq, 2)
    if r is None:
        return None
    if type(r) is not SInt:
        return fx_make(r, k + s + 1)
    return SFloat(fx=(r, k + s + 1), nz=((max(nz, 1) << s) // c * 2) >> 1)


class SFloat(object):
    """An IEEE double: raw bits, an SMT floating-point term, or (fx) an exact
    fixed-point value X / 2**k; the representations not given are derived."""
    __slots__ = ('_bits', '_fp', 'fx', 'nz')

    def __init__(self, bits=None, fp=None, fx=None, nz=1):
        self.nz = nz             # X is 0 or at least this
        self._bits = bits
        self._fp = fp
        self.fx = fx

    @property
    def isint(self):
        if self.fx is not None and self.fx[1] <= 0:
            return self.fx[0] << -self.fx[1]
        return None

    __class__ = property(lambda self: float)

    @property
    def bits(self):
        if self._bits is None:
            f = self.fp
            c = C()
            key = ('fpbits', f.get_id())
            hit = c.memo.get(key)
            if hit is None:
                b = c.fresh_bv(64, 'fb')
                c.assume(z3.fpBVToFP(b, F64) == f)
                # a NaN is represented by the canonical quiet NaN
                c.assume(z3.Implies(z3.fpIsNaN(f), b == const(0x7FF8000000000000, 64)))
                hit = c.memo[key] = (b, f)
            self._bits = hit[0]
        return self._bits

    @property
    def fp(self):
        if self._fp is None:
            if self.fx is not None:
                x, k = self.fx
                self._fp = int_to_fp(x)
                if k:
                    self._fp = z3.fpMul(z3.RNE(), self._fp, z3.FPVal(2.0 ** -k, F64))
            else:
                self._fp = z3.fpBVToFP(self._bits, F64)
        return self._fp

    def __repr__(self):
        return 'SFloat'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def concrete(self):
        import struct
        v = C().choose_value(self.bits, why='float')
        return struct.unpack('<d', v.to_bytes(8, 'little'))[0]

    def __hash__(self):
        return hash(self.concrete())

    def __float__(self):
        return self.concrete()

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __bool__(self):
        return C().branch(z3.Not(z3.fpIsZero(self.fp)))

    def _bin(self, o, f, rev=False):
        if not (isfloat(o) or coerce(o) is not None):
            return NotImplemented
        a, b = self, sfloat(o)
        if rev:
            a, b = b, a
        return SFloat(fp=f(a.fp, b.fp))

    def _fixed(self, o, op, rev=False):
        """Exact fixed-point arithmetic where both operands allow it."""
        if self.fx is None:
            return None
        b = fxof(o)
        if b is None:
            return None
        a = self.fx
        if rev:
            a, b = b, a
        if op == '*':
            if min(parts(a[0])[0], parts(b[0])[0]) < 0:
                return None
            return fx_make(a[0] * b[0], a[1] + b[1])
        al = fx_align(a, b)
        if al is None:
            return None
        x, y, k = al
        if op == '+':
            r = fx_make(x + y, k)
            if type(r) is SFloat and min(parts(x)[0], parts(y)[0]) >= 0 and r.fx[1] == k:
                nx = self.nz << (k - self.fx[1])
                ny = (o.nz if type(o) is SFloat else max(1, parts(b[0] if not rev else a[0])[0])) << \
                    (k - (a if rev else b)[1])
                r.nz = max(1, min(nx, ny) >> 1)
            return r
        z = x - y
        if type(z) is SInt and z.lo < 0 and z.hi > 0 and C().entails(z.e >= 0):
            # usually the fraction of a day
            if k > 0 and z.hi >= 1 << k and C().entails(z.e < const(1 << k, z.e.size())):
                z = mkint(z.e, 0, (1 << k) - 1)
                if b[1] <= 0 and a[1] == k and type(x) is SInt and x.lo >= 0:
                    z = x & ((1 << k) - 1)      # the fraction of x
            else:
                z = mkint(z.e, 0, z.hi)
        return fx_make(z, k)

    def __add__(self, o):
        r = self._fixed(o, '+')
        return r if r is not None else self._bin(o, lambda x, y: z3.fpAdd(z3.RNE(), x, y))

    def __radd__(self, o):
        r = self._fixed(o, '+', True)
        return r if r is not None else self._bin(o, lambda x, y: z3.fpAdd(z3.RNE(), x, y), True)

    def __sub__(self, o):
        r = self._fixed(o, '-')
        return r if r is not None else self._bin(o, lambda x, y: z3.fpSub(z3.RNE(), x, y))

    def __rsub__(self, o):
        r = self._fixed(o, '-', True)
        return r if r is not None else self._bin(o, lambda x, y: z3.fpSub(z3.RNE(), x, y), True)

    def __mul__(self, o):
        r = self._fixed(o, '*')
        return r if r is not None else self._bin(o, lambda x, y: z3.fpMul(z3.RNE(), x, y))

    def __rmul__(self, o):
        r = self._fixed(o, '*', True)
        return r if r is not None else self._bin(o, lambda x, y: z3.fpMul(z3.RNE(), x, y), True)

    def _fixmod(self, o):
        """(quotient, remainder) of flooring division by a positive constant, or None."""
        if self.fx is None or type(o) not in (int, float) or not o > 0 or parts(self.fx[0])[0] < 0:
            return None
        b = fxof(o)
        al = b and fx_align(self.fx, b)
        if not al:
            return None
        q = al[0] // al[1]
        if max(parts(q)) > 1 << 52:
            return None
        q2, r = fx_make(q, 0), fx_make(al[0] - q * al[1], al[2])
        return None if q2 is None or r is None else (q2, r)

    def __truediv__(self, o):
        if not (isfloat(o) or coerce(o) is not None):
            return NotImplemented
        if self.fx is not None and type(o) in (int, float) and o > 0 and math.frexp(o)[0] == 0.5:
            return SFloat(fx=(self.fx[0], self.fx[1] + math.frexp(o)[1] - 1))
        if self.fx is not None and C().ex.lia and type(o) in (int, float) and o > 0 and o == int(o):
            b = fxof(o)
            r = fx_div((self.fx[0], self.fx[1] - b[1]), b[0], self.nz) if 0 >= b[1] else None
            if r is not None:
                return r
        d = sfloat(o)
        z = mkbool(z3.simplify(z3.fpIsZero(d.fp)))
        if z is True or (z is not False and C().branch(z.b)):
            raise ZeroDivisionError('float division by zero')
        return SFloat(fp=z3.fpDiv(z3.RNE(), self.fp, d.fp))

    def __rtruediv__(self, o):
        if not (isfloat(o) or coerce(o) is not None):
            return NotImplemented
        return sfloat(o).__truediv__(self)

    def __floordiv__(self, o):
        r = self._fixmod(o)
        if r is not None:
            return r[0]
        q = self / o
        return SFloat(fp=z3.fpRoundToIntegral(z3.RTN(), q.fp))

    def __mod__(self, o):
        r = self._fixmod(o)
        if r is not None:
            return r[1]
        o = sfloat(o)
        return self - o * (self // o)

    def __pow__(self, o, m=None):
        return self.concrete() ** (o.concrete() if type(o) in (SFloat, SInt) else o)

    def __rpow__(self, o):
        return o ** self.concrete()

    def __divmod__(self, o):
        r = self._fixmod(o)
        if r is not None:
            return r
        q = self // o
        return q, self - sfloat(o) * q

    def __neg__(self):
        if self.fx is not None and (self.fx[0].lo > 0 or self.fx[0].hi < 0):
            return SFloat(fx=(-self.fx[0], self.fx[1]))
        return SFloat(fp=z3.fpNeg(self.fp))

    def __pos__(self):
        return self

    def __abs__(self):
        return SFloat(fp=z3.fpAbs(self.fp))

    def _cmpop(self, o, f):
        v = coerce(o)
        if self.fx is not None:
            b = fxof(o) if v is None else (v, 0)
            al = b and fx_align(self.fx, b)
            if al:
                return f(al[0], al[1], True)
        if not (isfloat(o) or v is not None):
            return NotImplemented
        return mkbool(z3.simplify(f(self.fp, sfloat(o).fp, False)))

    def __eq__(self, o):
        r = self._cmpop(o, lambda a, b, i: a == b if i else z3.fpEQ(a, b))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmpop(o, lambda a, b, i: a < b if i else z3.fpLT(a, b))

    def __le__(self, o):
        return self._cmpop(o, lambda a, b, i: a <= b if i else z3.fpLEQ(a, b))

    def __gt__(self, o):
        return self._cmpop(o, lambda a, b, i: a > b if i else z3.fpGT(a, b))

    def __ge__(self, o):
        return self._cmpop(o, lambda a, b, i: a >= b if i else z3.fpGEQ(a, b))

    def to_int(self, rm=None, width=None):
        """int(x) (truncation) or with another rounding mode."""
        if self.fx is not None:
            x, k = self.fx
            if k <= 0:
                return x << -k if k else x
            q = x >> k
            if rm is None or rm.eq(z3.RTZ()):
                return q if x.lo >= 0 else ite(x < 0, -((-x) >> k), q)
            if rm.eq(z3.RTN()):
                return q
            r = x - (q << k)
            if rm.eq(z3.RTP()):
                return q + ite(r != 0, 1, 0)
            half = 1 << (k - 1)
            return q + ite(sor(r > half, sand(r == half, (q & 1) == 1)), 1, 0)
        c = C()
        f = self.fp
        if c.branch(z3.fpIsNaN(f)):
            raise ValueError('cannot convert float NaN to integer')
        if c.branch(z3.fpIsInf(f)):
            raise OverflowError('cannot convert float infinity to integer')
        rm = rm if rm is not None else z3.RTZ()
        # decide the magnitude class, widest class last
        for w in (24, 34, 64):
            lim = float(2 ** (w - 1) - 1) if w < 64 else float(2 ** 62)
            if c.branch(z3.fpLEQ(z3.fpAbs(f), z3.FPVal(lim, F64))):
                m = int(lim)
                neg = c.branch(z3.fpLT(f, z3.FPVal(0.0, F64)))
                e = z3.fpToSBV(rm, f, z3.BitVecSort(w))
                if neg:
                    return SInt(e, -m - 1, 0)
                return mkint(e, 0, m)
        v = self.concrete()
        return int(v) if rm.eq(z3.RTZ()) else round(v)

    def __int__(self):
        return self.to_int().__index__()

    def __trunc__(self):
        return self.to_int()

    def __floor__(self):
        return self.to_int(z3.RTN())

    def __ceil__(self):
        return self.to_int(z3.RTP())

    def __round__(self, nd=None):
        if nd is None:
            return self.to_int(z3.RNE())
        return round(self.concrete(), nd)

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsInf(self.fp)), z3.Not(z3.fpIsNaN(self.fp)),
                             z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.fp), self.fp)))

    real = property(lambda self: self)
    imag = property(lambda self: 0.0)


def sfloat(o):
    t = type(o)
    if t is SFloat:
        return o
    if t is SInt:
        return o.to_float()
    if t is SBool:
        return o.to_int().to_float()
    import struct
    v = float(o)
    bits = int.from_bytes(struct.pack('<d', v), 'little')
    return SFloat(bits=const(bits, 64), fp=z3.FPVal(v, F64) if v == v else z3.fpNaN(F64))


def float_from_bytes(items):
    import struct
    if all(type(b) is int for b in items):
        return struct.unpack('<d', bytes(items))[0]
    e = z3.simplify(z3.Concat(*[ext(b, 8) for b in reversed(items)]))
    return SFloat(bits=e)


# ---------------------------------------------------------------- bytes
def byteitems(x):
    t = type(x)
    if t is SBytes or t is SByteArray:
        return x.items
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, memoryview):
        return list(bytes(x))
    raise TypeError("a bytes-like object is required, not %r" % t.__name__)


def mkbytes(items):
    for b in items:
        if type(b) is not int:
            return SBytes(items)
    return bytes(items)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x is y:
            continue
        r = x == y
        if r is False:
            return False
        if r is True:
            continue
        conds.append(r)
    return sand(*conds)


def seq_lt(a, b, strict):
    """lexicographic a < b (or <=)."""
    n = min(len(a), len(b))
    if strict:
        res = len(a) < len(b)
    else:
        res = len(a) <= len(b)
    for i in range(n - 1, -1, -1):
        x, y = a[i], b[i]
        res = sor(x < y, sand(x == y, res))
    return res


class SSeqBase(object):
    """Shared behaviour of SBytes and SStr; .items is a list."""

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return len(self.items) != 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.items)

    def _find_eq(self, sub, i):
        return seq_eq(self.items[i:i + len(sub)], sub)

    def _norm(self, start, end):
        n = len(self.items)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = self._coerce_sub(sub)
        s, e = self._norm(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._find_eq(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._coerce_sub(sub)
        s, e = self._norm(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._find_eq(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = self._coerce_sub(sub)
        s, e = self._norm(start, end)
        if not sub:
            return max(0, e - s + 1)
        if len(sub) == 1:
            r = 0
            for i in range(s, e):
                r = r + ite(self._find_eq(sub, i), 1, 0)
            return r
        n = 0
        i = s
        while i + len(sub) <= e:
            if self._find_eq(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return sor(*[self.startswith(q, start, end) for q in p])
        p = self._coerce_sub(p)
        s, e = self._norm(start, end)
        if e - s < len(p):
            return False
        return self._find_eq(p, s)

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return sor(*[self.endswith(q, start, end) for q in p])
        p = self._coerce_sub(p)
        s, e = self._norm(start, end)
        if e - s < len(p):
            return False
        return self._find_eq(p, e - len(p))

    def replace(self, old, new, count=-1):
        old = self._coerce_sub(old)
        new = list(self._coerce_sub(new))
        its = self.items
        out = []
        i = 0
        n = 0
        if not old:
            raise Unsupported('replace of the empty string')
        if len(old) == 1 and len(new) == 1 and count < 0:
            return self._mk([ite(x == old[0], new[0], x) for x in its])
        while i < len(its):
            if (count < 0 or n < count) and i + len(old) <= len(its) and self._find_eq(old, i):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(its[i])
                i += 1
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split on whitespace')
        sep = self._coerce_sub(sep)
        out = []
        cur = []
        i = 0
        its = self.items
        while i < len(its):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sep) <= len(its) and \
                    self._find_eq(sep, i):
                out.append(self._mk(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(its[i])
                i += 1
        out.append(self._mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        n = len(self._coerce_sub(sep))
        if i < 0:
            return (self, self._mk([]), self._mk([]))
        return (self._mk(self.items[:i]), sep, self._mk(self.items[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = len(self._coerce_sub(sep))
        if i < 0:
            return (self._mk([]), self._mk([]), self)
        return (self._mk(self.items[:i]), sep, self._mk(self.items[i + n:]))

    def _strip(self, chars, left, right):
        its = list(self.items)
        if chars is None:
            ws = [9, 10, 11, 12, 13, 32]
            if isinstance(self, str):
                ws += [0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + \
                    [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
        else:
            ws = self._coerce_sub(chars)
        i, j = 0, len(its)
        if left:
            while i < j and bool(sor(*[its[i] == w for w in ws])):
                i += 1
        if right:
            while j > i and bool(sor(*[its[j - 1] == w for w in ws])):
                j -= 1
        return self._mk(its[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        if self.startswith(p):
            return self._mk(self.items[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self._mk(self.items[:len(self.items) - len(p)])
        return self

    def __mul__(self, n):
        if type(n) is SInt:
            n = n.concrete('repeat')
        return self._mk(list(self.items) * n)

    __rmul__ = __mul__

    def _just(self, w, fill, side):
        f = self._coerce_sub(fill)
        n = w - len(self.items)
        if n <= 0:
            return self
        return self._mk(list(f) * n + list(self.items) if side == 'r'
                        else list(self.items) + list(f) * n)

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out.extend(self.items)
            first = False
            out.extend(self._coerce_sub(x))
        return self._mk(out)


class SBytes(SSeqBase):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    __class__ = property(lambda self: bytes)

    _mk = staticmethod(lambda its: mkbytes(its))

    def _coerce_sub(self, x):
        c = coerce(x)
        if c is not None:
            return [c]
        return byteitems(x)

    def concrete(self):
        its = []
        for b in self.items:
            its.append(b if type(b) is int else b.concrete('bytes'))
        return bytes(its)

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return self.concrete()

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        from . import runtime
        if type(i) is slice:
            return mkbytes(self.items[runtime.norm_slice(i, len(self.items))])
        return runtime.select(self.items, i, 'index out of range')

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        return mkbytes(list(self.items) + list(byteitems(o)))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return NotImplemented
        return mkbytes(list(byteitems(o)) + list(self.items))

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, memoryview)):
            return False
        return seq_eq(self.items, byteitems(o))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return seq_lt(self.items, byteitems(o), True)

    def __le__(self, o):
        return seq_lt(self.items, byteitems(o), False)

    def __gt__(self, o):
        return seq_lt(byteitems(o), self.items, True)

    def __ge__(self, o):
        return seq_lt(byteitems(o), self.items, False)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        sub = self._coerce_sub(x)
        return sor(*[self._find_eq(sub, i) for i in range(len(self.items) - len(sub) + 1)])

    def decode(self, encoding='utf-8', errors='strict'):
        from . import codec
        return codec.decode(self.items, encoding, errors)

    def hex(self, *a):
        from . import codec
        out = []
        for b in self.items:
            out.extend(codec.hexdigits(b, 2))
        return mkstr(out)

    def tobytes(self):
        return self

    def cast(self, *a):
        raise Unsupported('memoryview.cast')

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @property
    def nbytes(self):
        return len(self.items)

    def lower(self):
        return mkbytes([ite(sand(b >= 65, b <= 90), b + 32, b) for b in self.items])

    def upper(self):
        return mkbytes([ite(sand(b >= 97, b <= 122), b - 32, b) for b in self.items])

    def ljust(self, w, fill=b' '):
        return self._just(w, fill, 'l')

    def rjust(self, w, fill=b' '):
        return self._just(w, fill, 'r')

    def translate(self, table, delete=b''):
        from . import runtime
        return mkbytes([runtime.select(list(table), b, '') for b in self.items])

    def isdigit(self):
        return bool(self.items) and sand(*[sand(b >= 48, b <= 57) for b in self.items])


class SByteArray(SBytes):
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    _mk = staticmethod(lambda its: SByteArray(list(its)))

    def __init__(self, items=()):
        self.items = list(items)

    def __getitem__(self, i):
        from . import runtime
        if type(i) is slice:
            return SByteArray(self.items[runtime.norm_slice(i, len(self.items))])
        return runtime.select(self.items, i, 'index out of range')

    def __setitem__(self, i, v):
        from . import runtime
        if type(i) is slice:
            self.items[runtime.norm_slice(i, len(self.items))] = list(byteitems(v))
            return
        self.items[runtime.pick_index(len(self.items), i)] = v

    def __add__(self, o):
        return SByteArray(list(self.items) + list(byteitems(o)))

    def __iadd__(self, o):
        self.items.extend(byteitems(o))
        return self

    def append(self, v):
        self.items.append(v)

    def extend(self, it):
        self.items.extend(it)

    def clear(self):
        del self.items[:]

    __hash__ = None


# ---------------------------------------------------------------- strings
def stritems(x):
    t = type(x)
    if t is SStr or t is SLazyStr:
        return x.items
    if isinstance(x, str):
        return [ord(c) for c in x]
    raise TypeError('expected str, got %s' % t.__name__)


def mkstr(items):
    for b in items:
        if type(b) is not int:
            return SStr(items)
    return ''.join(map(chr, items))


class SStr(SSeqBase):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    __class__ = property(lambda self: str)

    _mk = staticmethod(lambda its: mkstr(its))

    def _coerce_sub(self, x):
        return stritems(x)

    def join(self, it):
        it = list(it)
        if any(type(x) is SLazyStr and x._val is None for x in it):
            for x in it:
                if not isinstance(x, str):
                    raise TypeError('sequence item: expected str instance')
            return SLazyStr(lambda: list(stritems(SSeqBase.join(self, it))))
        return SSeqBase.join(self, it)

    def concrete(self):
        return ''.join(chr(b if type(b) is int else b.concrete('str')) for b in self.items)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __iter__(self):
        for x in self.items:
            yield mkstr([x])

    def __getitem__(self, i):
        from . import runtime
        if type(i) is slice:
            return mkstr(self.items[runtime.norm_slice(i, len(self.items))])
        return mkstr([runtime.select(self.items, i, 'string index out of range')])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(list(self.items) + list(stritems(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(list(stritems(o)) + list(self.items))

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return seq_eq(self.items, stritems(o))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return seq_lt(self.items, stritems(o), True)

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return seq_lt(self.items, stritems(o), False)

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return seq_lt(stritems(o), self.items, True)

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return seq_lt(stritems(o), self.items, False)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        sub = stritems(x)
        return sor(*[self._find_eq(sub, i) for i in range(len(self.items) - len(sub) + 1)])

    def __mod__(self, args):
        from . import runtime
        return runtime.fmt_percent(self, args)

    def encode(self, encoding='utf-8', errors='strict'):
        from . import codec
        return codec.encode(self.items, encoding, errors)

    def lower(self):
        from . import codec
        return mkstr(codec.map_case(self.items, 'lower'))

    def upper(self):
        from . import codec
        return mkstr(codec.map_case(self.items, 'upper'))

    def casefold(self):
        from . import codec
        return mkstr(codec.map_case(self.items, 'casefold'))

    def isdigit(self):
        its = self.items
        if not its:
            return False
        if all(type(x) is int or x.hi < 128 for x in its):
            return sand(*[sand(x >= 48, x <= 57) for x in its])
        return self.concrete().isdigit()

    def ljust(self, w, fill=' '):
        return self._just(w, fill, 'l')

    def rjust(self, w, fill=' '):
        return self._just(w, fill, 'r')

    def zfill(self, w):
        return self._just(w, '0', 'r')

    def isalpha(self):
        return self.concrete().isalpha()

    def isalnum(self):
        return self.concrete().isalnum()

    def isupper(self):
        return self.concrete().isupper()

    def islower(self):
        return self.concrete().islower()

    def isspace(self):
        return self.concrete().isspace()

    def isidentifier(self):
        return self.concrete().isidentifier()

    def isnumeric(self):
        return self.concrete().isnumeric()

    def isascii(self):
        return sand(*[x < 128 for x in self.items])

    def title(self):
        return self.concrete().title()

    def capitalize(self):
        return self.concrete().capitalize()

    def splitlines(self, keepends=False):
        return self.concrete().splitlines(keepends)

    def translate(self, table):
        out = []
        for x in self.items:
            from . import runtime
            if type(x) is int:
                out.extend(stritems(chr(x).translate(table)))
                continue
            done = False
            for k, v in (table.items() if hasattr(table, 'items') else enumerate(table)):
                if x == k:
                    if v is None:
                        pass
                    elif isinstance(v, str):
                        out.extend(stritems(v))
                    else:
                        out.append(v)
                    done = True
                    break
            if not done:
                out.append(x)
        return mkstr(out)

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def expandtabs(self, n=8):
        return self.concrete().expandtabs(n)


class SLazyStr(SStr):
    """A formatted string whose text is only computed when it is looked at."""
    __slots__ = ('_thunk', '_val')

    def __init__(self, thunk):
        self._thunk = thunk
        self._val = None

    __class__ = property(lambda self: str)

    @property
    def items(self):
        if self._val is None:
            self._val = self._thunk()
        return self._val

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SLazyStr(lambda: list(self.items) + list(stritems(o)))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SLazyStr(lambda: list(stritems(o)) + list(self.items))

    def __repr__(self):
        return 'SLazyStr'

    def __str__(self):
        return '<formatted text>' if self._val is None else self.concrete()


SYMTYPES = frozenset([SBool, SInt, SFloat, SBytes, SByteArray, SStr, SLazyStr])
_NATIVE = {SBool: bool, SInt: int, SFloat: float, SBytes: bytes,
           SByteArray: bytearray, SStr: str, SLazyStr: str}


def concretize(x):
    """Fork until x is a plain Python value (recursively)."""
    t = type(x)
    if t in SYMTYPES:
        if t is SBool:
            return bool(x)
        if t is SByteArray:
            return bytearray(SBytes(x.items).concrete())
        return x.concrete()
    if t is list:
        return [concretize(y) for y in x]
    if t is tuple:
        return tuple(concretize(y) for y in x)
    if t is dict:
        return {concretize(k): concretize(v) for k, v in x.items()}
    return x


def has_sym(x, depth=3):
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth and t in (tuple, list):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif depth and t is dict:
        for y in x.values():
            if has_sym(y, depth - 1):
                return True
    return False
