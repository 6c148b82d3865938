"""Run-time support called from the rewritten source."""
import builtins
import datetime as _dt
import functools
import io
import itertools
import math
import operator
import string
import struct as _struct
import array as _array
import re as _re
import types
import z3
from . import engine, values, codec, dt
from .engine import Unsupported, EngineControl, PathEnd
from .values import (SInt, SBool, SFloat, SBytes, SByteArray, SStr, SLazyStr, SYMTYPES,
                     C, ite, sand, sor, snot, sbool, mkint, mkstr, mkbytes, mkbool,
                     coerce, stritems, byteitems, has_sym, concretize, sfloat,
                     bytes_to_int, int_to_bytes, float_from_bytes, seq_eq, _NATIVE)


# ------------------------------------------------------------ containers
def norm_slice(s, n):
    """Concrete slice object for a slice whose bounds may be symbolic."""
    st = s.step
    if type(st) in SYMTYPES:
        st = st.concrete('slice step')
    a, b = s.start, s.stop
    if type(a) in SYMTYPES or type(b) in SYMTYPES:
        if st not in (None, 1):
            a = a.concrete('slice') if type(a) in SYMTYPES else a
            b = b.concrete('slice') if type(b) in SYMTYPES else b
            return slice(a, b, st)
        a = clamp_index(a, n, 0)
        b = clamp_index(b, n, n)
        return slice(a, b)
    return s if st is s.step else slice(a, b, st)


def clamp_index(x, n, default):
    if x is None:
        return default
    t = type(x)
    if t is SBool:
        x = x.to_int()
        t = type(x)
    if t is not SInt:
        x = operator.index(x)
        if x < 0:
            x += n
            return 0 if x < 0 else x
        return n if x > n else x
    y = x
    if x.lo < 0:
        y = ite(x < 0, ite(x < -n, 0, x + n), x)
    if type(y) is SInt:
        y = ite(y > n, n, y)
    if type(y) is SInt:
        return y.concrete('slice bound')
    return y


def pick_index(n, i, msg='list index out of range'):
    """Concrete position in range(n) for a possibly symbolic index."""
    t = type(i)
    if t is SBool:
        i = i.to_int()
        t = type(i)
    if t is not SInt:
        return i
    if i.lo < -n or i.hi >= n:
        if not bool(sand(i >= -n, i < n)):
            raise IndexError(msg)
    v = i.concrete('index')
    return v


def _mergeable(vals):
    k = None
    for v in vals:
        t = type(v)
        if t is int or t is SInt or t is bool or t is SBool:
            c = 'i' if t in (int, SInt) else 'b'
        else:
            return False
        if k is None:
            k = c
        elif k != c:
            return False
    return True


def select(items, i, msg='list index out of range'):
    """items[i] for a possibly symbolic i."""
    t = type(i)
    if t is SBool:
        i = i.to_int()
        t = type(i)
    if t is not SInt:
        return items[i]
    n = len(items)
    if i.lo < -n or i.hi >= n:
        if not bool(sand(i >= -n, i < n)):
            raise IndexError(msg)
    lo, hi = max(i.lo, -n), min(i.hi, n - 1)
    idxs = range(lo, hi + 1)
    if len(idxs) <= 4096 and _mergeable([items[k] for k in idxs]):
        r = None
        w = i.e.size()
        # group equal values
        groups = {}
        order = []
        for k in idxs:
            v = items[k]
            key = v if type(v) in (int, bool) else ('s', id(v))
            if key not in groups:
                groups[key] = (v, [])
                order.append(key)
            groups[key][1].append(k)
        order.sort(key=lambda key: -len(groups[key][1]))
        r = groups[order[0]][0]
        for key in order[1:]:
            v, ks = groups[key]
            r = ite(sor(*[i == k for k in ks]), v, r)
        return r
    return items[i.concrete('index')]


class SDict(dict):
    """A dict that also accepts symbolic keys (kept as an entry list)."""

    _MISSING = object()

    def __init__(self, *a, **k):
        self._sym = None
        self._lazy = False      # entries may repeat a key; the last one counts
        dict.__init__(self)
        if a or k:
            self.update(*a, **k)

    __class__ = property(lambda self: dict)

    def __deepcopy__(self, memo):
        import copy
        d = SDict()
        for k, v in self.items():
            d[k] = copy.deepcopy(v, memo)
        return d

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        return (dict, (dict(self.items()),))

    def _entries(self):
        if self._sym is None:
            self._sym = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)
        return self._sym

    def _candidates(self, key):
        """concrete keys comparable with a symbolic key."""
        t = type(key)
        out = []
        for k in dict.keys(self):
            if t is SInt or t is SBool:
                if isinstance(k, (int, float)):
                    iv = int(k)
                    if iv == k and (t is SBool or key.lo <= iv <= key.hi):
                        out.append(k)
            else:
                out.append(k)
        return out

    def _find(self, key):
        """entry [k, v] for the key, or None (forks)."""
        if self._sym is None:
            if not has_sym(key):
                try:
                    return [key, dict.__getitem__(self, key)]
                except KeyError:
                    return None
            cand = self._candidates(key)
            if not cand:
                return None
            if type(key) is SInt and len(cand) > 3:
                if not bool(sor(*[key == k for k in cand])):
                    return None
                v = key.concrete('dict key')
                return [v, dict.__getitem__(self, v)]
            for k in cand:
                if bool(sbool(key == k)):
                    return [k, dict.__getitem__(self, k)]
            return None
        for ent in reversed(self._sym):
            k = ent[0]
            if k is key or bool(sbool(keyeq(k, key))):
                return ent
        return None

    def _settle(self):
        """Resolve repeated keys (forks on their equality)."""
        if not self._lazy:
            return
        self._lazy = False
        ents, self._sym = self._sym, []
        for k, v in ents:
            ent = self._find(k)
            if ent is None:
                self._sym.append([k, v])
            else:
                ent[1] = v

    def __setitem__(self, key, val):
        if self._sym is None and not has_sym(key):
            dict.__setitem__(self, key, val)
            return
        if type(key) is SInt and (self._lazy or len(self) > 0):
            self._entries().append([key, val])
            self._lazy = True
            return
        if self._lazy:
            self._sym.append([key, val])
            return
        ent = self._find(key)
        if self._sym is None:
            if ent is not None:
                dict.__setitem__(self, ent[0], val)
                return
            self._entries().append([key, val])
        elif ent is not None:
            ent[1] = val
        else:
            self._sym.append([key, val])

    def __getitem__(self, key):
        if self._sym is None and not has_sym(key):
            return dict.__getitem__(self, key)
        if self._sym is None and type(key) in (SInt, SStr, SLazyStr, SBytes):
            cand = self._candidates(key)
            if len(cand) > 1:
                v = self._merged(key, cand)
                if v is not SDict._MISSING:
                    return v
        ent = self._find(key)
        if ent is None:
            raise KeyError('symbolic key' if has_sym(key) else key)
        return ent[1]

    def get(self, key, default=None):
        if self._sym is None and not has_sym(key):
            return dict.get(self, key, default)
        if self._sym is None and type(key) in (SInt, SStr, SLazyStr, SBytes):
            cand = self._candidates(key)
            vals = [dict.__getitem__(self, k) for k in cand]
            if _mergeable(vals + [default]):
                r = default
                for k, v in zip(cand, vals):
                    r = ite(sbool(key == k), v, r)
                return r
            if len(cand) > 1:
                v = self._merged(key, cand, False)
                return default if v is SDict._MISSING else v
        ent = self._find(key)
        return default if ent is None else ent[1]

    def contains(self, key):
        if self._sym is None and not has_sym(key):
            return dict.__contains__(self, key)
        if self._sym is None:
            return sor(*[sbool(key == k) for k in self._candidates(key)])
        return sor(*[sbool(keyeq(k, key)) for k, _ in self._sym])

    def __contains__(self, key):
        return bool(self.contains(key))

    def has_key(self, key):
        return key in self

    def _merged(self, key, cand, must=True):
        """The value at a symbolic key: one case if the values can be merged, else one per
        distinct value (not per key)."""
        vals = [dict.__getitem__(self, k) for k in cand]
        conds = [sbool(key == k) for k in cand]
        mix = _mergeable(vals)
        groups = []
        for c, v in zip(conds, vals):
            for g in groups:
                if g[0] is v or type(v) in (int, bool, str, bytes) and type(g[0]) is type(v) and g[0] == v:
                    g[1].append(c)
                    break
            else:
                groups.append((v, [c]))
        if must or mix or len(groups) < len(cand):
            if not bool(sor(*conds)):
                if must:
                    raise KeyError('symbolic key')
                return SDict._MISSING
        else:
            ent = self._find(key)
            return SDict._MISSING if ent is None else ent[1]
        if mix:
            r = groups[0][0]
            for v, cs in groups[1:]:
                r = ite(sor(*cs), v, r)
            return r
        if len(groups) == len(cand):
            ent = self._find(key)
            return ent[1]
        for v, cs in groups[:-1]:
            if bool(sor(*cs)):
                return v
        return groups[-1][0]

    def setdefault(self, key, default=None):
        ent = self._find(key)
        if ent is not None:
            return ent[1]
        self[key] = default
        return default

    def __delitem__(self, key):
        if self._sym is None and not has_sym(key):
            dict.__delitem__(self, key)
            return
        self._settle()
        ent = self._find(key)
        if ent is None:
            raise KeyError(key)
        if self._sym is None:
            dict.__delitem__(self, ent[0])
        else:
            self._sym.remove(ent) if False else self._sym.__delitem__(
                [i for i, x in enumerate(self._sym) if x is ent][0])

    _MISSING = object()

    def pop(self, key, default=_MISSING):
        ent = self._find(key)
        if ent is None:
            if default is SDict._MISSING:
                raise KeyError(key)
            return default
        v = ent[1]
        del self[ent[0]]
        return v

    def popitem(self):
        self._settle()
        if self._sym is None:
            return dict.popitem(self)
        k, v = self._sym.pop()
        return k, v

    def clear(self):
        self._sym = None
        self._lazy = False
        dict.clear(self)

    def __len__(self):
        self._settle()
        return dict.__len__(self) if self._sym is None else len(self._sym)

    def __bool__(self):
        return bool(self._sym) if self._lazy else len(self) != 0

    def __iter__(self):
        self._settle()
        return dict.__iter__(self) if self._sym is None else iter([k for k, _ in self._sym])

    def keys(self):
        self._settle()
        return dict.keys(self) if self._sym is None else [k for k, _ in self._sym]

    def values(self):
        self._settle()
        return dict.values(self) if self._sym is None else [v for _, v in self._sym]

    def items(self):
        self._settle()
        return dict.items(self) if self._sym is None else [(k, v) for k, v in self._sym]

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for key in o.keys():
                    self[key] = o[key]
            else:
                for key, v in o:
                    self[key] = v
        for key, v in k.items():
            self[key] = v

    def copy(self):
        self._settle()
        d = SDict()
        if self._sym is None:
            dict.update(d, dict(dict.items(self)))
        else:
            d._sym = [[k, v] for k, v in self._sym]
        return d

    @classmethod
    def fromkeys(cls, it, v=None):
        d = SDict()
        for k in it:
            d[k] = v
        return d

    def __eq__(self, o):
        if self._sym is None and isinstance(o, dict) and getattr(o, '_sym', None) is None:
            return dict.__eq__(self, o)
        if not isinstance(o, dict) or len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not bool(sbool(o[k] == v)):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return 'SDict(%r)' % (list(self.items()),)


def keyeq(a, b):
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return sand(*[sbool(keyeq(x, y)) for x, y in zip(a, b)])
    return a == b


class SSet(object):
    """A set that also accepts symbolic members."""

    def __init__(self, it=()):
        self.c = set()
        self.s = []
        for x in it:
            self.add(x)

    __class__ = property(lambda self: set)

    def contains(self, x):
        if not self.s and not has_sym(x):
            return x in self.c
        if not has_sym(x):
            if x in self.c:
                return True
            return sor(*[sbool(keyeq(x, y)) for y in self.s])
        return sor(*[sbool(keyeq(x, y)) for y in list(self.c) + self.s])

    def __contains__(self, x):
        return bool(self.contains(x))

    def add(self, x):
        if has_sym(x):
            if not bool(self.contains(x)):
                self.s.append(x)
        elif self.s:
            if not bool(self.contains(x)):
                self.c.add(x)
        else:
            self.c.add(x)

    def discard(self, x):
        if has_sym(x) or self.s:
            for y in list(self.c) + list(self.s):
                if bool(sbool(keyeq(x, y))):
                    if y in self.c if not has_sym(y) else False:
                        self.c.discard(y)
                    else:
                        self.s = [z for z in self.s if z is not y]
                    return
        else:
            self.c.discard(x)

    def remove(self, x):
        n = len(self)
        self.discard(x)
        if len(self) == n:
            raise KeyError(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def clear(self):
        self.c.clear()
        self.s = []

    def copy(self):
        r = SSet()
        r.c = set(self.c)
        r.s = list(self.s)
        return r

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    __or__ = union

    def intersection(self, o):
        return SSet([x for x in self if bool(sbool(do_in(x, o)))])

    __and__ = intersection

    def difference(self, o):
        return SSet([x for x in self if not bool(sbool(do_in(x, o)))])

    __sub__ = difference

    def issubset(self, o):
        return sand(*[sbool(do_in(x, o)) for x in self])

    __le__ = issubset

    def isdisjoint(self, o):
        return snot(sor(*[sbool(do_in(x, o)) for x in self]))

    def pop(self):
        if self.c:
            return self.c.pop()
        return self.s.pop()

    def __ior__(self, o):
        self.update(o)
        return self

    def __len__(self):
        return len(self.c) + len(self.s)

    def __bool__(self):
        return len(self) != 0

    def __iter__(self):
        return iter(list(self.c) + list(self.s))

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            if not self.s and not getattr(o, 's', None):
                return self.c == (o.c if type(o) is SSet else o)
            return len(self) == len(o) and bool(self.issubset(o))
        return False

    __hash__ = None

    def __repr__(self):
        return 'SSet(%r, %r)' % (self.c, self.s)


class SRange(object):
    """range() with symbolic bounds; iteration forks lazily."""

    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a
        if type(self.step) is SInt:
            self.step = self.step.concrete('range step')
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    def __iter__(self):
        i = self.start
        while True:
            if self.step > 0:
                if not (i < self.stop):
                    return
            elif not (i > self.stop):
                return
            yield i
            i = i + self.step

    def length(self):
        if self.step > 0:
            d = self.stop - self.start + (self.step - 1)
            n = d // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // (-self.step)
        return ite(n < 0, 0, n)

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.concrete('len(range)')

    def contains(self, x):
        if self.step == 1:
            return sand(x >= self.start, x < self.stop)
        return x in list(self)

    def __contains__(self, x):
        return bool(self.contains(x))

    def __getitem__(self, i):
        if type(i) is slice:
            return list(self)[i]
        n = self.length()
        if not bool(sand(i >= -n, i < n)):
            raise IndexError('range object index out of range')
        if bool(i < 0):
            i = i + n
        return self.start + i * self.step

    def __reversed__(self):
        return reversed(list(self))

    def __bool__(self):
        return bool(self.length() != 0)


# ------------------------------------------------------------ struct
struct_error = _struct.error
_SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4,
          'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 's': 1, 'p': 1, 'e': 2}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    if not isinstance(fmt, str):
        raise TypeError('Struct() argument 1 must be a str or bytes object')
    fmt = str(fmt)
    order = '@'
    body = fmt
    if fmt[:1] in '@=<>!':
        order = fmt[:1] or '@'
        body = fmt[1:] if fmt[:1] else fmt
    toks = _re.findall(r'(\d*)([a-zA-Z?])', body)
    return order, [(int(n) if n else None, c) for n, c in toks]


def s_calcsize(fmt):
    return _struct.calcsize(concretize(fmt))


def s_unpack(fmt, data):
    fmt = concretize(fmt)
    if type(data) not in (SBytes, SByteArray):
        return _struct.unpack(fmt, data)
    size = _struct.calcsize(fmt)
    its = data.items
    if len(its) != size:
        raise struct_error('unpack requires a buffer of %d bytes' % size)
    order, toks = parse_fmt(fmt)
    if order == '@':
        # native alignment: only sequences without padding are handled
        if _struct.calcsize('=' + fmt.lstrip('@')) != size:
            raise Unsupported('native struct alignment')
    big = order in '>!'
    out = []
    pos = 0
    for n, c in toks:
        if c == 'x':
            pos += 1 if n is None else n
            continue
        if c == 's':
            k = 1 if n is None else n
            out.append(mkbytes(its[pos:pos + k]))
            pos += k
            continue
        if c in 'pePnN':
            raise Unsupported('struct format ' + c)
        for _ in range(1 if n is None else n):
            k = _SIZES[c]
            chunk = its[pos:pos + k]
            pos += k
            if big:
                chunk = chunk[::-1]
            if c == 'c':
                out.append(mkbytes(chunk))
            elif c == '?':
                out.append(chunk[0] != 0)
            elif c == 'd':
                out.append(float_from_bytes(chunk))
            elif c == 'f':
                if all(type(b) is int for b in chunk):
                    out.append(_struct.unpack('<f', bytes(chunk))[0])
                else:
                    raise Unsupported('symbolic single-precision float')
            else:
                out.append(bytes_to_int(chunk, signed=c.islower()))
    return tuple(out)


def s_unpack_from(fmt, data, offset=0):
    size = s_calcsize(fmt)
    if type(offset) is SInt:
        offset = offset.concrete('unpack_from offset')
    n = len(data)
    if offset < 0:
        offset += n
        if offset < 0:
            raise struct_error('offset out of range')
    if offset + size > n:
        raise struct_error('unpack_from requires a buffer of at least %d bytes' % (offset + size))
    return s_unpack(fmt, data[offset:offset + size])


def s_iter_unpack(fmt, data):
    size = s_calcsize(fmt)
    if len(data) % size:
        raise struct_error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    return iter([s_unpack(fmt, data[i:i + size]) for i in range(0, len(data), size)])


def s_pack(fmt, *args):
    fmt = concretize(fmt)
    if not has_sym(args):
        return _struct.pack(fmt, *args)
    order, toks = parse_fmt(fmt)
    if order == '@' and _struct.calcsize('=' + fmt.lstrip('@')) != _struct.calcsize(fmt):
        raise Unsupported('native struct alignment')
    big = order in '>!'
    out = []
    ai = 0
    for n, c in toks:
        if c == 'x':
            out.extend([0] * (1 if n is None else n))
            continue
        if c == 's':
            k = 1 if n is None else n
            its = list(byteitems(args[ai]))[:k]
            ai += 1
            out.extend(its + [0] * (k - len(its)))
            continue
        for _ in range(1 if n is None else n):
            a = args[ai]
            ai += 1
            k = _SIZES[c]
            if c == 'd':
                f = sfloat(a) if isinstance(a, (int, float)) else None
                if f is None:
                    raise struct_error('required argument is not a float')
                its = int_to_bytes(SInt(f.bits, 0, (1 << 64) - 1), 8)
            elif c in 'fe':
                its = list(_struct.pack('<' + c, concretize(a)))
            elif c == 'c':
                its = list(byteitems(a))
            elif c == '?':
                its = [ite(sbool(a), 1, 0)]
            else:
                v = coerce(a)
                if v is None:
                    raise struct_error('required argument is not an integer')
                lo, hi = (-(1 << (8 * k - 1)), (1 << (8 * k - 1)) - 1) if c.islower() else \
                    (0, (1 << (8 * k)) - 1)
                if not bool(sand(v >= lo, v <= hi)):
                    raise struct_error('argument out of range')
                its = int_to_bytes(v, k)
            out.extend(its[::-1] if big else its)
    return mkbytes(out)


class SStruct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = s_calcsize(fmt)

    def unpack(self, data):
        return s_unpack(self.format, data)

    def unpack_from(self, data, offset=0):
        return s_unpack_from(self.format, data, offset)

    def iter_unpack(self, data):
        return s_iter_unpack(self.format, data)

    def pack(self, *a):
        return s_pack(self.format, *a)


struct_shim = types.ModuleType('struct')
struct_shim.unpack = s_unpack
struct_shim.unpack_from = s_unpack_from
struct_shim.iter_unpack = s_iter_unpack
struct_shim.pack = s_pack
struct_shim.calcsize = s_calcsize
struct_shim.Struct = SStruct
struct_shim.error = struct_error


# ------------------------------------------------------------ array
_ARR = {'b': (-128, 127), 'B': (0, 255), 'h': (-32768, 32767), 'H': (0, 65535),
        'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1),
        'l': (-2 ** 63, 2 ** 63 - 1), 'L': (0, 2 ** 64 - 1),
        'q': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, 2 ** 64 - 1)}


class SArray(list):
    def __init__(self, typecode, init=()):
        list.__init__(self)
        if typecode not in _ARR and typecode not in ('d', 'f', 'u'):
            raise ValueError('bad typecode (must be b, B, u, h, H, i, I, l, L, q, Q, f or d)')
        self.typecode = typecode
        self.itemsize = _SIZES.get(typecode, 8) if typecode not in 'lL' else 8
        if isinstance(init, (bytes, bytearray)):
            self.frombytes(init)
        else:
            for x in init:
                self.append(x)

    def _chk(self, v):
        if self.typecode in ('d', 'f'):
            if type(v) in SYMTYPES:
                return v
            return float(v)
        c = coerce(v)
        if c is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        lo, hi = _ARR[self.typecode]
        if not bool(sand(c >= lo, c <= hi)):
            raise OverflowError('array item out of range')
        return c

    def append(self, v):
        list.append(self, self._chk(v))

    def extend(self, it):
        for x in it:
            self.append(x)

    def insert(self, i, v):
        list.insert(self, i, self._chk(v))

    def fromlist(self, it):
        self.extend(it)

    def frombytes(self, data):
        k = self.itemsize
        its = byteitems(data)
        if len(its) % k:
            raise ValueError('bytes length not a multiple of item size')
        for i in range(0, len(its), k):
            list.append(self, s_unpack('<' + {'l': 'q', 'L': 'Q'}.get(self.typecode, self.typecode),
                                       mkbytes(its[i:i + k]))[0])

    def tobytes(self):
        out = b''
        for x in self:
            out = out + s_pack('<' + {'l': 'q', 'L': 'Q'}.get(self.typecode, self.typecode), x)
        return out

    def byteswap(self):
        raise Unsupported('array.byteswap')

    def tolist(self):
        return list(self)

    def _new(self, items):
        r = SArray(self.typecode)
        list.extend(r, items)
        return r

    def __add__(self, o):
        return self._new(list.__add__(self, list(o)))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        return self._new(list.__mul__(self, n if type(n) is int else operator.index(n)))

    __rmul__ = __mul__

    def __imul__(self, n):
        self[:] = list.__mul__(self, n)
        return self

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return self._new(r) if type(i) is slice else r

    def __setitem__(self, i, v):
        if type(i) is slice:
            list.__setitem__(self, i, [self._chk(x) for x in v])
        else:
            list.__setitem__(self, i, self._chk(v))

    def __eq__(self, o):
        return isinstance(o, list) and sand(seq_eq(list(self), list(o)))

    __hash__ = None


array_shim = types.ModuleType('array')
array_shim.array = SArray
array_shim.ArrayType = SArray
array_shim.typecodes = _array.typecodes


# ------------------------------------------------------------ formatting
_FMT = _re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<width>\*|\d*)'
                   r'(?:\.(?P<prec>\*|\d*))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')


def pad(its, width, flags, numeric=False):
    n = width - len(its)
    if n <= 0:
        return its
    if '-' in flags:
        return its + [32] * n
    if '0' in flags and numeric:
        if its and its[0] == 45:
            return [45] + [48] * n + its[1:]
        return [48] * n + its
    return [32] * n + its


def own_text(x, depth=3):
    """Does x hold an object of the package with its own __repr__ or __str__?"""
    t = type(x)
    if depth and t in (tuple, list):
        return any(own_text(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(own_text(y, depth - 1) for y in x.values())
    return _own_method(t, 's') is not None


def _own_method(t, conv):
    if not getattr(t, '__module__', '').startswith('xlrd_sx') or issubclass(t, (BaseException, type)):
        return None
    for name in ('__str__', '__repr__') if conv == 's' else ('__repr__',):
        f = getattr(t, name, None)
        if type(f) is types.FunctionType:
            return f
    return None


def textual(x):
    return has_sym(x) or own_text(x)


def text_of(x, conv='s'):
    """code points of str(x) / repr(x) / ascii(x)."""
    t = type(x)
    own = _own_method(t, conv)
    if own is not None:
        return list(stritems(own(x)))
    if conv == 's':
        if t is SStr or t is SLazyStr:
            return list(x.items)
        if t is SInt:
            return codec.decimal(x)
        if t is SBool:
            return stritems('True' if bool(x) else 'False')
    else:
        if t is SInt:
            return codec.decimal(x)
        if t in (SStr, SLazyStr):
            its = list(x.items)
            ok = True
            for c in its:
                if not bool(sand(c >= 32, c <= 126, c != 39, c != 92)):
                    ok = False
                    break
            if ok:
                return [39] + its + [39]
    if t in (SDict,):
        x = dict(x.items())
    if t in (tuple, list) and textual(x):
        out = [40 if t is tuple else 91]
        for k, y in enumerate(x):
            if k:
                out += [44, 32]
            out += text_of(y, 'r' if conv == 's' else conv)
        if t is tuple and len(x) == 1:
            out.append(44)
        return out + [41 if t is tuple else 93]
    if t is dict and own_text(x):
        out = [123]
        for k, y in x.items():
            if len(out) > 1:
                out += [44, 32]
            out += text_of(k, 'r' if conv == 's' else conv) + [58, 32] + text_of(y, 'r' if conv == 's' else conv)
        return out + [125]
    x = concretize(x)
    return [ord(c) for c in {'s': str, 'r': repr, 'a': ascii}[conv](x)]


def fmt_percent(fmt, args):
    """fmt % args."""
    if not has_sym(fmt) and not textual(args):
        return fmt % args
    if isinstance(fmt, bytes):
        raise Unsupported('bytes formatting with symbolic arguments')
    fmt = concretize(fmt)
    if type(args) is not tuple:
        a = args if isinstance(args, dict) else (args,)
    else:
        a = args
    # eager checking of the argument list, lazy text
    specs = []
    pos = 0
    ai = 0
    while pos < len(fmt):
        j = fmt.find('%', pos)
        if j < 0:
            specs.append(fmt[pos:])
            break
        if j > pos:
            specs.append(fmt[pos:j])
        m = _FMT.match(fmt, j)
        if not m:
            raise ValueError('unsupported or incomplete format')
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            specs.append('%')
            continue
        width = m.group('width')
        prec = m.group('prec')
        if m.group('key') is not None:
            val = a[m.group('key')]
        else:
            if width == '*':
                if ai >= len(a):
                    raise TypeError('not enough arguments for format string')
                width = a[ai]
                ai += 1
            if prec == '*':
                prec = a[ai]
                ai += 1
            if ai >= len(a):
                raise TypeError('not enough arguments for format string')
            val = a[ai]
            ai += 1
        if conv in 'diouxXeEfFgG':
            if not isinstance(val, (int, float)):
                if type(val) in SYMTYPES or isinstance(val, (str, bytes, list, tuple)) or val is None:
                    raise TypeError('%%%s format: a real number is required, not %s' %
                                    (conv, type(val).__name__))
        specs.append((conv, m.group('flags'), width, prec, val))
    if not isinstance(a, dict) and ai < len(a):
        raise TypeError('not all arguments converted during string formatting')

    def build():
        out = []
        for s in specs:
            if type(s) is str:
                out.extend(ord(c) for c in s)
                continue
            conv, flags, width, prec, val = s
            if type(width) is SInt:
                width = width.concrete('width')
            width = int(width) if width not in ('', None) else 0
            if width < 0:
                flags, width = flags + '-', -width
            if not has_sym(val):
                spec = '%' + flags + (str(width) if width else '') + \
                    ('.' + str(prec) if prec is not None else '') + conv
                if isinstance(val, SDict):
                    val = dict(val.items())
                out.extend(ord(c) for c in spec % (val,))
                continue
            if conv in 'di' and type(val) in (SInt, SBool):
                v = val.to_int() if type(val) is SBool else val
                its = codec.decimal(v)
                if '+' in flags or ' ' in flags:
                    if its[0] != 45:
                        its = [43 if '+' in flags else 32] + its
                if prec:
                    raise Unsupported('precision in %d')
                out.extend(pad(its, width, flags, True))
            elif conv in 'xXo' and type(val) in (SInt, SBool) and parts_lo(val) >= 0 and conv != 'o':
                v = val.to_int() if type(val) is SBool else val
                n = 1
                nmax = max(1, (v.hi.bit_length() + 3) // 4)
                if '0' in flags and '-' not in flags and width >= nmax and '#' not in flags:
                    its = codec.hexdigits(v, width, conv == 'X')
                else:
                    while n < nmax and bool(v >= 16 ** n):
                        n += 1
                    its = codec.hexdigits(v, n, conv == 'X')
                    if '#' in flags:
                        its = [48, ord(conv)] + its
                out.extend(pad(its, width, flags, True))
            elif conv == 'c':
                its = [val] if type(val) is SInt else list(stritems(val))
                out.extend(pad(its, width, flags))
            elif conv in 'sra':
                its = text_of(val, conv)
                if prec not in (None, ''):
                    its = its[:int(prec)]
                out.extend(pad(its, width, flags))
            else:
                val = concretize(val)
                spec = '%' + flags + (str(width) if width else '') + \
                    ('.' + str(prec) if prec is not None else '') + conv
                out.extend(ord(c) for c in spec % (val,))
        return out
    return SLazyStr(build)


def parts_lo(v):
    return v.lo if type(v) is SInt else 0


def format_value(v, spec):
    """items of format(v, spec)."""
    spec = concretize(spec)
    if not textual(v):
        return [ord(c) for c in format(v, spec)]
    if spec == '':
        return text_of(v)
    m = _re.match(r'^(?:(.)?([<>^=]))?([ +-])?(#)?(0)?(\d+)?(?:\.(\d+))?([dxXsc])?$', spec)
    if m and not m.group(1) and m.group(2) in (None, '<', '>'):
        numeric = type(v) in (SInt, SBool)
        flags = (m.group(3) or '').replace('-', '') + (m.group(4) or '') + (m.group(5) or '')
        al = m.group(2)
        if al == '<' or (al is None and not numeric):
            flags += '-'
        conv = m.group(8) or ('d' if numeric else 's')
        f = '%' + flags + (m.group(6) or '') + ('.' + m.group(7) if m.group(7) else '') + conv
        return list(stritems(fmt_percent(f, (v,))))
    return [ord(c) for c in format(concretize(v), spec)]


def sx_fstr(*pieces):
    """f-string: pieces are str or (value, conversion, spec)."""
    vals = []
    anysym = False
    for p in pieces:
        if type(p) is tuple:
            if textual(p[0]) or has_sym(p[2]):
                anysym = True
        vals.append(p)
    if not anysym:
        out = []
        for p in vals:
            if type(p) is tuple:
                v, conv, spec = p
                if conv == 115:
                    v = str(v)
                elif conv == 114:
                    v = repr(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
            else:
                out.append(p)
        return ''.join(out)

    def build():
        out = []
        for p in vals:
            if type(p) is tuple:
                v, conv, spec = p
                if conv in (115, 114, 97):
                    v = mkstr(text_of(v, chr(conv)))
                out.extend(format_value(v, spec))
            else:
                out.extend(ord(c) for c in p)
        return out
    return SLazyStr(build)


def str_format(fmt, args, kwargs):
    if not textual(args) and not textual(kwargs):
        return fmt.format(*args, **kwargs)
    fm = string.Formatter()
    auto = [0]
    pieces = []
    for lit, field, spec, conv in fm.parse(fmt):
        if lit:
            pieces.append(lit)
        if field is None:
            continue
        if spec and '{' in spec:
            raise Unsupported('nested format spec')
        first = _re.match(r'[^.\[]*', field).group(0)
        if first == '':
            field = str(auto[0]) + field
            auto[0] += 1
        obj, _ = fm.get_field(field, args, kwargs)
        pieces.append((obj, ord(conv) if conv else -1, spec))
    return sx_fstr(*pieces)


# ------------------------------------------------------------ sinks
class Sink(object):
    """A log file that discards what it is given."""
    encoding = 'utf-8'
    name = '<sink>'

    def write(self, s):
        return len(s) if type(s) is str else 0

    def flush(self):
        pass

    def close(self):
        pass

    def isatty(self):
        return False


class TextSink(Sink):
    """Collects everything printed, as one list of code points."""

    def __init__(self):
        self.chunks = []

    def write(self, s):
        self.chunks.append(s)
        return 0

    def items(self):
        out = []
        for c in self.chunks:
            out.extend(stritems(c))
        return out

    def text(self):
        return mkstr(self.items())


def sx_print(*args, **kw):
    f = kw.get('file')
    if isinstance(f, TextSink):
        sep = kw.get('sep', ' ')
        end = kw.get('end', '\n')
        first = True
        for a in args:
            if not first:
                f.write(' ' if sep is None else sep)
            first = False
            f.write(a if isinstance(a, str) else mkstr(text_of(a)))
        f.write('\n' if end is None else end)
    elif f is not None and not isinstance(f, Sink) and hasattr(f, 'write') and \
            not isinstance(f, io.TextIOBase):
        f.write('')
    return None


# ------------------------------------------------------------ builtins
def sx_len(x):
    t = type(x)
    if t is SRange:
        return x.length()
    n = getattr(x, 'sx_len', None)
    if n is not None:
        return n()
    return len(x)


def sx_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    t = type(x)
    if t is SInt:
        return x
    if t is SBool:
        return x.to_int()
    if t is SFloat:
        return x.to_int()
    if t in SYMTYPES:
        return int(concretize(x), *a[1:], **k)
    if hasattr(x, '__int__') or hasattr(x, '__index__'):
        return int(*a, **k)
    return int(*[concretize(y) for y in a], **k)


def sx_float(*a):
    if not a:
        return 0.0
    x = a[0]
    t = type(x)
    if t is SFloat:
        return x
    if t in (SInt, SBool):
        return sfloat(x)
    return float(concretize(x))


def sx_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    t = type(x)
    if t in (SBytes, SByteArray) and (len(a) > 1 or k):
        return x.decode(*(a[1:]), **k)
    if t in (SStr, SLazyStr):
        return x
    if len(a) == 1 and textual(x):
        return SLazyStr(lambda: text_of(x))
    return str(*a, **k)


def sx_repr(x):
    if textual(x):
        return SLazyStr(lambda: text_of(x, 'r'))
    return repr(x)


def sx_ascii(x):
    if textual(x):
        return SLazyStr(lambda: text_of(x, 'a'))
    return ascii(x)


def sx_chr(x):
    if type(x) in (SInt, SBool):
        v = coerce(x)
        if not bool(sand(v >= 0, v < 0x110000)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr([v])
    return chr(x)


def sx_ord(x):
    if type(x) in (SStr, SLazyStr, SBytes, SByteArray):
        if len(x.items) != 1:
            raise TypeError('ord() expected a character')
        return x.items[0]
    return ord(x)


def sx_bool(*a):
    if not a:
        return False
    r = sbool(a[0])
    return r


def sx_range(*a):
    if has_sym(a):
        return SRange(*[x.to_int() if type(x) is SBool else x for x in a])
    return range(*a)


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in _NATIVE:
            return _NATIVE[t]
        if t is SDict:
            return dict
        if t is SSet:
            return set
        return t
    return type(*a)


def _minmax(name):
    nat = getattr(builtins, name)

    def f(*a, **k):
        seq = list(a[0]) if len(a) == 1 else list(a)
        if k.get('key') is None and seq and has_sym(seq) and \
                all(coerce(x) is not None for x in seq):
            r = coerce(seq[0])
            for x in seq[1:]:
                x = coerce(x)
                r = ite(x < r if name == 'min' else x > r, x, r)
            return r
        if 'key' in k:
            kf = k['key']
            if kf is not None:
                k['key'] = lambda x: sx_call(kf, x)
        if len(a) == 1:
            return nat(seq, **k)
        return nat(*a, **k)
    return f


sx_min = _minmax('min')
sx_max = _minmax('max')


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_any(it):
    acc = []
    for x in it:
        x = sbool(x)
        if x is True:
            return True
        if x is not False:
            acc.append(x)
    return sor(*acc)


def sx_all(it):
    acc = []
    for x in it:
        x = sbool(x)
        if x is False:
            return False
        if x is not True:
            acc.append(x)
    return sand(*acc)


def sx_bytes(*a, **k):
    if not a:
        return b''
    x = a[0]
    t = type(x)
    if t is SBytes:
        return x
    if t is SByteArray:
        return mkbytes(list(x.items))
    if t in (SStr, SLazyStr):
        return x.encode(*a[1:], **k)
    if t is SInt:
        return bytes(x.concrete('bytes(n)'))
    if len(a) == 1 and not isinstance(x, (int, str, bytes, bytearray, memoryview)):
        its = list(x)
        for y in its:
            c = coerce(y)
            if c is None:
                raise TypeError('cannot convert to bytes')
            if not bool(sand(c >= 0, c <= 255)):
                raise ValueError('bytes must be in range(0, 256)')
        return mkbytes([coerce(y) for y in its])
    return bytes(*a, **k)


def sx_bytearray(*a, **k):
    if not a:
        return SByteArray([])
    x = a[0]
    if isinstance(x, int):
        return SByteArray([0] * (x if type(x) is int else int(x)))
    return SByteArray(list(byteitems(sx_bytes(*a, **k))))


def sx_memoryview(x):
    if type(x) in (SBytes, SByteArray):
        return x
    return memoryview(x)


def sx_hash(x):
    return hash(x)


def sx_map(f, *its):
    return map(lambda *a: sx_call(f, *a), *its)


def sx_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda a: sx_call(f, a), it)


def sx_sorted(it, **k):
    kf = k.get('key')
    if kf is not None:
        k['key'] = lambda x: sx_call(kf, x)
    return sorted(it, **k)


def sx_reduce(f, *a):
    return functools.reduce(lambda x, y: sx_call(f, x, y), *a)


def sx_abs(x):
    return abs(x)


def sx_hex(x):
    if type(x) in (SInt, SBool):
        return fmt_percent('0x%x', (x,))
    return hex(x)


def sx_format(x, spec=''):
    if has_sym(x):
        return SLazyStr(lambda: format_value(x, spec))
    return format(x, spec)


def sx_round(x, *a):
    return round(x, *a)


def sx_divmod(a, b):
    return divmod(a, b)


def sx_floor(x):
    return x.__floor__() if type(x) in SYMTYPES else math.floor(x)


def sx_ceil(x):
    return x.__ceil__() if type(x) in SYMTYPES else math.ceil(x)


def sx_trunc(x):
    return x.__trunc__() if type(x) in SYMTYPES else math.trunc(x)


def sx_modf(x):
    if type(x) in (SFloat, SInt):
        x = sfloat(x)
        n = sfloat(x.to_int())
        return x - n, n
    return math.modf(x)


def sx_isnan(x):
    if type(x) is SFloat:
        return mkbool(z3.simplify(z3.fpIsNaN(x.fp)))
    return math.isnan(x)


def sx_isinf(x):
    if type(x) is SFloat:
        return mkbool(z3.simplify(z3.fpIsInf(x.fp)))
    return math.isinf(x)


def sx_from_bytes(data, byteorder='big', signed=False):
    if not isinstance(data, (bytes, bytearray)):
        data = sx_bytes(data)
    its = list(byteitems(data))
    if byteorder == 'big':
        its.reverse()
    if not its:
        return 0
    return bytes_to_int(its, signed)


def sx_truth(x):
    return sbool(x)


def sx_isinstance(x, t):
    return isinstance(x, t)


class SBytesIO(object):
    """io.BytesIO over symbolic content."""

    def __init__(self, data=b''):
        self.buf = list(byteitems(data))
        self.pos = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def read(self, n=-1):
        self._chk()
        if n is None or (type(n) is int and n < 0):
            end = len(self.buf)
        else:
            end = clamp_index(self.pos + n, len(self.buf), 0)
        r = mkbytes(self.buf[self.pos:end])
        self.pos = max(self.pos, end)
        return r

    def seek(self, p, whence=0):
        self._chk()
        if type(p) is SInt:
            p = p.concrete('seek')
        self.pos = {0: 0, 1: self.pos, 2: len(self.buf)}[whence] + p
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        its = list(byteitems(data))
        self.buf[self.pos:self.pos + len(its)] = its
        self.pos += len(its)
        return len(its)

    def getvalue(self):
        self._chk()
        return mkbytes(list(self.buf))

    getbuffer = getvalue

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


_real_BytesIO = io.BytesIO


def sx_BytesIO(*a):
    if a and type(a[0]) in (SBytes, SByteArray):
        return SBytesIO(a[0])
    return SBytesIO(*a) if engine.CTX is not None else _real_BytesIO(*a)


def sx_iter(*a):
    return iter(*a)


def sx_tuple(*a):
    return tuple(*a)


def sx_list(*a):
    return list(*a)


def sx_dict(*a, **k):
    return SDict(*a, **k)


def sx_set(*a):
    return SSet(*a)


def sx_pow(a, b, *m):
    if m:
        return pow(concretize(a), concretize(b), *[concretize(x) for x in m])
    return do_pow(a, b)


def do_pow(a, b):
    return a ** b


INTERCEPT = {
    builtins.len: sx_len, builtins.int: sx_int, builtins.float: sx_float,
    builtins.str: sx_str, builtins.repr: sx_repr, builtins.ascii: sx_ascii,
    builtins.chr: sx_chr, builtins.ord: sx_ord, builtins.bool: sx_bool,
    builtins.range: sx_range, builtins.type: sx_type, builtins.min: sx_min,
    builtins.max: sx_max, builtins.sum: sx_sum, builtins.any: sx_any,
    builtins.all: sx_all, builtins.bytes: sx_bytes, builtins.bytearray: sx_bytearray,
    builtins.memoryview: sx_memoryview, builtins.map: sx_map, builtins.filter: sx_filter,
    builtins.sorted: sx_sorted, builtins.hex: sx_hex, builtins.format: sx_format,
    builtins.print: sx_print, builtins.dict: sx_dict, builtins.set: sx_set,
    builtins.pow: sx_pow, functools.reduce: sx_reduce,
    math.floor: sx_floor, math.ceil: sx_ceil, math.trunc: sx_trunc,
    math.isnan: sx_isnan, math.isinf: sx_isinf, operator.truth: sx_truth,
    io.BytesIO: sx_BytesIO, builtins.frozenset: sx_set, math.modf: sx_modf,
    _dt.timedelta: dt.sx_timedelta, _dt.datetime: dt.sx_datetime,
}
# calls that must see the caller's frame or compiler magic
UNTOUCHED = frozenset([builtins.super, builtins.locals, builtins.globals, builtins.vars,
                       builtins.eval, builtins.exec, builtins.dir, builtins.isinstance,
                       builtins.getattr, builtins.setattr, builtins.hasattr,
                       builtins.iter, builtins.next, builtins.zip, builtins.enumerate,
                       builtins.issubclass, builtins.id, builtins.callable])
_builtin_method = type(b''.join)
_OVERRIDES = {}


def sx_call(f, *a, **k):
    try:
        g = INTERCEPT.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    if type(f) is _builtin_method:
        s = f.__self__
        ts = type(s)
        if ts is bytes or ts is str or ts is bytearray:
            return _seq_method(s, f, a, k)
        if s is int or (ts is type and issubclass(s, int) and f.__name__ == 'from_bytes'):
            if f.__name__ == 'from_bytes':
                return sx_from_bytes(*a, **k)
        if s is _dt.datetime and has_sym(a):
            if f.__name__ == 'fromordinal':
                return dt.sx_fromordinal(*a)
            raise Unsupported('datetime.%s' % f.__name__)
        if ts is dict and f.__name__ in ('get', 'setdefault', 'pop') and has_sym(a[:1]):
            d = SDict(s)
            if f.__name__ == 'get':
                return d.get(*a, **k)
            return f(*a, **k)
        if ts is list and f.__name__ == 'sort' and k.get('key') is not None:
            kf = k['key']
            k = dict(k, key=lambda x: sx_call(kf, x))
        if s is dict and f.__name__ == 'fromkeys':
            return SDict.fromkeys(*a, **k)
    elif type(f) is types.MethodDescriptorType or type(f) is types.WrapperDescriptorType:
        if a and type(a[0]) in SYMTYPES:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and isinstance(a[0], (str, bytes)) and has_sym(a):
            return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
    ov = getattr(f, '_sx_re', None)
    return f(*a, **k)


def _seq_method(s, f, a, k):
    name = f.__name__
    if name == 'join':
        its = list(a[0])
        if has_sym(its, 1):
            w = SStr(list(stritems(s))) if isinstance(s, str) else SBytes(list(s))
            return w.join(its)
        return f(its)
    if name == 'format':
        return str_format(s, a, k)
    if has_sym(a, 2) or has_sym(k, 1):
        if name in ('decode', 'encode'):
            enc = k.pop('encoding') if 'encoding' in k else a[0] if a else 'utf-8'
            if type(enc) is not str:
                enc = codec.resolve(stritems(enc))
            return f(enc, *a[1:], **k)
        if isinstance(s, str):
            if name in ('startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'replace',
                        'split', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip',
                        'ljust', 'rjust', '__contains__', '__add__', '__mod__', '__eq__',
                        '__getitem__', 'removeprefix', 'removesuffix', 'zfill'):
                w = SStr([ord(c) for c in s])
                a = tuple(x.concrete('str method') if type(x) is SInt else x for x in a)
                return getattr(w, name)(*a, **k)
        elif name in ('startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'replace',
                      'split', 'partition', 'strip', 'lstrip', 'rstrip', 'ljust', 'rjust',
                      '__contains__', '__add__', '__eq__', '__getitem__'):
            w = SBytes(list(s))
            a = tuple(x.concrete('bytes method') if type(x) is SInt and
                      not (i == 0 and name in ('find', 'rfind', 'index', 'count', '__contains__'))
                      else x for i, x in enumerate(a))
            return getattr(w, name)(*a, **k)
        return f(*[concretize(x) for x in a], **{n: concretize(v) for n, v in k.items()})
    return f(*a, **k)


# ------------------------------------------------------------ operators
def do_in(x, c):
    """x in c without forking where possible."""
    t = type(c)
    m = getattr(c, 'contains', None) if t in (SDict, SSet, SRange, SBytes, SByteArray, SStr,
                                              SLazyStr) else None
    if m is not None:
        return m(x)
    if not has_sym(x):
        if t in (list, tuple, SArray) and has_sym(c, 2):
            return sor(*[(x is y) or sbool(keyeq(x, y)) for y in c])
        return x in c
    if t in (list, tuple, set, frozenset, SArray):
        return sor(*[(x is y) or sbool(keyeq(x, y)) for y in c])
    if t is dict:
        return SDict(c).contains(x)
    if t is range and type(x) is SInt and c.step == 1:
        return sand(x >= c.start, x < c.stop)
    if t in (bytes, bytearray):
        return SBytes(list(c)).contains(x)
    if t is str:
        return SStr([ord(y) for y in c]).contains(x)
    return x in c


def sx_in(x, c):
    return do_in(x, c)


def sx_notin(x, c):
    return snot(do_in(x, c))


def sx_not(x):
    t = type(x)
    if t in SYMTYPES:
        return snot(sbool(x))
    return not x


def sx_mod(a, b):
    t = type(a)
    if t is str or t is SStr or t is SLazyStr or t is bytes:
        return fmt_percent(a, b)
    return a % b


def sx_getitem(o, i):
    ti = type(i)
    if ti is int or ti is str:
        return o[i]
    to = type(o)
    if ti is slice:
        if to in (list, tuple, bytes, str, bytearray, SArray, range):
            s = norm_slice(i, len(o))
            return o[s]
        return o[i]
    if ti is SInt or ti is SBool:
        if to is list or to is tuple or to is SArray or to is range:
            return select(o, i, 'list index out of range')
        if to is bytes or to is bytearray:
            return select(list(o), i, 'index out of range')
        if to is str:
            return SStr([ord(c) for c in o])[i]
        if to is dict:
            return SDict(o)[i]
        return o[i]
    if to is dict and has_sym(i):
        return SDict(o)[i]
    return o[i]


def sx_setitem(o, i, v):
    ti = type(i)
    if ti is SInt or ti is SBool:
        if type(o) in (list, SArray):
            o[pick_index(len(o), i, 'list assignment index out of range')] = v
            return
    elif ti is slice and type(o) in (list, SArray, bytearray):
        o[norm_slice(i, len(o))] = v
        return
    o[i] = v


def sx_delitem(o, i):
    ti = type(i)
    if ti is SInt and type(o) in (list, SArray):
        del o[pick_index(len(o), i)]
        return
    if ti is slice and type(o) in (list, SArray):
        del o[norm_slice(i, len(o))]
        return
    del o[i]


def sx_and(first, *thunks):
    """Merged 'and' over comparisons."""
    a = first
    for i, th in enumerate(thunks):
        if type(a) is SBool:
            try:
                b = th()
            except Exception:
                if not bool(a):
                    return a
                b = th()
                a = b
                continue
            if type(b) in (bool, SBool):
                a = sand(a, b)
            elif bool(a):
                a = b
            else:
                return False
        elif a:
            a = th()
        else:
            return a
    return a


def sx_or(first, *thunks):
    a = first
    for th in thunks:
        if type(a) is SBool:
            try:
                b = th()
            except Exception:
                if bool(a):
                    return a
                a = th()
                continue
            if type(b) in (bool, SBool):
                a = sor(a, b)
            elif bool(a):
                return True
            else:
                a = b
        elif a:
            return a
        else:
            a = th()
    return a


def sx_mkdict(pairs):
    d = SDict()
    for k, v in pairs:
        if k is SPREAD:
            d.update(v)
        else:
            d[k] = v
    return d


SPREAD = object()


def sx_mkset(*items):
    return SSet(items)


COVER = set()


def sx_enter(name):
    COVER.add(name)


def sx_tick():
    c = engine.CTX
    if c is not None:
        c.steps += 1
        if c.steps > c.max_steps:
            c.steps = 0
            raise engine.StepLimit()
