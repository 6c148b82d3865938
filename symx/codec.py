"""Codecs and text formatting over symbolic items."""
import codecs
import z3
from .engine import Unsupported
from .values import (SInt, C, ite, sand, sor, mkstr, mkbytes, mkint, const, ext,
                     mkbool, stritems, SBool)


def hexdigit(n, upper=False):
    """code point of the hex digit of a nibble."""
    return ite(n < 10, n + 48, n + (55 if upper else 87))


def hexdigits(x, n, upper=False):
    out = []
    for k in range(n - 1, -1, -1):
        d = (x >> (4 * k)) & 15
        out.append(hexdigit(d, upper))
    return out


_canon = {}


_names = None


def known_names():
    """Every codec name this Python resolves, in normalised spelling."""
    global _names
    if _names is None:
        import pkgutil
        import encodings
        import encodings.aliases as al
        ns = set(al.aliases) | {m.name for m in pkgutil.iter_modules(encodings.__path__)}
        _names = []
        for n in sorted(ns):
            try:
                codecs.lookup(n)
                b''.decode(n)
            except LookupError:
                continue
            except Exception:
                pass
            _names.append(n)
    return _names


def resolve(items):
    """The concrete encoding a symbolic name denotes on this path; forks over
    the codecs Python knows, otherwise LookupError."""
    its = list(items)
    if all(type(x) is int for x in its):
        return ''.join(map(chr, its))
    norm = []
    for x in its:
        if type(x) is int:
            norm.append(ord({' ': '_', '-': '_'}.get(chr(x), chr(x)).lower()))
        else:
            if not (x.lo >= 48 and x.hi <= 57) and bool(sor(x < 48, x > 57)):
                raise Unsupported('encoding name')
            norm.append(x)
    for n in known_names():
        if len(n) == len(norm) and all(type(x) is not int or x == ord(c) for x, c in zip(norm, n)):
            if bool(sand(*[x == ord(c) for x, c in zip(norm, n) if type(x) is not int])):
                return ''.join(chr(x) if type(x) is int else c for x, c in zip(its, n))
    raise LookupError('unknown encoding: (symbolic)')


def canon(enc):
    if type(enc) is not str:
        enc = resolve(stritems(enc))
    r = _canon.get(enc)
    if r is None:
        r = _canon[enc] = codecs.lookup(enc).name
    return r


_tables = {}


def charmap(name):
    """256-entry decoding table of a single-byte codec, or None."""
    if name in _tables:
        return _tables[name]
    t = []
    try:
        for b in range(256):
            try:
                c = bytes([b]).decode(name)
                t.append(ord(c) if len(c) == 1 else None)
            except UnicodeDecodeError:
                t.append(None)
        # a multi-byte codec is recognised by lead bytes that combine
        for b in range(128, 256):
            for c in (0x40, 0x61, 0x80, 0xA1):
                try:
                    s = bytes([b, c]).decode(name)
                except UnicodeDecodeError:
                    s = None
                if s is not None and len(s) != 2:
                    t = None
                    break
            if t is None:
                break
        if t is not None and name.startswith(('utf', 'unicode', 'idna', 'puny', 'raw')):
            t = None
    except (LookupError, UnicodeError):
        t = None
    _tables[name] = t
    return t


def table(b, vals):
    """vals[b] for a byte b, as a balanced selection over its bits."""
    if type(b) is not SInt:
        return vals[b]
    if b.hi > 255 or b.lo < 0:
        raise Unsupported('table lookup')
    e = ext(b, 8)
    memo = {}

    def go(lo, k):
        key = tuple(v or 0 for v in vals[lo:lo + (1 << k)])
        r = memo.get(key)
        if r is None:
            if len(set(key)) == 1:
                r = const(key[0], 16)
            else:
                l, h = go(lo, k - 1), go(lo + (1 << (k - 1)), k - 1)
                r = l if l is h else z3.If(z3.Extract(k - 1, k - 1, e) == 1, h, l)
            memo[key] = r
        return r
    vals = list(vals) + [0] * (256 - len(vals))
    return mkint(go(0, 8), 0, max(v or 0 for v in vals))


def decode(items, encoding, errors='strict'):
    if not isinstance(encoding, str):
        raise TypeError('decode() argument must be str')
    if type(encoding) is not str:
        encoding = resolve(stritems(encoding))
    name = canon(encoding)      # LookupError for unknown encodings
    if all(type(b) is int for b in items):
        return bytes(items).decode(encoding, errors)
    if name == 'iso8859-1':
        return mkstr(list(items))
    if name in ('utf-16-le', 'utf-16-be'):
        return utf16(items, name == 'utf-16-be', errors)
    if name == 'utf-16':
        raise Unsupported('utf-16 with byte order mark')
    if name == 'ascii' or name == 'utf-8':
        out = []
        for i, b in enumerate(items):
            if b < 128:
                out.append(b)
            elif name == 'ascii':
                if errors == 'ignore':
                    continue
                if errors == 'replace':
                    out.append(0xFFFD)
                    continue
                raise UnicodeDecodeError('ascii', b'?' * len(items), i, i + 1,
                                         'ordinal not in range(128)')
            else:
                conc = bytes(b if type(b) is int else b.concrete('utf-8') for b in items)
                return conc.decode(encoding, errors)
        return mkstr(out)
    t = charmap(name)
    if t is None:
        conc = bytes(b if type(b) is int else b.concrete(name) for b in items)
        return conc.decode(encoding, errors)
    undef = [b for b in range(256) if t[b] is None]
    out = []
    for i, b in enumerate(items):
        if type(b) is int:
            b_known = t[b]
            if b_known is None:
                if errors != 'strict':
                    raise Unsupported('charmap error handler')
                raise UnicodeDecodeError(name, b'?' * len(items), i, i + 1, 'undefined')
            out.append(b_known)
            continue
        if undef and bool(sor(*[b == u for u in undef])):
            if errors != 'strict':
                raise Unsupported('charmap error handler')
            raise UnicodeDecodeError(name, b'?' * len(items), i, i + 1, 'undefined')
        out.append(table(b, t))
    return mkstr(out)


def utf16(items, big, errors):
    if errors != 'strict':
        items = [b if type(b) is int else b.concrete('utf16') for b in items]
        return bytes(items).decode('utf-16-be' if big else 'utf-16-le', errors)
    out = []
    n = len(items)
    i = 0
    name = 'utf-16-be' if big else 'utf-16-le'

    def err(a, b, msg):
        return UnicodeDecodeError(name, b'?' * n, a, min(b, n), msg)
    while i < n:
        if i + 1 >= n:
            raise err(i, i + 1, 'truncated data')
        a, b = (items[i + 1], items[i]) if big else (items[i], items[i + 1])
        u = a + b * 256 if type(a) is int or type(b) is int else \
            mkint(z3.simplify(z3.Concat(ext(b, 8), ext(a, 8))), 0, 0xFFFF)
        sur = sand(b >= 0xD8, b <= 0xDF)
        if not bool(sur):
            out.append(u)
            i += 2
            continue
        if not (b <= 0xDB):
            raise err(i, i + 2, 'illegal encoding')
        if i + 3 >= n:
            raise err(i, n, 'unexpected end of data')
        c, d = (items[i + 3], items[i + 2]) if big else (items[i + 2], items[i + 3])
        if not bool(sand(d >= 0xDC, d <= 0xDF)):
            raise err(i, i + 2, 'illegal UTF-16 surrogate')
        hi = u - 0xD800
        lo = (c + d * 256) - 0xDC00
        out.append(0x10000 + (hi & 0x3FF) * 1024 + (lo & 0x3FF))
        i += 4
    return mkstr(out)


def encode(items, encoding, errors='strict'):
    name = canon(encoding)
    if all(type(b) is int for b in items):
        return ''.join(map(chr, items)).encode(encoding, errors)
    if name in ('iso8859-1', 'ascii'):
        lim = 256 if name == 'iso8859-1' else 128
        out = []
        for i, x in enumerate(items):
            if x < lim:
                out.append(x)
            else:
                c = x if type(x) is int else x.concrete('encode')
                out.extend(chr(c).encode(encoding, errors))
        return mkbytes(out)
    if name in ('utf-16-le', 'utf-8'):
        out = []
        for i, x in enumerate(items):
            if type(x) is int:
                out.extend(chr(x).encode(name, errors))
                continue
            if name == 'utf-8' and x < 0x80:
                out.append(x)
                continue
            if name == 'utf-8' and x < 0x800:
                out += [(x >> 6) + 0xC0, (x & 63) + 0x80]
                continue
            if x < 0x10000:
                if sand(x >= 0xD800, x < 0xE000):
                    if errors == 'surrogatepass' or errors == 'strict':
                        if errors == 'strict':
                            raise UnicodeEncodeError(name, '\ud800' * (i + 1), i, i + 1, 'surrogates not allowed')
                    else:
                        out.extend(chr(x.concrete('encode')).encode(name, errors))
                        continue
                if name == 'utf-8':
                    out += [(x >> 12) + 0xE0, ((x >> 6) & 63) + 0x80, (x & 63) + 0x80]
                else:
                    out += [x & 255, x >> 8]
            elif name == 'utf-8':
                out += [(x >> 18) + 0xF0, ((x >> 12) & 63) + 0x80, ((x >> 6) & 63) + 0x80, (x & 63) + 0x80]
            else:
                y = x - 0x10000
                hi, lo = (y >> 10) + 0xD800, (y & 1023) + 0xDC00
                out += [hi & 255, hi >> 8, lo & 255, lo >> 8]
        return mkbytes(out)
    conc = ''.join(chr(b if type(b) is int else b.concrete('encode')) for b in items)
    return conc.encode(encoding, errors)


_case = {}


def case_runs(op):
    """(lo, hi, step, delta) runs of single-character case mappings in the BMP,
    plus the set of code points that map to several characters."""
    if op not in _case:
        out = []
        multi = []
        for c in range(0x110000):
            if 0xD800 <= c < 0xE000:
                continue
            s = getattr(chr(c), op)()
            if len(s) != 1:
                multi.append(c)
                continue
            d = ord(s) - c
            if not d:
                continue
            if out and out[-1][3] == d and out[-1][1] in (c - 1, c - 2) and \
                    (out[-1][2] in (0, c - out[-1][1])):
                out[-1][2] = c - out[-1][1]
                out[-1][1] = c
            else:
                out.append([c, c, 0, d])
        _case[op] = (out, multi)
    return _case[op]


def map_case(items, op):
    out = []
    rr, multi = case_runs(op)
    for k, x in enumerate(items):
        if type(x) is int:
            out.extend(ord(c) for c in getattr(chr(x), op)())
            continue
        if x.hi < 128 or bool(x < 128):
            a, b, d = (65, 90, 32) if op != 'upper' else (97, 122, -32)
            out.append(ite(sand(x >= a, x <= b), x + d, x))
            continue
        if op == 'lower' and bool(x == 0x3A3):   # context dependent (final sigma)
            raise Unsupported('final sigma')
        ms = [m for m in multi if x.lo <= m <= x.hi]
        if ms and bool(sor(*[x == m for m in ms])):
            out.extend(ord(c) for c in getattr(chr(x.concrete(op)), op)())
            continue
        r = x
        for lo, hi, step, d in rr:
            if hi < x.lo or lo > x.hi:
                continue
            if lo == hi:
                c = x == lo
            else:
                c = sand(x >= lo, x <= hi)
                if step == 2:
                    c = sand(c, (x & 1) == (lo & 1))
            r = ite(c, x + d, r)
        out.append(r)
    return out


def number(its):
    """The integer that a sequence of decimal digit characters denotes."""
    if any(type(y) is SInt for y in its):
        if all(type(y) is SInt for y in its):
            hit = C().memo.get(('num', tuple(y.e.get_id() for y in its)))
            if hit is not None:
                return hit[0]
    tot = 0
    for y in its:
        tot = tot * 10 + (y - 48)
    return tot


def decimal(x):
    """code points of the decimal representation of an integer."""
    if type(x) is SBool:
        return stritems(str(bool(x)))
    if type(x) is not SInt:
        return [ord(c) for c in '%d' % x]
    neg = False
    if x.lo < 0 and bool(x < 0):
        neg = True
        x = -x
    if type(x) is not SInt:
        return ([45] if neg else []) + [ord(c) for c in '%d' % x]
    c = C()
    key = ('dec', x.e.get_id())
    hit = c.memo.get(key)
    if hit is None:
        nmax = len(str(x.hi))
        n = 1
        while n < nmax and bool(x >= 10 ** n):
            n += 1
        w = max(x.e.size(), (10 ** n).bit_length() + 1)
        ds = [c.fresh_bv(4, 'd') for _ in range(n)]
        tot = None
        for d in ds:
            c.assume(z3.ULE(d, const(9, 4)))
            t = z3.ZeroExt(w - 4, d)
            tot = t if tot is None else tot * 10 + t
        c.assume(tot == ext(x, w))
        hit = c.memo[key] = ([SInt(d, 0, 9) + 48 for d in ds], x.e)
        c.memo[('num', tuple(y.e.get_id() for y in hit[0]))] = (x, hit)
    return ([45] if neg else []) + list(hit[0])
