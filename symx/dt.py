"""Symbolic datetime.datetime and datetime.timedelta (proleptic Gregorian, naive)."""
import datetime as _dt
import z3
from . import values
from .values import SInt, SFloat, SBool, C, sand, sor, ite, mkint, parts, width_for
from .engine import Unsupported

DAYUS = 86400 * 10 ** 6
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365)


def leap(y):
    return sand(y % 4 == 0, sor(y % 100 != 0, y % 400 == 0))


def before_year(y):
    """Days before 1 January of year y (ordinal of that day minus one)."""
    y = y - 1
    return y * 365 + y // 4 - y // 100 + y // 400


def days_before_month(y, m):
    v = 0
    for i in range(1, 13):
        n = CUM[i - 1] if i < 3 else CUM[i - 1] + ite(leap(y), 1, 0)
        v = ite(m == i, n, v) if i > 1 else n
    return v


def ordinal(y, m, d):
    return before_year(y) + days_before_month(y, m) + d


def month_len(y, m):
    v = 31
    for i in (4, 6, 9, 11):
        v = ite(m == i, 30, v)
    return ite(m == 2, 28 + ite(leap(y), 1, 0), v)


def _int(x):
    if type(x) is SFloat:
        if x.isint is not None:
            return x.isint
        raise Unsupported('timedelta of a symbolic fraction')
    if isinstance(x, float):
        if x == int(x):
            return int(x)
        raise Unsupported('timedelta of a fraction')
    if type(x) is SBool:
        return x.to_int()
    return x


class STimedelta(object):
    __class__ = property(lambda self: _dt.timedelta)

    def __init__(self, days, us):
        """days + us microseconds, us any integer."""
        q = us // DAYUS
        self.days = days + q
        self.us = us - q * DAYUS if type(us) is not SInt else us % DAYUS
        if self.days < -999999999 or self.days > 999999999:
            raise OverflowError('days=...; must have magnitude <= 999999999')

    @property
    def seconds(self):
        return self.us // 1000000

    @property
    def microseconds(self):
        return self.us % 1000000

    def total_seconds(self):
        return (self.days * DAYUS + self.us) / 1000000

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            o = of_td(o)
            return STimedelta(self.days + o.days, self.us + o.us)
        if isinstance(o, _dt.datetime):
            return of_datetime(o).shift(self)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return STimedelta(-self.days, -self.us)

    def __sub__(self, o):
        return self + (-of_td(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, n):
        n = _int(n)
        return STimedelta(self.days * n, self.us * n)
    __rmul__ = __mul__

    def total(self):
        return self.days * DAYUS + self.us

    def __eq__(self, o):
        if not isinstance(o, _dt.timedelta):
            return False
        o = of_td(o)
        return sand(self.days == o.days, self.us == o.us)

    def __ne__(self, o):
        return values.snot(self == o)

    def __lt__(self, o):
        return self.total() < of_td(o).total()

    def __le__(self, o):
        return self.total() <= of_td(o).total()

    def __gt__(self, o):
        return self.total() > of_td(o).total()

    def __ge__(self, o):
        return self.total() >= of_td(o).total()

    def __bool__(self):
        return bool(self != _dt.timedelta(0))

    __hash__ = None


def of_td(t):
    if type(t) is STimedelta:
        return t
    return STimedelta(t.days, t.seconds * 1000000 + t.microseconds)


class SDateTime(object):
    __class__ = property(lambda self: _dt.datetime)
    tzinfo = None
    fold = 0

    def __init__(self, ordinal, us):
        self.ord = ordinal
        self.us = us
        self._ymd = None

    def shift(self, td):
        us = self.us + td.us
        carry = us // DAYUS
        o = self.ord + td.days + carry
        if o < 1 or o > 3652059:
            raise OverflowError('date value out of range')
        return SDateTime(o, us % DAYUS)

    def toordinal(self):
        return self.ord

    @property
    def ymd(self):
        if self._ymd is None:
            if type(self.ord) is not SInt:
                d = _dt.date.fromordinal(self.ord)
                self._ymd = d.year, d.month, d.day
            else:
                c = C()
                y = SInt(c.fresh_bv(14, 'year'), 1, 9999)
                m = SInt(c.fresh_bv(4, 'month'), 1, 12)
                d = SInt(c.fresh_bv(5, 'day'), 1, 31)
                for v, h in ((y, 9999), (m, 12)):
                    c.assume(z3.And(z3.UGE(v.e, 1), z3.ULE(v.e, h)))
                c.assume(sand(d >= 1, d <= month_len(y, m), ordinal(y, m, d) == self.ord).b)
                self._ymd = y, m, d
        return self._ymd

    year = property(lambda self: self.ymd[0])
    month = property(lambda self: self.ymd[1])
    day = property(lambda self: self.ymd[2])
    hour = property(lambda self: self.us // 3600000000)
    minute = property(lambda self: self.us // 60000000 % 60)
    second = property(lambda self: self.us // 1000000 % 60)
    microsecond = property(lambda self: self.us % 1000000)

    def replace(self, **k):
        g = dict(year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None)
        if not set(k) <= set(g):
            raise Unsupported('datetime.replace')
        if not set(k) & {'year', 'month', 'day'}:
            h, m, s, u = [k.get(n, getattr(self, n)) for n in ('hour', 'minute', 'second', 'microsecond')]
            return SDateTime(self.ord, hms(h, m, s, u))
        return sx_datetime(*[k.get(n, getattr(self, n)) for n in g])

    def __add__(self, o):
        if not isinstance(o, _dt.timedelta):
            return NotImplemented
        return self.shift(of_td(o))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return self.shift(-of_td(o))
        if isinstance(o, _dt.datetime):
            o = of_datetime(o)
            return STimedelta(self.ord - o.ord, self.us - o.us)
        return NotImplemented

    def __rsub__(self, o):
        return of_datetime(o) - self

    def total(self):
        return self.ord * DAYUS + self.us

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime):
            return False
        o = of_datetime(o)
        return sand(self.ord == o.ord, self.us == o.us)

    def __ne__(self, o):
        return values.snot(self == o)

    def __lt__(self, o):
        return self.total() < of_datetime(o).total()

    def __le__(self, o):
        return self.total() <= of_datetime(o).total()

    def __gt__(self, o):
        return self.total() > of_datetime(o).total()

    def __ge__(self, o):
        return self.total() >= of_datetime(o).total()

    __hash__ = None


def of_datetime(d):
    if type(d) is SDateTime:
        return d
    return SDateTime(d.toordinal(), ((d.hour * 60 + d.minute) * 60 + d.second) * 1000000 + d.microsecond)


def hms(h, m, s, u):
    if not sand(h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60, u >= 0, u < 1000000):
        raise ValueError('time out of range')
    return ((h * 60 + m) * 60 + s) * 1000000 + u


def anysym(a, k):
    return any(type(x) in (SInt, SFloat, SBool) for x in list(a) + list(k.values()))


def sx_timedelta(*a, **k):
    if not anysym(a, k):
        return _dt.timedelta(*a, **k)
    g = dict(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a))
    g.update(k)
    g = {n: _int(v) for n, v in g.items()}
    us = g.get('seconds', 0) * 1000000 + g.get('microseconds', 0) + g.get('milliseconds', 0) * 1000 + \
        g.get('minutes', 0) * 60000000 + g.get('hours', 0) * 3600000000
    return STimedelta(g.get('days', 0) + g.get('weeks', 0) * 7, us)


def sx_datetime(*a, **k):
    if not anysym(a, k):
        return _dt.datetime(*a, **k)
    g = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), a))
    g.update(k)
    if len(a) > 7 or 'tzinfo' in g or 'fold' in g:
        raise Unsupported('datetime with a time zone')
    y, m, d = g['year'], g['month'], g['day']
    if not sand(y >= 1, y <= 9999, m >= 1, m <= 12):
        raise ValueError('year or month out of range')
    if not sand(d >= 1, d <= month_len(y, m)):
        raise ValueError('day is out of range for month')
    return SDateTime(ordinal(y, m, d), hms(*[g.get(n, 0) for n in ('hour', 'minute', 'second', 'microsecond')]))


def sx_fromordinal(n):
    if type(n) is not SInt:
        return _dt.datetime.fromordinal(n)
    if not sand(n >= 1, n <= 3652059):
        raise ValueError('ordinal out of range')
    return SDateTime(n, 0)
