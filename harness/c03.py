"""C03: xldate_as_datetime."""
from . import cal

PROP = 'C03'
BOUNDS = ['every double in [2**-27, year 10000) in both date systems, one case per binary exponent and date system',
          'every double in [0, 2**-27); every Python int from 0 to year 10000']
ASSUMES = ['Where 86400000 times the fraction is not exactly representable in a double (numbers below 65536), an '
           'error of one unit in its last place is allowed before rounding to the millisecond.',
           'datetime.timedelta and datetime.datetime behave as documented (modelled in symx/dt.py).']
REACH = ['datetime', 'tuple']
OPTS = {'query_ms': 250, 'lia': 60}


def cases(tier):
    out = []
    for mode in (0, 1):
        for e in range(-27, 22):
            out.append({'name': 'e%d-m%d' % (e, mode), 'k': 'exp', 'e': e, 'mode': mode, 'weight': 30 if e > 5 else 5})
        out.append({'name': 'tiny-m%d' % mode, 'k': 'tiny', 'mode': mode, 'weight': 40})
        for i, rng in enumerate(((0, 59), (60, 70), (71, 65535), (65536, cal.LIMIT[mode] - 1))):
            out.append({'name': 'int%d-m%d' % (i, mode), 'k': 'int', 'mode': mode, 'rng': rng, 'weight': 50})
    return out


def judge(sx, X, x, q, frac, k, mode):
    """x is the number q + frac / 2**k, 0 <= frac < 2**k."""
    st, dt = sx.attempt(X.xldate.xldate_as_datetime, x, mode)
    one = 1 << k
    n = frac * 86400000
    half = one // 2
    lim = half + (0 if k <= 36 else 1 << (k - 26))
    base = cal.EPOCH_1904 if mode else cal.EPOCH_1900 + sx.ite(q < 60, 1, 0)
    last = n + lim >= 86400000 * one          # may round up to midnight
    if st == 'exc':
        sx.check(sx.And(q == cal.LIMIT[mode] - 1, last), 'every date before year 10000 is converted')
        return
    sx.reach('datetime')
    us = sx.us_of_day(dt)
    sx.check(us % 1000 == 0, 'whole milliseconds')
    diff = n * 1000 - us * one
    if last:
        day = dt.toordinal() - base - q
        sx.check(sx.Or(day == 0, day == 1), 'that many days after the epoch')
        sx.check(sx.Or(sx.And(day == 0, diff <= lim * 1000, -diff <= lim * 1000), sx.And(day == 1, us == 0)),
                 'the time of day to the nearest millisecond')
    else:
        sx.check(dt.toordinal() == base + q, 'that many days after the epoch')
        sx.check(diff <= lim * 1000, 'the time of day to the nearest millisecond')
        sx.check(-diff <= lim * 1000, 'the time of day to the nearest millisecond')
    sx.check(dt.tzinfo is None, 'a naive datetime')
    st, t = sx.attempt(X.xldate.xldate_as_tuple, x, mode)
    if st == 'ok' and t[0] > 0:
        sx.reach('tuple')
        late = frac * 86400 + half + (1 << max(0, k - 30)) >= 86400 * one
        o = cal.ordinal(sx, t[0], t[1], t[2])
        if late:
            sx.check(sx.Or(o == dt.toordinal(), o == dt.toordinal() + 1), 'the same day as xldate_as_tuple')
        else:
            sx.check(o == dt.toordinal(), 'the same day as xldate_as_tuple')
    sx.observe('ord', dt.toordinal())
    sx.observe('us', us)


def harness(sx, X, case):
    k = case['k']
    mode = case['mode']
    if k == 'exp':
        e = case['e']
        if e >= 0:
            k = 52 - e
            q = sx.int('day', 1 << e, min((1 << (e + 1)) - 1, cal.LIMIT[mode] - 1))
            f = sx.int('frac', 0, (1 << k) - 1)
            judge(sx, X, sx.fixed(sx.join(q, f, k), k), q, f, k, mode)
        else:
            num = sx.int('x', 1 << 52, (1 << 53) - 1)
            judge(sx, X, sx.fixed(num, 52 - e), 0, num, 52 - e, mode)
    elif k == 'int':
        num = sx.int('x', *case['rng'])
        judge(sx, X, num, num, 0, 0, mode)
    else:
        x = sx.double('x')
        sx.assume(x >= 0.0)
        sx.assume(x < 2.0 ** -27)
        st, r = sx.attempt(X.xldate.xldate_as_datetime, x, mode)
        sx.check(st == 'ok', 'accepted')
        sx.check(r.toordinal() == (cal.EPOCH_1904 if mode else cal.EPOCH_1900 + 1), 'the epoch')
        sx.check(sx.And(r.hour == 0, r.minute == 0, r.second == 0, r.microsecond <= 1000), 'midnight')
