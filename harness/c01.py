"""C01: xldate_as_tuple."""
from . import cal

PROP = 'C01'
BOUNDS = ['every double in [2**-20, 2**23) in both date systems, one case per binary exponent and date system',
          'every double in (-inf, 2**-20) and finite doubles above 2**23 (exponents 23, 24, 31, 52, 60, 100, 1023)',
          'every Python int in -2**40..2**40; every int date system in -3..9']
ASSUMES = ['The number is finite.',
           'Where 86400 times the fraction is not exactly representable in a double (numbers below 512), an error '
           'of one unit in its last place is allowed before rounding to the second.']
REACH = ['date', 'time', 'XLDateAmbiguous', 'XLDateTooLarge', 'XLDateNegative', 'XLDateBadDatemode']


OPTS = {'query_ms': 250, 'lia': 60}


def cases(tier):
    out = []
    for mode in (0, 1):
        for e in list(range(-20, 23)) + [23, 24, 31, 52, 60, 100, 1023]:
            out.append({'name': 'e%d-m%d' % (e, mode), 'k': 'exp', 'e': e, 'mode': mode, 'weight': 30 if e > 5 else 5})
        out.append({'name': 'neg-m%d' % mode, 'k': 'neg', 'mode': mode})
        out.append({'name': 'tiny-m%d' % mode, 'k': 'tiny', 'mode': mode, 'weight': 40})
        for i, rng in enumerate(((-(1 << 40), 0), (0, 65535), (65536, 2957003), (2957004, 1 << 40))):
            out.append({'name': 'int%d-m%d' % (i, mode), 'k': 'int', 'mode': mode, 'rng': rng, 'weight': 50})
    out.append({'name': 'mode', 'k': 'mode'})
    return out


def judge(sx, X, x, q, frac, k, mode, dm=None):
    """x is the number q + frac / 2**k, 0 <= frac < 2**k."""
    st, r = sx.attempt(X.xldate.xldate_as_tuple, x, mode if dm is None else dm)
    one = 1 << k
    n = frac * 86400
    half = one // 2
    slack = 0 if k <= 43 else 1 << (k - 36)
    lim = half + slack
    carry_ok = n + lim >= 86400 * one
    stay_ok = n - lim <= 86399 * one
    if st == 'exc':
        nm = type(r).__name__
        sx.check(isinstance(r, X.xldate.XLDateError), 'refused with a documented error')
        sx.reach(nm)
        if nm == 'XLDateNegative':
            sx.check(q < 0, 'only negative numbers are refused as negative')
        elif nm == 'XLDateAmbiguous':
            sx.check(mode == 0, 'only the 1900 system is ambiguous')
            sx.check(sx.Or(sx.And(q >= 1, q <= 59), sx.And(q == 60, stay_ok), sx.And(q == 0, carry_ok)),
                     'only days 1 to 60 are refused as ambiguous')
        elif nm == 'XLDateTooLarge':
            sx.check(sx.Or(q >= cal.LIMIT[mode], sx.And(q == cal.LIMIT[mode] - 1, carry_ok)),
                     'only year 10000 and later is refused as too large')
        else:
            sx.check(False, 'a number is refused for the right reason')
        return
    sx.check(q >= 0, 'negative numbers are refused')
    sx.check(len(r) == 6, 'six items')
    y, m, d, hh, mm, ss = r
    sx.check(sx.And(hh >= 0, hh < 24, mm >= 0, mm < 60, ss >= 0, ss < 60), 'a time of day')
    s = hh * 3600 + mm * 60 + ss
    diff = n - s * one
    # the rounded time of day of q, or midnight of the next day
    same = sx.And(diff <= lim, -diff <= lim)
    nxt = sx.And(s == 0, carry_ok)
    if sx.And(y == 0, m == 0, d == 0):
        sx.reach('time')
        sx.check(sx.And(q == 0, same), 'a bare time to the nearest second')
    else:
        sx.reach('date')
        sx.check(y >= 1, 'a date of the Gregorian calendar (year)')
        sx.check(y <= 9999, 'a date of the Gregorian calendar (year)')
        sx.check(sx.And(m >= 1, m <= 12), 'a date of the Gregorian calendar (month)')
        sx.check(sx.And(d >= 1, d <= cal.month_len(sx, y, m)), 'a date of the Gregorian calendar (day)')
        if sx.fork(carry_ok):
            # (nearly) midnight
            day = q + sx.ite(s == 0, 1, 0)
        else:
            day = q
        sx.check(cal.serial(sx, y, m, d, mode) == day, 'the Gregorian date of the day')
        sx.check(day >= (61 if mode == 0 else 1), 'ambiguous days are refused')
        sx.check(sx.Or(same, nxt), 'the time of day to the nearest second')
    sx.observe('r', r)


def harness(sx, X, case):
    k = case['k']
    mode = case.get('mode')
    if k == 'exp':
        e = case['e']
        if 0 <= e < 52:
            k = 52 - e
            q, f = sx.int('day', 1 << e, (1 << (e + 1)) - 1), sx.int('frac', 0, (1 << k) - 1)
            judge(sx, X, sx.fixed(sx.join(q, f, k), k), q, f, k, mode)
        else:
            num = sx.int('x', 1 << 52, (1 << 53) - 1)
            x = sx.fixed(num, 52 - e)
            if e < 0:
                judge(sx, X, x, 0, num, 52 - e, mode)
            else:
                judge(sx, X, x, num << (e - 52), 0, 0, mode)
    elif k == 'int':
        num = sx.int('x', *case['rng'])
        judge(sx, X, num, num, 0, 0, mode)
    elif k == 'neg':
        x = sx.double('x')
        sx.assume(x < 0.0)
        sx.assume(x > -1e308 * 10)
        st, r = sx.attempt(X.xldate.xldate_as_tuple, x, mode)
        sx.check(st == 'exc' and isinstance(r, X.xldate.XLDateNegative), 'negative numbers are refused')
        sx.reach('XLDateNegative')
    elif k == 'tiny':
        x = sx.double('x')
        sx.assume(x >= 0.0)
        sx.assume(x < 2.0 ** -20)
        st, r = sx.attempt(X.xldate.xldate_as_tuple, x, mode)
        sx.check_same((st, r), ('ok', (0, 0, 0, 0, 0, 0)), 'midnight')
    else:
        dm = sx.int('mode', -3, 9)
        num = sx.int('x', 0, 70000)
        if sx.Or(dm == 0, dm == 1):
            judge(sx, X, num, num, 0, 0, sx.fork(dm), dm)
        else:
            st, r = sx.attempt(X.xldate.xldate_as_tuple, num, dm)
            sx.check(st == 'exc' and isinstance(r, X.xldate.XLDateBadDatemode), 'unknown date systems are refused')
            sx.reach('XLDateBadDatemode')
