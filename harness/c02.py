"""C02: encoding dates and times."""
from . import cal

PROP = 'C02'
BOUNDS = ['every (year, month, day) with year in -3..10003, month in -2..15, day in -2..35, both date systems; '
          'every date system in -3..9',
          'every (hour, minute, second) with hour in -2..26, minute and second in -2..62',
          'datetime tuples: every day of 7 months at 3 (thorough: 5) times of day; every time of '
          'day in 2 (thorough: all 24) hours on 2 (thorough: 4) dates']
ASSUMES = ['Tuple items are integers.']
REACH = ['date', 'bad', 'ambiguous', 'time', 'badtime', 'datetime', 'inverse']
OPTS = {'query_ms': 500, 'lia': 60}


def cases(tier):
    out = []
    for mode in (0, 1):
        for lo, hi in ((-3, 1899), (1900, 1904), (1905, 2400), (2401, 9999), (10000, 10003)):
            out.append({'name': 'date-m%d-%d' % (mode, lo), 'k': 'date', 'mode': mode, 'lo': lo, 'hi': hi, 'weight': 9})
    out.append({'name': 'mode', 'k': 'mode'})
    for h in range(24):
        for mlo, mhi in ((0, 59),) if h else ((0, 0), (1, 3), (4, 7), (8, 15), (16, 31), (32, 59)):
            out.append({'name': 'time-%d-%d' % (h, mlo), 'k': 'time', 'h': h, 'm': (mlo, mhi), 'weight': 99,
                        'opts': {'lia': 5} if h == 0 else {}})
    th = tier != 'quick'
    for mode in (0, 1):
        for h, m, s in ((0, 0, 1), (6, 6, 6), (11, 59, 59), (23, 59, 59), (18, 0, 1)):
            for y, mo in ((1904, 2), (1944, 11), (1989, 9), (2024, 2), (2079, 6), (4770, 12), (9999, 12)):
                if th or h in (0, 11, 23):
                    out.append({'name': 'dt-m%d-%d%02d%02d-%d' % (mode, h, m, s, y), 'k': 'dt', 'mode': mode,
                                'ym': (y, mo), 'hms': (h, m, s), 'weight': 30})
        for lo, hi in ((1, 60), (61, 5000), (5001, 1500000), (1500001, cal.LIMIT[mode] - 1)):
            if mode or lo > 1:
                out.append({'name': 'inv-m%d-%d' % (mode, lo), 'k': 'inv', 'mode': mode, 'q': (lo, hi), 'weight': 70})
        for ymd in ((1904, 1, 2), (1999, 12, 31), (2000, 2, 29), (9999, 12, 31)):
            for h in range(24):
                if th or (h in (12, 23) and ymd[0] in (1904, 9999)):
                    out.append({'name': 'dt-m%d-%d%02d%02d-h%d' % ((mode,) + ymd + (h,)), 'k': 'dt', 'mode': mode,
                                'ymd': ymd, 'h': h, 'weight': 60, 'opts': {'lia': 12} if h == 0 else {}})
    out.append({'name': 'badtime', 'k': 'badtime'})
    return out


def harness(sx, X, case):
    k = case['k']
    D = X.xldate
    if k in ('date', 'mode'):
        if k == 'date':
            mode = dm = case['mode']
            y, m, d = sx.int('y', case['lo'], case['hi']), sx.int('m', -2, 15), sx.int('d', -2, 35)
        else:
            y, m, d = 1999, sx.int('m', 1, 12), 7
            dm = sx.int('mode', -3, 9)
            if not sx.Or(dm == 0, dm == 1):
                st, r = sx.attempt(D.xldate_from_date_tuple, (y, m, d), dm)
                sx.check(st == 'exc' and isinstance(r, D.XLDateBadDatemode), 'unknown date systems are refused')
                return
            mode = sx.fork(dm)
        st, r = sx.attempt(D.xldate_from_date_tuple, (y, m, d), dm)
        if sx.And(y == 0, m == 0, d == 0):
            sx.check_same((st, r), ('ok', 0.0), 'the null date')
            return
        good = sx.And(y >= 1900, cal.valid(sx, y, m, d))
        if st == 'exc':
            nm = type(r).__name__
            if nm == 'XLDateAmbiguous':
                sx.reach('ambiguous')
                sx.check(sx.And(good, mode == 0, y == 1900, m <= 2), 'only January and February 1900 are ambiguous')
            else:
                sx.reach('bad')
                sx.check(nm == 'XLDateBadTuple', 'refused with the documented error')
                if good:
                    sx.check(sx.And(mode == 1, cal.serial(sx, y, m, d, 1) <= 0), 'valid dates are encoded')
            return
        sx.reach('date')
        sx.check(good, 'invalid dates are refused')
        n = cal.serial(sx, y, m, d, mode)
        sx.check(n >= (1 if mode else 61), 'dates before the usable range are refused')
        sx.check(r == n, 'the serial number of the date')
        sx.check(isinstance(r, float), 'a float')
        sx.observe('r', r)
    elif k == 'inv':
        # dates and usable serial numbers correspond one to one: every serial number
        # decodes to a valid date which encodes to that serial number again
        mode = case['mode']
        q = sx.int('q', *case['q'])
        st, t = sx.attempt(D.xldate_as_tuple, float(q), mode)
        sx.check(st == 'ok', 'serial numbers in range decode')
        y, m, d = t[:3]
        sx.check(y >= 1900, 'a valid year')
        sx.check(y <= 9999, 'a valid year')
        sx.check(sx.And(m >= 1, m <= 12), 'a valid month')
        sx.check(sx.And(d >= 1, d <= cal.month_len(sx, y, m)), 'a valid day')
        st, r = sx.attempt(D.xldate_from_date_tuple, (y, m, d), mode)
        sx.check(st == 'ok', 'valid dates are encoded')
        sx.check(r == q, 'decoding the encoded date gives that date')
        sx.reach('inverse')
        sx.observe('r', r)
    elif k == 'badtime':
        h, m, s = sx.int('h', -2, 26), sx.int('m', -2, 62), sx.int('s', -2, 62)
        sx.assume(sx.Or(h < 0, h >= 24, m < 0, m >= 60, s < 0, s >= 60))
        st, r = sx.attempt(D.xldate_from_time_tuple, (h, m, s))
        sx.check(st == 'exc' and isinstance(r, D.XLDateBadTuple), 'invalid times are refused')
        sx.reach('badtime')
    elif k == 'time':
        h, m, s = case['h'], sx.int('m', *case['m']), sx.int('s', 0, 59)
        st, r = sx.attempt(D.xldate_from_time_tuple, (h, m, s))
        sx.check(st == 'ok', 'valid times are encoded')
        sx.check(sx.And(r >= 0, r < 1), 'a fraction of a day')
        st, t = sx.attempt(D.xldate_as_tuple, r, 0)
        sx.reach('time')
        sx.check(st == 'ok', 'the encoded time can be decoded')
        sx.check(sx.And(t[0] == 0, t[1] == 0, t[2] == 0), 'a bare time')
        # three digits in range are determined by their sum
        sx.check(sx.And(t[3] >= 0, t[4] >= 0, t[4] < 60, t[5] >= 0, t[5] < 60), 'a time of day')
        sx.check((t[3] * 60 + t[4]) * 60 + t[5] == (h * 60 + m) * 60 + s, 'decoding gives the time of day back')
        sx.observe('r', r)
    else:
        mode = case['mode']
        if 'ymd' in case:
            y, m, d = case['ymd']
            hh, mm, ss = case['h'], sx.int('m', 0, 59), sx.int('s', 0, 59)
        else:
            y, m = case['ym']
            d = sx.int('d', 1, sx.fork(cal.month_len(sx, y, m)))
            hh, mm, ss = case['hms']
            sx.assume(cal.valid(sx, y, m, d))
            sx.assume(cal.serial(sx, y, m, d, mode) >= (61 if mode == 0 else 1))
        st, r = sx.attempt(D.xldate_from_datetime_tuple, (y, m, d, hh, mm, ss), mode)
        sx.check(st == 'ok', 'valid instants are encoded')
        st, t = sx.attempt(D.xldate_as_tuple, r, mode)
        sx.check(st == 'ok', 'the encoded instant can be decoded')
        sx.reach('datetime')
        sx.check(t[0] == y, 'decoding gives the year back')
        sx.check(t[1] == m, 'decoding gives the month back')
        sx.check(t[2] == d, 'decoding gives the day back')
        sx.check(sx.And(t[3] >= 0, t[4] >= 0, t[4] < 60, t[5] >= 0, t[5] < 60), 'a time of day')
        sx.check((t[3] * 60 + t[4]) * 60 + t[5] == (hh * 60 + mm) * 60 + ss, 'decoding gives the time of day back')
        sx.observe('r', r)
