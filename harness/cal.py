"""The proleptic Gregorian calendar, from its definition."""
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
# serial number 0 of each date system is the day before 1 January 1900 (with the
# fictitious 29 February 1900 counted) and 1 January 1904 itself
EPOCH_1900 = 693594         # ordinal of 30 December 1899: right from 1 March 1900 on
EPOCH_1904 = 695056         # ordinal of 1 January 1904
LIMIT = (2958466, 2957004)  # serial number of 1 January 10000


def leap(sx, y):
    return sx.And(y % 4 == 0, sx.Or(y % 100 != 0, y % 400 == 0))


def month_len(sx, y, m):
    n = 31
    for i in (4, 6, 9, 11):
        n = sx.ite(m == i, 30, n)
    return sx.ite(m == 2, 28 + sx.ite(leap(sx, y), 1, 0), n)


def ordinal(sx, y, m, d):
    """1 January of year 1 is day 1."""
    lp = sx.ite(leap(sx, y), 1, 0)
    n = 0
    for i in range(2, 13):
        n = sx.ite(m == i, CUM[i - 1] + (lp if i > 2 else 0), n)
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400 + n + d


def valid(sx, y, m, d):
    return sx.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= month_len(sx, y, m))


def serial(sx, y, m, d, mode):
    return ordinal(sx, y, m, d) - (EPOCH_1904 if mode else EPOCH_1900)
