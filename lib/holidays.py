"""Independent holiday oracles: for every market the set of holidays of a year is generated from the market's rules
(observed days, n-th weekdays, Easter offsets, one-off closings)."""
import datetime
import math
from fractions import Fraction

DT = datetime.date
ONE = datetime.timedelta(1)
MON, TUE, WED, THU, FRI, SAT, SUN = range(7)


def gregorian_easter(y):
    """Meeus/Jones/Butcher"""
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    n = h + l - 7 * m + 114
    return DT(y, n // 31, n % 31 + 1)


def orthodox_easter(y):
    """Meeus, Julian calendar, converted to the Gregorian calendar"""
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    n = d + e + 114
    jm, jd = n // 31, n % 31 + 1
    # Julian day number of a Julian date
    aa = (14 - jm) // 12
    yy, mm = y + 4800 - aa, jm + 12 * aa - 3
    jdn = jd + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083
    return DT.fromordinal(jdn - 1721425)


def nth(y, m, n, wd):
    d = DT(y, m, 1)
    return d + datetime.timedelta((wd - d.weekday()) % 7 + 7 * (n - 1))


def last(y, m, wd):
    d = DT(y + m // 12, m % 12 + 1, 1) - ONE
    return d - datetime.timedelta((d.weekday() - wd) % 7)


def plus(d, n):
    return d + datetime.timedelta(n)


def sun_mon(d):
    """the day itself, and the Monday after a Sunday"""
    return {d, plus(d, 1)} if d.weekday() == SUN else {d}


def both(d):
    """the day itself, the Monday after a Sunday, the Friday before a Saturday"""
    return sun_mon(d) | ({plus(d, -1)} if d.weekday() == SAT else set())


def washington(y):
    return {nth(y, 2, 3, MON)} if y >= 1971 else both(DT(y, 2, 22))


def memorial(y):
    return {last(y, 5, MON)} if y >= 1971 else both(DT(y, 5, 30))


def juneteenth(y):
    return both(DT(y, 6, 19)) if y >= 2022 else set()


def labor(y):
    return {nth(y, 9, 1, MON)}


def columbus(y):
    return {nth(y, 10, 2, MON)} if y >= 1971 else set()


def veterans(y, f):
    return {nth(y, 10, 4, MON)} if 1971 <= y <= 1977 else f(DT(y, 11, 11))


def thanksgiving(y):
    return {nth(y, 11, 4, THU)}


def mlk(y, since):
    return {nth(y, 1, 3, MON)} if y >= since else set()


def newyear_us(y):
    return sun_mon(DT(y, 1, 1))


def good_friday(y):
    return {plus(gregorian_easter(y), -2)}


def us_settlement(y):
    h = newyear_us(y) | mlk(y, 1983) | washington(y) | memorial(y) | juneteenth(y) | both(DT(y, 7, 4)) | labor(y) | columbus(y)
    h |= veterans(y, both) | thanksgiving(y) | both(DT(y, 12, 25))
    if DT(y + 1, 1, 1).weekday() == SAT:
        h.add(DT(y, 12, 31))
    return h


def us_libor(y):
    h = us_settlement(y)
    if y >= 2015:
        h -= {DT(y, 7, 3), DT(y, 7, 5)}
    return h


def us_nyse(y):
    h = newyear_us(y) | washington(y) | good_friday(y) | memorial(y) | juneteenth(y) | both(DT(y, 7, 4)) | labor(y)
    h |= thanksgiving(y) | both(DT(y, 12, 25)) | mlk(y, 1998)
    if y <= 1968 or (y <= 1980 and y % 4 == 0):
        h.add(nth(y, 11, 1, TUE))
    for yy, m, d in ((2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12),
                     (2001, 9, 13), (2001, 9, 14), (1994, 4, 27), (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28),
                     (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5), (1968, 4, 9), (1963, 11, 25), (1961, 5, 29),
                     (1958, 12, 26), (1954, 12, 24), (1956, 12, 24), (1965, 12, 24)):
        if yy == y:
            h.add(DT(yy, m, d))
    if y == 1968:
        d = DT(1968, 6, 12)
        while d.year == 1968:
            h.add(d)
            d = plus(d, 7)
    return h


def us_bond(y):
    h = newyear_us(y) | mlk(y, 1983) | washington(y) | memorial(y) | juneteenth(y) | both(DT(y, 7, 4)) | labor(y) | columbus(y)
    h |= veterans(y, sun_mon) | thanksgiving(y) | both(DT(y, 12, 25))
    if y != 2015:
        h |= good_friday(y)
    return h | {d for d in (DT(2018, 12, 5), DT(2012, 10, 30), DT(2004, 6, 11)) if d.year == y}


def us_nerc(y):
    return newyear_us(y) | memorial(y) | sun_mon(DT(y, 7, 4)) | labor(y) | thanksgiving(y) | sun_mon(DT(y, 12, 25))


def us_fed(y):
    return (newyear_us(y) | mlk(y, 1983) | washington(y) | memorial(y) | juneteenth(y) | sun_mon(DT(y, 7, 4)) | labor(y)
            | columbus(y) | veterans(y, sun_mon) | thanksgiving(y) | sun_mon(DT(y, 12, 25)))


def uk(y):
    e = gregorian_easter(y)
    h = {plus(e, -2), plus(e, 1)}
    n = DT(y, 1, 1)
    h.add(n)
    if n.weekday() in (SAT, SUN):
        h.add(plus(n, 7 - n.weekday()))
    h.add(DT(y, 5, 8) if y in (1995, 2020) else nth(y, 5, 1, MON))
    h |= {2002: {DT(2002, 6, 3), DT(2002, 6, 4)}, 2012: {DT(2012, 6, 4), DT(2012, 6, 5)},
          2022: {DT(2022, 6, 2), DT(2022, 6, 3)}}.get(y) or {last(y, 5, MON)}
    h.add(last(y, 8, MON))
    c = DT(y, 12, 25)
    h |= {c, plus(c, 1)}
    if c.weekday() == FRI:        # Boxing Day on a Saturday
        h.add(DT(y, 12, 28))
    elif c.weekday() == SAT:
        h |= {DT(y, 12, 27), DT(y, 12, 28)}
    elif c.weekday() == SUN:
        h.add(DT(y, 12, 27))
    return h | {d for d in (DT(2011, 4, 29), DT(2022, 9, 19), DT(2023, 5, 8), DT(1999, 12, 31)) if d.year == y}


def fixed(y, *md):
    return {DT(y, m, d) for m, d in md}


def brazil(y):
    e = gregorian_easter(y)
    h = fixed(y, (1, 1), (4, 21), (5, 1), (9, 7), (10, 12), (11, 2), (11, 15), (12, 25))
    return h | {plus(e, -2), plus(e, -47), plus(e, -48), plus(e, 60)}


def brazil_exchange(y):
    h = brazil(y) | fixed(y, (1, 25), (7, 9), (12, 24))
    if y >= 2007:
        h.add(DT(y, 11, 20))
    # the last business day of the year
    d = DT(y, 12, 31)
    h.add(d)
    while d.weekday() in (SAT, SUN):
        d = plus(d, -1)
    h.add(d)
    return h


def italy(y):
    h = fixed(y, (1, 1), (1, 6), (4, 25), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)) | {plus(gregorian_easter(y), 1)}
    if y >= 2000:
        h.add(DT(y, 6, 2))
    if y == 1999:
        h.add(DT(y, 12, 31))
    return h


def italy_exchange(y):
    e = gregorian_easter(y)
    return fixed(y, (1, 1), (5, 1), (8, 15), (12, 24), (12, 25), (12, 26), (12, 31)) | {plus(e, -2), plus(e, 1)}


def switzerland(y):
    e = gregorian_easter(y)
    return fixed(y, (1, 1), (1, 2), (5, 1), (8, 1), (12, 25), (12, 26)) | {plus(e, -2), plus(e, 1), plus(e, 39), plus(e, 50)}


def target(y):
    e = gregorian_easter(y)
    h = fixed(y, (1, 1), (12, 25))
    if y >= 2000:
        h |= fixed(y, (5, 1), (12, 26)) | {plus(e, -2), plus(e, 1)}
    if y in (1998, 1999, 2001):
        h.add(DT(y, 12, 31))
    return h


def equinox(y, base):
    n = y - 2000

    def t(a, b):
        return -((-a) // b) if a < 0 else a // b
    x = Fraction(base) + n * Fraction("0.242194") - (t(n, 4) + t(n, 100) - t(n, 400))
    return math.floor(x)


def japan(y):
    h = fixed(y, (1, 1), (1, 2), (1, 3), (5, 3), (5, 4), (5, 5), (12, 31))
    h |= {nth(y, 1, 2, MON)} if y >= 2000 else sun_mon(DT(y, 1, 15))
    for m, d in ((2, 11), (4, 29), (11, 3), (11, 23)):
        h |= sun_mon(DT(y, m, d))
    if y >= 2020:
        h |= sun_mon(DT(y, 2, 23))
    if 1989 <= y <= 2018:
        h |= sun_mon(DT(y, 12, 23))
    h |= sun_mon(DT(y, 3, equinox(y, "20.69115")))
    ae = equinox(y, "23.09")
    h |= sun_mon(DT(y, 9, ae))
    # Golden Week: May 6th replaces one of the days before falling on a Sunday (or, here, a Saturday for the second/third)
    if any(DT(y, 5, d).weekday() == SUN for d in (3, 4, 5)):
        h.add(DT(y, 5, 6))
    games = y in (2020, 2021)
    if y >= 2003 and not games:
        h.add(nth(y, 7, 3, MON))
    if 1996 <= y < 2003:
        h |= sun_mon(DT(y, 7, 20))
    if y == 2020:
        h |= fixed(y, (7, 23), (8, 10), (7, 24))
    if y == 2021:
        h |= fixed(y, (7, 22), (8, 9), (7, 23))
    if y >= 2016 and not games:
        h |= sun_mon(DT(y, 8, 11))
    if y >= 2003:
        r = nth(y, 9, 3, MON)
        h.add(r)
        if DT(y, 9, ae) - r == datetime.timedelta(2):
            h.add(plus(r, 1))
    else:
        h |= sun_mon(DT(y, 9, 15))
    if y >= 2000 and not games:
        h.add(nth(y, 10, 2, MON))
    if y < 2000:
        h |= sun_mon(DT(y, 10, 10))
    for yy, m, d in ((1959, 4, 10), (1989, 2, 24), (1990, 11, 12), (1993, 6, 9), (2019, 4, 30), (2019, 5, 1), (2019, 5, 2), (2019, 10, 22)):
        if yy == y:
            h.add(DT(yy, m, d))
    return h


def none(y):
    return set()


_c = {}


def is_holiday(market, date):
    f, weekend = MARKETS[market]
    if weekend and date.weekday() >= SAT:
        return True
    k = (market, date.year)
    h = _c.get(k)
    if h is None:
        h = _c[k] = {d for d in f(date.year)}
    return date in h


# name of the constructor -> (rules, has the western weekend, display name)
MARKETS = {
    "us_settlement": (us_settlement, True), "us_libor": (us_libor, True), "us_nyse": (us_nyse, True), "us_bond": (us_bond, True),
    "us_nerc": (us_nerc, True), "us_fed": (us_fed, True), "uk": (uk, True), "brazil": (brazil, True),
    "brazil_exchange": (brazil_exchange, True), "italy": (italy, True), "italy_exchange": (italy_exchange, True),
    "switzerland": (switzerland, True), "target": (target, True), "japan": (japan, True), "weekends": (none, True), "null": (none, False),
}
