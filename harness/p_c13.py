"""C13 calendar dates."""
import datetime as dt
import numpy as np
import erfa
from celest import units as u
from celest.coordinates.astronomical_quantities import day_of_year, from_julian
from celest.time import Time
from celest.units.quantity import Quantity
import gen
import ref

PROPERTY = "C13"
RULE = ("Julian dates from 4713 BC to AD 9999, many at midnight, at month, year and century "
        "ends and around 1582, as scalars and arrays; distinct by dates")
ASSUMPTIONS = ["the civil calendar is Julian until 4 October 1582 and Gregorian from "
               "15 October 1582, with astronomical year numbers",
               "Julian dates are doubles: instants within 100 microseconds"]
REQUIRED = ["dates", "julian_calendar", "gregorian_calendar", "leap_days", "century_years",
            "datetimes", "days_of_year", "scalars"]

REFORM = 2299160.5


def civil(jd):
    """(y, m, d) of the civil day of each date, by counting days or by erfa."""
    day = np.floor(jd + 0.5)
    out = np.empty((len(jd), 3), int)
    g = day - 0.5 >= REFORM
    if np.any(g):
        y, m, d, f = erfa.jd2cal(day[g] - 0.5, np.zeros(int(g.sum())))
        out[g] = np.column_stack([y, m, d])
    for i in np.flatnonzero(~g):
        out[i] = ref.julian_calendar(day[i])
    return out, g


def dates(rng, n, lo=0.0, hi=5373484.0):
    mode = rng.integers(0, 9)
    if mode == 0:
        jd = rng.uniform(lo, hi, n)
    elif mode == 1:                                    # midnights and just before and after
        jd = np.floor(rng.uniform(max(lo, 2000000), min(hi, 2500000), n)) + .5
        jd = jd + rng.choice([0, 1e-8, -1e-8, .5, 1e-9 * 3, .25], n)
        for _ in range(int(rng.integers(0, 4))):       # as near as numbers can be
            some = rng.random(n) < .3
            jd[some] = np.nextafter(jd[some], rng.choice([0, 1e9], int(some.sum())))
    elif mode == 2:                                    # ends of years, century years
        y = rng.choice([4, 100, 400, 1, 2], n) * rng.integers(1, 25, n)
        y = np.clip(1500 + y, 1583, 9998)
        d1, d2 = erfa.cal2jd(y.astype(int), np.ones(n, int), np.ones(n, int))
        jd = d1 + d2 + rng.integers(-2, 3, n) + rng.choice([0, .3, .99999], n)
    elif mode == 3:                                    # around the end of February
        y = np.where(rng.random(n) < .6, rng.integers(16, 99, n) * 100,
                     rng.integers(1583, 9999, n))
        d1, d2 = erfa.cal2jd(y.astype(int), np.full(n, 2), np.full(n, 28))
        jd = d1 + d2 + rng.integers(0, 3, n) + rng.choice([0, .5, .75, .9999999], n)
    elif mode == 4:                                    # around the reform
        jd = REFORM + rng.integers(-400, 400, n) + rng.choice([0, .2, .5, .999], n)
    elif mode == 5:                                    # months' ends
        y, m = rng.integers(1583, 2400, n), rng.integers(1, 13, n)
        d1, d2 = erfa.cal2jd(y.astype(int), m.astype(int), np.ones(n, int))
        jd = d1 + d2 + rng.integers(-1, 2, n) + rng.uniform(0, 1, n)
    elif mode == 6:
        jd = rng.uniform(2451545, 2470000, n)
    elif mode == 7:                                    # consecutive days
        jd = np.floor(rng.uniform(max(lo, 1), hi - 6000)) + .5 + np.arange(n)
    else:                                              # Julian-calendar leap days
        jd = 1721057.5 + 1461 * rng.integers(0, 395, n) + 58 + rng.integers(0, 4, n) + \
            rng.choice([0, .7], n)
    if rng.random() < .15:                             # the last instant of each day
        jd = np.nextafter(np.floor(jd + .5) + .5, 0)
    jd = np.clip(jd, lo, hi)
    return jd


def calendar(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 5, 40, 200, 300, 1100], p=[.2, .2, .2, .2, .1, .05, .05]))
    jd = dates(rng, n)
    want, g = civil(jd)
    c.note(jd=jd)
    c.sig(jd[0], jd[-1], n)
    c.event("dates", n)
    c.event("julian_calendar", int((~g).sum()))
    c.event("gregorian_calendar", int(g.sum()))
    c.event("leap_days", int(np.sum((want[:, 1] == 2) & (want[:, 2] == 29))))
    c.event("century_years", int(np.sum(want[:, 0] % 100 == 0)))
    for m in np.unique(want[:, 1]):
        c.state("month", int(m))
    given = gen.layout(rng, jd)
    y, m, d = from_julian(Quantity(given, u.jd2000))
    c.check(np.array_equal(given, jd), "input_modified")
    frac = (jd + .5) % 1
    c.close(y, want[:, 0], 0, "year_wrong", jd=jd[0])
    c.close(m, want[:, 1], 0, "month_wrong", jd=jd[0])
    c.close(d, want[:, 2] + frac, 1e-9, "day_wrong", jd=jd[0])
    # as a scalar
    i = int(rng.integers(0, n))
    c.event("scalars")
    one = float(jd[i])
    y1, m1, d1 = from_julian(Quantity(one, u.jd2000))
    c.close([np.ravel(y1)[0], np.ravel(m1)[0], np.ravel(d1)[0]],
            [want[i, 0], want[i, 1], want[i, 2] + frac[i]], 1e-9, "scalar_date_wrong", jd=one)
    # of every type a caller may have, as an element of an array
    kinds = [np.float64, np.longdouble, np.array]
    if one.is_integer():
        kinds += [int, np.int64, np.int32, np.uint32, np.uint64] * (one >= 0)
    kind = kinds[int(rng.integers(0, len(kinds)))]
    other = kind(one)
    c.state("scalar", type(other).__name__)
    y1, m1, d1 = from_julian(Quantity(other, u.jd2000))
    c.close([np.ravel(y1)[0], np.ravel(m1)[0], np.ravel(d1)[0]],
            [want[i, 0], want[i, 1], want[i, 2] + frac[i]], 1e-9, "scalar_date_wrong",
            jd=one, kind=type(other).__name__)
    c.close(np.ravel(day_of_year(Quantity(other, u.jd2000)))[0],
            np.ravel(day_of_year(Quantity(one, u.jd2000)))[0], 0, "scalar_day_wrong", jd=one,
            kind=type(other).__name__)


LENGTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def ordinal(jd, want, g):
    """Day number within the year: days since 1 January, plus one."""
    out = []
    for x, (y, m, d), new in zip(jd, want, g):
        leap = y % 4 == 0 and (not new or y % 100 != 0 or y % 400 == 0)
        out.append(sum(LENGTHS[:m - 1]) + d + (1 if leap and m > 2 else 0))
    return np.array(out)


def day_numbers(c):
    rng = c.rng
    n = int(rng.choice([1, 3, 30, 100, 300, 1100], p=[.3, .3, .2, .1, .07, .03]))
    jd = dates(rng, n)
    want, g = civil(jd)
    ok = want[:, 0] != 1582                        # the year without ten of its days
    jd, want, g = jd[ok], want[ok], g[ok]
    if not len(jd):
        return
    c.note(jd=jd)
    c.sig("day", jd[0], n)
    got = day_of_year(Quantity(gen.layout(rng, jd), u.jd2000))
    c.event("days_of_year", len(jd))
    c.close(got, ordinal(jd, want, g), 0, "day_of_year_wrong", jd=jd[0], date=want[0])
    one = day_of_year(Quantity(float(jd[0]), u.jd2000))
    c.close(np.ravel(one)[0], ordinal(jd[:1], want[:1], g[:1])[0], 0, "scalar_day_wrong")
    # consecutive days: numbers run on, and start again at one on 1 January
    y = int(rng.integers(1583, 3000))
    a, b = erfa.cal2jd(y, 1, 1)
    nxt, b2 = erfa.cal2jd(y + 1, 1, 1)
    days = np.arange(int(nxt + b2 - a - b)) + a + b + float(rng.choice([0, .5, .999]))
    c.close(day_of_year(Quantity(days, u.jd2000)), np.arange(1, len(days) + 1), 0,
            "year_not_counted_through", year=y)


def datetimes(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 20, 100, 300, 1100], p=[.3, .3, .2, .1, .07, .03]))
    jd = dates(rng, n, lo=2299161.0, hi=5373483.0)
    offset = float(rng.choice([0, 0, 0, 2400000.5, 2430000, .5, -1.25]))
    given = jd - offset
    jd = given + offset
    t = Time(given, offset) if offset else Time(given)
    c.note(jd=jd, offset=offset)
    c.sig("datetime", jd[0], n, offset)
    got = t.datetime()
    c.require(len(got) == n, "length")
    want, _ = civil(jd)
    for x, w, j in zip(got, want, jd):
        c.event("datetimes")
        c.require(isinstance(x, dt.datetime), "not_a_datetime", got=repr(x))
        f = (j + .5) % 1
        e = dt.datetime(*map(int, w)) + dt.timedelta(days=float(f))
        c.check(abs((x - e).total_seconds()) <= 1e-4, "datetime_wrong", jd=j, got=str(x),
                want=str(e))
    # and back again
    back = np.array([x.toordinal() + 1721424.5 + (x - dt.datetime(x.year, x.month, x.day))
                     .total_seconds() / 86400 for x in got])
    c.close(back, jd, 2e-9, "not_inverse")
    # instants in order have datetimes in order
    o = np.argsort(jd, kind="stable")
    s = [got[i] for i in o]
    c.check(all(p <= q + dt.timedelta(microseconds=1) for p, q in zip(s, s[1:])),
            "order_lost")


def whole(c):
    """Noons, as whole numbers of any type."""
    rng = c.rng
    n = int(rng.choice([1, 2, 5, 40, 200]))
    jd = np.floor(dates(rng, n, 1721426.0))
    if rng.random() < .2:
        jd = np.floor(rng.uniform(0, [255, 30000, 60000][int(rng.integers(0, 3))], n))
    given = gen.integers(rng, jd)
    want, g = civil(jd)
    c.note(jd=jd, kind=str(given.dtype))
    c.sig("whole", jd[0], n, str(given.dtype))
    c.state("kind", str(given.dtype))
    c.event("whole_numbers", n)
    y, m, d = from_julian(Quantity(given, u.jd2000))
    c.close(y, want[:, 0], 0, "year_wrong", jd=jd[0])
    c.close(m, want[:, 1], 0, "month_wrong", jd=jd[0])
    c.close(d, want[:, 2] + .5, 1e-9, "day_wrong", jd=jd[0])
    c.close(day_of_year(Quantity(given, u.jd2000)), day_of_year(Quantity(jd, u.jd2000)), 0,
            "day_of_year_wrong", jd=jd[0])
    if np.all(g) and want[:, 0].max() < 9999:
        c.check(list(Time(given).datetime()) == list(Time(jd).datetime()), "datetime_wrong")
    c.check(np.array_equal(given, jd), "input_modified")
    y, m, d = from_julian(Quantity(given[0], u.jd2000))
    c.close([np.ravel(y)[0], np.ravel(m)[0], np.ravel(d)[0]],
            [want[0, 0], want[0, 1], want[0, 2] + .5], 1e-9, "scalar_date_wrong", jd=jd[0])


QUICK = 10            # times as many in the quick tier
SCENARIOS = [("calendar", calendar, 600, 25000), ("day_numbers", day_numbers, 300, 8000),
             ("datetimes", datetimes, 300, 8000), ("whole", whole, 40, 1500)]
