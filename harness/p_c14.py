"""C14 solar times and hour angles."""
import numpy as np
import erfa
from celest import units as u
from celest.time import Time
import gen
import ref

PROPERTY = "C14"
RULE = ("instants 1900-2100 (arrays, scalars, with offsets) and longitudes (scalars, one "
        "per instant) everywhere; distinct by (instants, longitudes)")
ASSUMPTIONS = ["UT1 = UTC; the true Sun is erfa's (epv00 with aberration, IAU 2006/2000A), "
               "which the equation of time meets within 6 seconds"]
REQUIRED = ["mean_times", "true_times", "hour_angles", "sun_compared", "offsets", "scalars",
            "longitude_arrays", "rejections_seen"]

HOUR = 1e-7            # hours; doubles of Julian dates carry 1e-8 hours


def sun_solar_time(jd):
    """Greenwich apparent solar time of erfa's true Sun, hours."""
    ra, _ = ref.sun_apparent(jd)
    a, b = ref.split(jd)
    gst = erfa.gst06a(a, b, a, b)
    return (np.degrees(gst - ra) / 15 + 12) % 24


def workload(c):
    rng = c.rng
    n = gen.size(rng, .05)
    jd = gen.julian(rng, n)
    offset = float(rng.choice([0, 0, 2400000.5, 2451545, -3.25, .5, rng.uniform(-1, 1),
                               rng.normal() * 10.0 ** rng.integers(-3, 6)]))
    given = jd - offset
    jd = given + offset
    shape = int(rng.integers(0, 4))
    if shape == 0:
        lon = float(rng.choice([0, 180, -180, 90, -90, 15, 7.5])) if rng.random() < .3 \
            else float(rng.uniform(-180, 180))
    elif shape == 1:
        lon = int(rng.integers(-180, 181))
    elif shape == 2:
        lon = rng.uniform(-180, 180, n)
        if rng.random() < .15:               # all but midnight, or noon, there
            lon = (-15 * (24 * (jd % 1) - rng.choice([0, 12], n)) + rng.choice([-1, 1], n) *
                   10 ** rng.uniform(-8, -1, n) + 180) % 360 - 180
        elif rng.random() < .15:             # counted eastward only, or wound around
            lon = lon * 3 if rng.random() < .5 else lon % 360
    else:
        lon = rng.integers(-180, 181, n)
        if rng.random() < .3:
            lon = gen.integers(rng, np.abs(lon) if rng.random() < .5 else lon)
    if n == 1 and rng.random() < .5:
        c.event("scalars")
        given = gen.scalar(rng, float(given[0]), plain=rng.random() < .7)
        if isinstance(given, np.float32):    # no date to compute with
            given = float(given)
    else:
        if rng.random() < .15:               # whole days, as integers
            given = gen.integers(rng, np.floor(given))
            jd = given + offset
        given = gen.layout(rng, given)
    if np.ndim(lon):
        c.event("longitude_arrays")
    if offset:
        c.event("offsets")
    keep = np.array(given, copy=True), np.array(lon, copy=True)
    t = Time(given, offset) if offset or rng.random() < .5 else Time(given)
    c.note(jd=jd, offset=offset, longitude=lon)
    c.close(t.julian.to(u.jd2000), jd, 1e-9, "instants_off", offset=offset)
    c.sig(jd[0], n, offset, np.ravel(lon)[0])

    def untouched():
        c.check(np.array_equal(np.array(given), keep[0]) and
                np.array_equal(np.array(lon), keep[1]), "input_modified")
    return jd, lon, t, untouched


def hours(c, q, n, kind):
    x = np.asarray(q.to(u.hourangle), float)
    c.require(x.shape == (n,), kind + "_shape", got=x.shape)
    c.check(bool(np.all((x >= 0) & (x <= 24))), kind + "_range", got=x)
    c.close(q.to(u.deg), x * 15, 1e-9, kind + "_unit", rtol=1e-12)
    return x


def times(c):
    jd, lon, t, untouched = workload(c)
    n = len(jd)
    rng = c.rng
    c.check(len(t) == n, "length")
    c.check(np.array_equal(t.julian.to(u.jd2000), jd), "julian_changed")
    calls = {"mean": lambda: t.mean_solar_time(lon), "true": lambda: t.true_solar_time(lon),
             "mean_angle": lambda: t.mean_hour_angle(lon),
             "true_angle": lambda: t.true_hour_angle(lon), "ut1": t.ut1}
    got = {}
    for k in rng.permutation(list(calls)):
        got[k] = hours(c, calls[k](), n, str(k))
    day = 24 * ((jd % 1) - .5)
    zero = np.zeros(n)
    mean = day + np.asarray(lon, float) / 15
    c.event("mean_times", n)
    c.close(ref.hours_apart(got["mean"], mean), zero, HOUR, "mean_solar_time_off")
    c.close(ref.hours_apart(got["ut1"], day), zero, HOUR, "ut1_off")
    c.event("hour_angles", 2 * n)
    c.close(ref.hours_apart(got["mean_angle"], got["mean"] - 12), zero, 1e-9,
            "mean_hour_angle_off")
    c.close(ref.hours_apart(got["true_angle"], got["true"] - 12), zero, 1e-9,
            "true_hour_angle_off")
    c.event("true_times", n)
    eot = ref.equation_of_time_deg(jd) / 15
    c.close(ref.hours_apart(got["true"], mean + eot), zero, 1e-6, "true_solar_time_off")
    c.state("equation_minutes", *np.unique(np.round(eot * 12).astype(int)).tolist()[:2])
    # the sky: the true Sun's hour angle
    some = rng.choice(n, min(n, 40), replace=False)
    c.event("sun_compared", len(some))
    want = sun_solar_time(jd[some]) + np.broadcast_to(lon, (n,))[some] / 15
    c.close(ref.hours_apart(got["true"][some], want) * 3600, np.zeros(len(some)), 6.0,
            "sun_elsewhere")
    # a day later
    later = Time(jd + 1).mean_solar_time(lon).to(u.hourangle)
    c.close(ref.hours_apart(later, got["mean"]), zero, HOUR, "day_later")
    # 15 degrees east, an hour later
    east = Time(jd).mean_solar_time(np.asarray(lon) + 15.0).to(u.hourangle)
    c.close(ref.hours_apart(east, got["mean"] + 1), zero, HOUR, "longitude_sense")
    # one alone
    i = int(rng.integers(0, n))
    one = float(jd[i]), (float(lon[i]) if np.ndim(lon) else lon)
    for k, q in (("mean", Time(one[0]).mean_solar_time(one[1])),
                 ("true", Time(one[0]).true_solar_time(one[1])),
                 ("true_angle", Time(one[0]).true_hour_angle(one[1]))):
        c.close(ref.hours_apart(np.ravel(q.to(u.hourangle))[0], got[k][i]), 0, 1e-9,
                "depends_on_batch", which=k)
    untouched()
    c.check(np.array_equal(t.julian.to(u.jd2000), jd), "time_modified")


def rejected(c):
    rng = c.rng
    jd = gen.julian(rng, 6)
    c.note(jd=jd)
    c.sig("rejected", jd[0])
    for bad in (jd.reshape(2, 3), jd.reshape(6, 1), jd.reshape(1, 6), jd.reshape(1, 2, 3)):
        c.raises(ValueError, lambda: Time(bad), "shape_allowed", shape=bad.shape)
    t = Time(list(jd))
    c.check(len(t) == 6 and np.array_equal(t.julian.to(u.jd2000), jd), "list_of_dates")


QUICK = 5            # times as many in the quick tier
SCENARIOS = [("times", times, 400, 15000), ("rejected", rejected, 5, 20)]
