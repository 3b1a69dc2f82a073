"""C15 sidereal times and the Earth rotation angle."""
import numpy as np
import erfa
from celest import units as u
from celest.coordinates.astronomical_quantities import earth_rotation_angle
from celest.time import Time
from celest.units.quantity import Quantity
import gen
import ref
from p_c14 import hours, workload

PROPERTY = "C15"
RULE = ("instants 1900-2100 (arrays, scalars, with offsets) and longitudes (scalars, one "
        "per instant) everywhere; distinct by (instants, longitudes)")
ASSUMPTIONS = ["UT1 = UTC = TT; erfa's IAU 2006/2000A sidereal times and Earth rotation "
               "angle are met within 0.4 seconds and 0.003 degrees"]
REQUIRED = ["sidereal_times", "erfa_compared", "offsets", "scalars", "longitude_arrays",
            "rotation_angles", "far_instants", "sidereal_midnights"]


def times(c):
    jd, lon, t, untouched = workload(c)
    n = len(jd)
    rng = c.rng
    calls = {"gmst": t.gmst, "gast": t.gast, "lmst": lambda: t.lmst(lon),
             "last": lambda: t.last(lon)}
    got = {}
    for k in rng.permutation(list(calls)):
        got[k] = hours(c, calls[k](), n, str(k))
    zero = np.zeros(n)
    c.event("sidereal_times", 4 * n)
    east = np.asarray(lon, float) / 15
    c.close(ref.hours_apart(got["gmst"], ref.gmst_hours(jd)), zero, 2e-7, "gmst_off")
    c.close(ref.hours_apart(got["gast"], ref.gast_hours(jd)), zero, 2e-7, "gast_off")
    c.close(ref.hours_apart(got["lmst"], got["gmst"] + east), zero, 1e-9, "lmst_off")
    c.close(ref.hours_apart(got["last"], got["gast"] + east), zero, 1e-9, "last_off")
    # the equation of the equinoxes stays small
    c.check(bool(np.all(ref.hours_apart(got["gast"], got["gmst"]) * 3600 < 1.2)),
            "apparent_far_from_mean")
    some = rng.choice(n, min(n, 60), replace=False)
    a, b = ref.split(jd[some])
    c.event("erfa_compared", len(some))
    z = np.zeros(len(some))
    c.close(ref.hours_apart(got["gmst"][some], np.degrees(erfa.gmst06(a, b, a, b)) / 15) *
            3600, z, .4, "gmst_far_from_erfa")
    c.close(ref.hours_apart(got["gast"][some], np.degrees(erfa.gst06a(a, b, a, b)) / 15) *
            3600, z, .4, "gast_far_from_erfa")
    # the difference of the two is known much better
    eoe = np.degrees(erfa.ee06a(a, b)) * 240
    d = (got["gast"][some] - got["gmst"][some] + 12) % 24 - 12
    c.close(d * 3600, eoe, .05, "equation_of_equinoxes_far_from_erfa")
    # a sidereal day later
    later = Time(jd + 1).gmst().to(u.hourangle)
    c.close(ref.hours_apart(later, got["gmst"] + 24.06570982441908), zero, 2e-7,
            "sidereal_rate")
    # one alone
    i = int(rng.integers(0, n))
    x = float(lon[i]) if np.ndim(lon) else lon
    one = Time(float(jd[i]))
    for k, q in (("gmst", one.gmst()), ("gast", one.gast()), ("lmst", one.lmst(x)),
                 ("last", one.last(x))):
        c.close(ref.hours_apart(np.ravel(q.to(u.hourangle))[0], got[k][i]), 0, 1e-9,
                "depends_on_batch", which=k)
    untouched()
    c.check(np.array_equal(t.julian.to(u.jd2000), jd), "time_modified")


def rotation(c):
    rng = c.rng
    n = gen.size(rng, .02)
    jd = gen.julian(rng, n)
    scalar = n == 1 and rng.random() < .6
    c.note(jd=jd)
    c.sig("era", jd[0], n)
    given = gen.layout(rng, jd)
    if rng.random() < .15:
        jd = np.floor(jd)
        given = gen.integers(rng, jd)
    q = Quantity(float(jd[0]) if scalar else given, u.jd2000)
    r = earth_rotation_angle(q)
    x = np.asarray(r.to(u.deg), float)
    c.event("rotation_angles", n)
    c.require(np.shape(x) == (() if scalar else (n,)), "era_shape", got=np.shape(x))
    c.check(bool(np.all((x >= 0) & (x <= 360))), "era_range", got=x)
    d = jd - 2451545.0
    c.close(ref.angle_apart(np.ravel(x), 360.9856123035484 * d + 280.46), np.zeros(n), 2e-6,
            "era_off")
    a, b = ref.split(jd)
    c.close(ref.angle_apart(np.ravel(x), np.degrees(erfa.era00(a, b))), np.zeros(n), .003,
            "era_far_from_erfa")
    c.close(r.to(u.hourangle), x / 15, 1e-9, "era_unit", rtol=1e-12)


def centuries(c):
    """Far from today the terms of higher order count."""
    rng = c.rng
    n = gen.size(rng, .0)
    jd = gen.julian(rng, n, 1721425.5, 3182030.5)
    mode = int(rng.integers(0, 4))
    near = rng.choice([-1, 1], n) * 10 ** rng.uniform(-8, -1, n)
    if mode == 0:                       # all but sidereal midnight at Greenwich
        for _ in range(2):
            jd = jd - ((ref.gmst_hours(jd) + 12) % 24 - 12) / 24.0657098
        jd = jd + near / 24
        c.event("sidereal_midnights", n)
    lon = rng.uniform(-180, 180, n)
    if mode == 1:                       # and elsewhere
        lon = (-15 * ref.gmst_hours(jd) + near + 180) % 360 - 180
    t = Time(jd.copy())
    c.note(jd=jd, longitude=lon)
    c.sig("centuries", jd[0], n)
    c.event("far_instants", n)
    m, a = (hours(c, q, n, k) for q, k in ((t.gmst(), "gmst"), (t.gast(), "gast")))
    zero = np.zeros(n)
    x, y = ref.split(jd)
    c.close(ref.hours_apart(m, np.degrees(erfa.gmst82(x, y)) / 15), zero, 8e-5,
            "far_gmst_off")
    c.close(ref.hours_apart(m, ref.gmst_hours(jd)), zero, 2e-7, "far_gmst_series")
    c.close(ref.hours_apart(a, ref.gast_hours(jd)), zero, 2e-7, "far_gast_series")
    c.close(ref.hours_apart(t.lmst(lon).to(u.hourangle), m + lon / 15), zero, 1e-9,
            "far_lmst")
    c.close(ref.hours_apart(t.last(lon).to(u.hourangle), a + lon / 15), zero, 1e-9,
            "far_last")


QUICK = 4            # times as many in the quick tier
SCENARIOS = [("times", times, 300, 12000), ("centuries", centuries, 100, 3000), ("rotation", rotation, 150, 5000)]
