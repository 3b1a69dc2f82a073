"""C16 astronomical quantities."""
import numpy as np
import erfa
from celest import units as u
import celest.coordinates.astronomical_quantities as aq
from celest.units.quantity import Quantity
import gen
import ref

PROPERTY = "C16"
RULE = ("every astronomical quantity at instants 1900-2100 and within 9900 years of 2000, as scalars and as arrays of "
        "every order and layout, against the documented series and against erfa; distinct "
        "by (quantity, instants)")
ASSUMPTIONS = ["documented series: Meeus' fundamental arguments, short nutation and solar "
               "coordinates, Laskar's obliquity, IAU 2006 precession angles",
               "erfa within the documented accuracy of the short series (0.6 arcsec of "
               "nutation, 0.02 degrees of the Sun)"]
REQUIRED = ["series_compared", "erfa_compared", "scalars", "equinoxes", "distant_years"]

ARCSEC = np.pi / 180 / 3600


def sun_ra_deg(jd):
    t = ref.century(jd)
    L = 280.46645 + 36000.76983 * t
    M = ref.nutation_angles(jd)[1] * ref.D2R
    C = (1.914602 - .004817 * t - .000014 * t ** 2) * np.sin(M) + \
        (.019993 - .000101 * t) * np.sin(2 * M) + .000289 * np.sin(3 * M)
    lam, eps = (L + C) * ref.D2R, ref.obliquity(jd) * ref.D2R
    return np.degrees(np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))) % 360


def precession_arcsec(jd):
    t = ref.century(jd)
    return (2.59796176 + 2306.0809506 * t + .3019015 * t ** 2 + .0179663 * t ** 3 -
            .0000327 * t ** 4 - .0000002 * t ** 5,
            2004.1917476 * t - .4269353 * t ** 2 - .0418251 * t ** 3 - .0000601 * t ** 4 -
            .0000001 * t ** 5,
            -2.5976176 + 2306.0803226 * t + 1.0947790 * t ** 2 + .0182273 * t ** 3 +
            .0000470 * t ** 4 - .0000003 * t ** 5)


def erfa_nutation(jd):
    a, b = ref.split(jd)
    p, e = erfa.nut06a(a, b)
    return p / ARCSEC, e / ARCSEC


def erfa_precession(jd):
    a, b = ref.split(jd)
    r = erfa.p06e(a, b)
    zeta, z, theta = r[10], r[9], r[11]
    return zeta / ARCSEC, theta / ARCSEC, z / ARCSEC


def erfa_arguments(jd):
    t = ref.century(jd)
    return [np.degrees(f(t)) for f in (erfa.fad03, erfa.falp03, erfa.fal03, erfa.faf03,
                                       erfa.faom03)]


# name, unit, documented series, tolerance, erfa, tolerance, is it an angle modulo 360
ROWS = [
    ("nutation_angles", u.deg, ref.nutation_angles, 1e-6, erfa_arguments, .004, True),
    ("nutation_components", u.arcsec, ref.nutation, 1e-8, erfa_nutation, .6, False),
    ("mean_obliquity", u.deg, ref.obliquity, 1e-10,
     lambda jd: np.degrees(erfa.obl06(*ref.split(jd))), 2e-4, False),
    ("apparent_obliquity", u.deg, ref.true_obliquity, 1e-10,
     lambda jd: np.degrees(erfa.obl06(*ref.split(jd))) + erfa_nutation(jd)[1] / 3600, 4e-4,
     False),
    ("conventional_precession_angles", u.arcsec, precession_arcsec, 1e-8, None, 0, False),
    ("equation_of_time", u.deg, ref.equation_of_time_deg, 1e-9, None, 0, False),
    ("sun_right_ascension", u.deg, sun_ra_deg, 1e-8,
     lambda jd: np.degrees(ref.sun_apparent(jd)[0]), .025, True),
]


def parts(x):
    return list(x) if isinstance(x, (tuple, list)) else [x]


def apart(a, b, modulo):
    return ref.angle_apart(a, b) if modulo else np.abs(a - b)


def series(c):
    rng = c.rng
    name, unit, doc, tol, other, tol2, modulo = ROWS[c.index // 4 % len(ROWS)]
    fn = getattr(aq, name)
    n = gen.size(rng, .02)
    jd = gen.julian(rng, n)
    distant = c.index % 4 == 3
    if distant:                     # only the series; the highest powers show here
        jd = 2451545.0 + 365250.0 * rng.uniform(-9.9, 9.9, n)
        tol = {1e-6: 1e-6, 1e-8: 1e-7, 1e-10: 1e-9, 1e-9: 1e-8}[tol]
        other = None
    elif modulo:
        tol = min(tol, 1e-8)
    given = gen.layout(rng, jd)
    if rng.random() < .12:
        jd = np.floor(jd)
        given = gen.integers(rng, jd) if jd.min() >= 0 or rng.random() < .5 else jd.astype(int)
    q = Quantity(given, u.jd2000)
    got = parts(fn(q))
    want = parts(doc(jd))
    c.note(quantity=name, jd=jd)
    c.sig(name, n, jd[0])
    c.state("quantity", name)
    c.require(len(got) == len(want), "count", quantity=name)
    c.check(np.array_equal(given, jd) and q.data is given, "input_modified", quantity=name)
    values = []
    for k, (g, w) in enumerate(zip(got, want)):
        x = np.asarray(g.to(unit), float)
        values.append(x)
        c.require(x.shape == (n,), "shape", quantity=name, part=k, got=x.shape)
        c.event("series_compared", n)
        c.event("distant_years", n * distant)
        c.close(apart(x, w, modulo), np.zeros(n), tol, "series_off", quantity=name, part=k,
                jd=jd[0])
        if modulo:
            c.check(bool(np.all((x >= -1e-9) & (x <= 360 + 1e-9))), "range", quantity=name,
                    part=k)
    if other is not None:
        some = rng.choice(n, min(n, 60), replace=False)
        for k, (x, w) in enumerate(zip(values, parts(other(jd[some])))):
            c.event("erfa_compared", len(some))
            c.close(apart(x[some], w, modulo), np.zeros(len(some)), tol2, "far_from_erfa",
                    quantity=name, part=k)
    # a scalar instant, in the types callers use
    i = int(rng.integers(0, n))
    one = gen.scalar(rng, jd[i])
    c.event("scalars")
    for k, (g, x) in enumerate(zip(parts(fn(Quantity(one, u.jd2000))), values)):
        s = g.to(unit)
        c.check(np.ndim(s) == 0, "scalar_shape", quantity=name, part=k)
        c.close(apart(np.float64(s), x[i], modulo), 0.0, 1e-9, "scalar_differs",
                quantity=name, part=k, jd=one)


def equinoxes(c):
    """The equation of the equinoxes: known to be labelled with the wrong unit."""
    rng = c.rng
    n = gen.size(rng, .02)
    jd = gen.julian(rng, n)
    r = aq.equation_of_equinoxes(Quantity(jd.copy(), u.jd2000))
    x = np.asarray(r.to(u.arcsec), float)
    want = ref.equation_of_equinoxes_arcsec(jd)
    c.note(jd=jd)
    c.sig("equinoxes", n, jd[0])
    c.require(x.shape == (n,), "shape", got=x.shape)
    c.event("equinoxes", n)
    if np.max(np.abs(x - want)) <= 1e-6:
        return                                  # an angle, rightly labelled
    if str(r.unit) == "arcsec" and np.max(np.abs(x * 15 - want)) <= 1e-6:
        c.finding("seconds-labelled-arcsec", jd=jd[0], value=x[0], arcsec=want[0])
        return
    c.close(x * 15, want, 1e-6, "equation_of_equinoxes_off", jd=jd[0])


QUICK = 12            # times as many in the quick tier
SCENARIOS = [("series", series, 350, 14000), ("equinoxes", equinoxes, 50, 1500)]
