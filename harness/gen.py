"""Workload generators. Everything is drawn from the case's numpy Generator."""
import numpy as np
import erfa

from celest import units as u
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.satellite import Satellite
from celest.units.core import Unit

# Reference scales: factor to the base unit of the dimension, by definition.
LENGTH = {"m": 1.0, "mm": 1e-3, "cm": 1e-2, "km": 1e3, "inch": 0.0254,
          "ft": 0.3048, "yd": 0.9144, "mi": 1609.344}
TIME = {"s": 1.0, "min": 60.0, "hr": 3600.0, "dy": 86400.0}
ANGLE = {"deg": 1.0, "rad": 180 / np.pi, "arcsec": 1 / 3600, "arcmin": 1 / 60,
         "hourangle": 15.0}
DATE = {"jd2000": 1.0}
TABLE = {"L": LENGTH, "T": TIME, "A": ANGLE, "D": DATE}
DIM_OF = {n: d for d, t in TABLE.items() for n in t}
# The two factors the code (and its tests) round; see known_findings.txt.
ROUNDED = {"ft": 0.305, "yd": 0.914}

# Units without the rounded ones, for physical workloads.
LENGTHS = [n for n in LENGTH if n not in ROUNDED]
ANGLES = list(ANGLE)
TIMES = list(TIME)


# Units of the user's own: name -> (dimension, factor, how it is made).
OWN = {"au": ("L", 149597870700.0, lambda: Unit("au", "astronomical unit", {},
                                               149597870.7 * u.km)),
       "pm": ("L", 1e-12, lambda: Unit("pm", "picometre", {}, 1e-12 * u.m)),
       "Mm": ("L", 1e6, lambda: 1000 * u.km),
       "re": ("L", 6378137.0, lambda: Unit("re", "Earth radius", {}, 6378137.0 * u.m)),
       "km2/mi": ("L", 1e6 / 1609.344, lambda: u.km ** 2 / u.mi),
       "yr": ("T", 31557600.0, lambda: Unit("yr", "Julian year", {}, 365.25 * u.dy)),
       "us": ("T", 1e-6, lambda: 1e-6 * u.s),
       "turn": ("A", 360.0, lambda: Unit("turn", "turn", {}, 360 * u.deg)),
       "gon": ("A", 0.9, lambda: 0.9 * u.deg),
       "uas": ("A", 1e-6 / 3600, lambda: Unit("uas", "microarcsecond", {}, 1e-6 * u.arcsec))}


def unit(name):
    return OWN[name][2]() if name in OWN else getattr(u, name)


def any_unit(rng, names, dim):
    """The name of a predefined unit, or of one of the user's own."""
    if rng.random() < .12:
        names = [n for n in OWN if OWN[n][0] == dim]
    return str(rng.choice(names))


def factor(name):
    """Factor to the base unit as this library defines its units."""
    return OWN[name][1] if name in OWN else ROUNDED.get(name, TABLE[DIM_OF[name]][name])


SIZES = [1, 1, 1, 2, 2, 3, 4, 5, 7, 10, 16, 31, 33, 64, 100, 129, 257]
BIG = [500, 1000, 1025, 2048, 3000, 5001]


def size(rng, big=0.08):
    if rng.random() < big:
        return int(rng.choice(BIG))
    return int(rng.choice(SIZES))


def julian(rng, n, lo=2415020.5, hi=2488069.5):
    """Julian dates (default 1900-2100), in one of many shapes."""
    mode = rng.integers(0, 9)
    if n >= 500 and rng.random() < 0.4:             # long and fine: within days, a day, less
        return rng.uniform(2416000, 2487000) + np.arange(n) * float(
            np.exp(rng.uniform(np.log(0.01), np.log(4)))) / n
    if mode == 0:
        return rng.uniform(lo, hi, n)
    if mode == 1:
        return np.sort(rng.uniform(lo, hi, n))
    if mode == 2:                                   # ordinary pass, regular step
        return rng.uniform(2455000, 2462000) + np.arange(n) * rng.choice(
            [1, 10, 30, 60, 600]) / 86400
    if mode == 3:                                   # all the same instant
        return np.full(n, rng.uniform(lo, hi))
    if mode == 4:                                   # exact halves and integers
        return np.round(rng.uniform(lo, hi, n) * 2) / 2
    if mode == 5:                                   # around J2000
        return 2451545.0 + rng.choice([-1, 0, 0, 1, 1e-3, -1e-3, 0.5, -0.5], n)
    if mode == 6:                                   # descending
        return np.sort(rng.uniform(lo, hi, n))[::-1].copy()
    if mode == 7:                                   # before J2000 only
        return rng.uniform(lo, 2451544.5, n)
    return rng.uniform(2451545, 2462502, n)


def directions(rng, n):
    """Unit vectors, with axes, planes and nearly-polar ones mixed in."""
    v = rng.normal(size=(n, 3))
    special = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1],
                        [0, 0, -1], [1, 1, 0], [-1, 1, 0], [-1, -1, 0], [1, 0, 1],
                        [0, -1, 1], [-1, 1e-9, 0], [-1, -1e-9, 0], [1e-7, 0, 1]])
    pick = rng.random(n) < 0.15
    v[pick] = special[rng.integers(0, len(special), int(pick.sum()))]
    return v / np.linalg.norm(v, axis=1)[:, None]


def radii(rng, n):
    bands = [(6380, 6900), (6900, 8400), (8400, 26600), (42000, 42300),
             (42300, 400000), (6300, 6400), (5000, 6378)]
    which = rng.choice(len(bands), n, p=[.35, .2, .15, .1, .05, .1, .05])
    lo = np.array([b[0] for b in bands])[which]
    hi = np.array([b[1] for b in bands])[which]
    return rng.uniform(lo, hi)


def positions(rng, n):
    return directions(rng, n) * radii(rng, n)[:, None]


def layout(rng, a):
    """The same values in another memory layout; sometimes read-only, so that a
    write into a caller's array raises."""
    a = np.asarray(a)
    mode = rng.integers(0, 5)
    if mode == 0:
        big = np.zeros(2 * a.size, dtype=a.dtype)
        big[::2] = a
        a = big[::2]
    elif mode == 1:
        a = a[::-1].copy()[::-1]
    elif mode == 2:
        two = np.zeros((a.size, 3), dtype=a.dtype)
        two[:, 1] = a
        a = two[:, 1]
    else:
        a = a.copy()
    if rng.random() < 0.4:
        a.flags.writeable = False
    return a


INTEGERS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def integers(rng, a):
    """Whole numbers as integers of any type which holds them."""
    a = np.asarray(a)
    kinds = [k for k in INTEGERS if np.all(a >= np.iinfo(k).min) and
             np.all(a <= float(np.iinfo(k).max) * (1 - 1e-15))]
    small = [k for k in kinds if np.dtype(k).itemsize < 4]
    if small and rng.random() < .5:
        kinds = small
    return a.astype(kinds[int(rng.integers(0, len(kinds)))])


def scalar(rng, x, plain=False):
    """x as one of the number types a caller might pass; plain: without single
    precision and arrays of no dimension."""
    mode = int(rng.integers(0, 8))
    if plain and mode in (2, 5):
        mode = 0
    if mode in (0, 3, 4) and float(x).is_integer():
        kinds = [int, int, np.int64, np.int32, np.uint32, np.uint64, np.int16]
        kind = kinds[int(rng.integers(0, 7))]
        if kind is int or np.iinfo(kind).min <= x <= np.iinfo(kind).max:
            return kind(x)
    if mode == 5 and np.float32(x) == x:
        return np.float32(x)
    return np.float64(x) if mode in (1, 3) else np.array(float(x)) if mode == 2 else float(x)


def location_deg(rng):
    """(latitude deg, longitude deg, height km)"""
    lat = float(rng.choice([0, 90, -90, 45, -45, 89.999, 1e-6, -1e-6])) \
        if rng.random() < 0.15 else float(rng.uniform(-90, 90))
    lon = float(rng.choice([0, 180, -180, 90, -90, 179.9999, -179.9999])) \
        if rng.random() < 0.15 else float(rng.uniform(-180, 180))
    h = float(rng.choice([0, 0, -0.43, 8.849, 0.076, 20])) \
        if rng.random() < 0.5 else float(rng.uniform(-1, 9))
    return lat, lon, h


def make_location(rng, lat, lon, h, units=None):
    """A GroundLocation for degrees and kilometres, built in random units."""
    a, l = units or (any_unit(rng, ANGLES, "A"), str(rng.choice(LENGTHS)))
    if a != "deg" and (abs(lat) > 89.9999 or abs(lon) > 179.9999):
        a = "deg"                 # conversion rounding must not leave the range
    lat, lon, h = (scalar(rng, x, plain=True) for x in (
        lat / factor(a) if a != "deg" else lat, lon / factor(a) if a != "deg" else lon,
        h * 1000 / factor(l) if l != "km" else h))
    return GroundLocation(lat, lon, h, unit(a), unit(l)), (a, l)


def namesake(rng, loc):
    """Another place of the same numbers: other units, or None. (location, degrees, km)"""
    a, b, h = (float(q.data) for q in (loc.latitude, loc.longitude, loc.height))
    options = [(x, y) for x in ANGLES for y in LENGTHS
               if abs(a * factor(x)) < 89.9 and abs(b * factor(x)) < 179.9 and
               abs(h * factor(y)) < 2e5 and
               (x != str(loc.latitude.unit) or y != str(loc.height.unit))]
    if not options:
        return None
    x, y = options[int(rng.integers(0, len(options)))]
    other = GroundLocation(loc.latitude.data, loc.longitude.data, loc.height.data, unit(x),
                           unit(y))
    return other, (a * factor(x), b * factor(x), h * factor(y) / 1000)


def frame3(cls, rng, jd, xyz_km, name=None, fancy=True):
    """A GCRS/ITRS of kilometres, given in a random length unit and layout."""
    name = name or any_unit(rng, LENGTHS, "L")
    v = xyz_km * 1000 / factor(name) if name != "km" else xyz_km
    cols = [layout(rng, v[:, i]) if fancy else v[:, i].copy() for i in range(3)]
    t = layout(rng, jd) if fancy else jd.copy()
    return cls(t, cols[0], cols[1], cols[2], unit(name)), name


def velocity3(cls, rng, jd, v_kms, names=None, fancy=True):
    """Velocities of km/s in a random unit."""
    ln, tn = names or (any_unit(rng, LENGTHS, "L"), any_unit(rng, TIMES, "T"))
    v = v_kms * 1000 / factor(ln) * factor(tn)
    cols = [layout(rng, v[:, i]) if fancy else v[:, i].copy() for i in range(3)]
    t = layout(rng, jd) if fancy else jd.copy()
    return cls(t, cols[0], cols[1], cols[2], unit(ln) / unit(tn)), (ln, tn)


def wgs(rng, jd, lat_deg, lon_deg, h_km):
    a, l = any_unit(rng, ANGLES, "A"), any_unit(rng, LENGTHS, "L")
    return WGS84(layout(rng, jd), layout(rng, lat_deg / factor(a)),
                 layout(rng, lon_deg / factor(a)),
                 layout(rng, h_km * 1000 / factor(l)), unit(a), unit(l)), (a, l)


MU = 398600.4418


def kepler(a, e, i, raan, argp, m0, t):
    """Two-body orbit; t seconds from epoch; returns km, km/s (n,3)."""
    n = np.sqrt(MU / a ** 3)
    m = m0 + n * t
    E = m + e * np.sin(m)
    for _ in range(60):
        E = E - (E - e * np.sin(E) - m) / (1 - e * np.cos(E))
    x, y = a * (np.cos(E) - e), a * np.sqrt(1 - e * e) * np.sin(E)
    r = a * (1 - e * np.cos(E))
    vx = -np.sqrt(MU * a) / r * np.sin(E)
    vy = np.sqrt(MU * a) / r * np.sqrt(1 - e * e) * np.cos(E)
    co, so, ci, si, cw, sw = (np.cos(raan), np.sin(raan), np.cos(i), np.sin(i),
                              np.cos(argp), np.sin(argp))
    P = np.array([co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si])
    Q = np.array([-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si])
    return (np.outer(x, P) + np.outer(y, Q)), (np.outer(vx, P) + np.outer(vy, Q))


def orbit(rng, n=None, step=None, kind=None):
    """(jd, r km, v km/s) of a satellite, in a quasi-inertial frame."""
    kind = kind or str(rng.choice(["leo", "leo", "leo", "sso", "meo", "geo", "heo",
                                   "retro", "equatorial"]))
    two = 2 * np.pi
    el = {"leo": (rng.uniform(6700, 7500), rng.uniform(0, .02), rng.uniform(.2, 1.8)),
          "sso": (rng.uniform(6900, 7200), rng.uniform(0, .002), 1.71),
          "meo": (rng.uniform(12000, 27000), rng.uniform(0, .05), rng.uniform(.3, 1.2)),
          "geo": (42164.0, rng.uniform(0, 1e-3), rng.uniform(0, .05)),
          "heo": (26560.0, 0.74, 1.107),
          "retro": (rng.uniform(6800, 7800), rng.uniform(0, .01), rng.uniform(1.9, 3.0)),
          "equatorial": (rng.uniform(6700, 8000), 0.0, 0.0)}[kind]
    n = n or int(rng.choice([50, 200, 500, 1000]))
    step = step or float(rng.choice([10, 20, 30, 60, 120]))
    t = np.arange(n) * step
    jd0 = rng.uniform(2455000, 2462000)
    r, v = kepler(el[0], el[1], el[2], rng.uniform(0, two), rng.uniform(0, two),
                  rng.uniform(0, two), t)
    return jd0 + t / 86400, r, v, kind


def steep(rng, r, v):
    """Velocities of the same speeds, 1 to 30 degrees from straight up or down."""
    n = len(r)
    up = r / np.linalg.norm(r, axis=1)[:, None] * rng.choice([-1, 1], n)[:, None]
    side = np.cross(up, v + 1e-3 * np.linalg.norm(v, axis=1)[:, None] * rng.normal(size=(n, 3)))
    side /= np.linalg.norm(side, axis=1)[:, None]
    a = np.radians(np.exp(rng.uniform(0, np.log(30), n)))[:, None]
    return np.linalg.norm(v, axis=1)[:, None] * (np.cos(a) * up + np.sin(a) * side)


def satellite(rng, jd, r_km, v_kms, frame=None, fancy=True):
    cls = {"gcrs": GCRS, "itrs": ITRS}[frame or str(rng.choice(["gcrs", "itrs"]))]
    p, pn = frame3(cls, rng, jd, r_km, fancy=fancy)
    if v_kms is None:
        return Satellite(p), cls.__name__
    v, vn = velocity3(cls, rng, jd, v_kms, fancy=fancy)
    return Satellite(p, v), cls.__name__


def km(frame):
    """(n,3) kilometres of a Cartesian frame, through the public accessors."""
    return np.array([np.asarray(frame.x.to(u.km)), np.asarray(frame.y.to(u.km)),
                     np.asarray(frame.z.to(u.km))], dtype=float).T


def kms(frame):
    s = u.km / u.s
    return np.array([np.asarray(frame.x.to(s)), np.asarray(frame.y.to(s)),
                     np.asarray(frame.z.to(s))], dtype=float).T


def snapshot(*frames):
    """Deep copy of everything observable of frames, for purity monitors."""
    out = []
    for f in frames:
        if f is None:
            out.append(None)
            continue
        row = [type(f).__name__]
        for name in ("x", "y", "z", "time", "latitude", "longitude", "height",
                     "azimuth", "elevation", "roll", "pitch", "yaw"):
            if hasattr(f, name):
                q = getattr(f, name)
                row.append((name, np.array(q.data, copy=True), str(q.unit)))
        out.append(row)
    return out


def same_snapshot(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p is None or q is None:
            if p is not q:
                return False
            continue
        if p[0] != q[0] or len(p) != len(q):
            return False
        for (n1, d1, u1), (n2, d2, u2) in zip(p[1:], q[1:]):
            if n1 != n2 or u1 != u2 or d1.shape != d2.shape or \
                    not np.array_equal(d1, d2, equal_nan=True):
                return False
    return True
