"""Independent reference models. They use erfa or textbook formulas, never celest."""
import numpy as np
import erfa

A = 6378.137
B = 6356.752314245
E2 = 1 - B * B / A / A
D2R = np.pi / 180
ARCSEC = D2R / 3600


# ---- geodesy
def geodetic_to_ecef(lat_deg, lon_deg, h_km):
    phi, lam = np.asarray(lat_deg) * D2R, np.asarray(lon_deg) * D2R
    n = A / np.sqrt(1 - E2 * np.sin(phi) ** 2)
    return np.stack([(n + h_km) * np.cos(phi) * np.cos(lam),
                     (n + h_km) * np.cos(phi) * np.sin(lam),
                     (n * (1 - E2) + h_km) * np.sin(phi)], axis=-1)


def ecef_to_geodetic(xyz_km):
    """erfa's WGS84: longitude deg, latitude deg, height km."""
    e, p, h = erfa.gc2gd(1, np.asarray(xyz_km, float) * 1000)
    return np.degrees(p), np.degrees(e), h / 1000


def enu(vec, lat_deg, lon_deg):
    p, l = lat_deg * D2R, lon_deg * D2R
    east = np.array([-np.sin(l), np.cos(l), 0])
    up = np.array([np.cos(p) * np.cos(l), np.cos(p) * np.sin(l), np.sin(p)])
    north = np.cross(up, east)
    return vec @ east, vec @ north, vec @ up


def azel(xyz_km, lat_deg, lon_deg, h_km):
    d = xyz_km - geodetic_to_ecef(lat_deg, lon_deg, h_km)
    e, n, up = enu(d, lat_deg, lon_deg)
    return (np.degrees(np.arctan2(e, n)) % 360,
            np.degrees(np.arctan2(up, np.hypot(e, n))),
            np.linalg.norm(d, axis=-1), np.hypot(e, n))


# ---- celestial / terrestrial rotation
def split(jd):
    jd = np.asarray(jd, float)
    d = np.floor(jd)
    return d, jd - d


def erfa_c2t(jd):
    a, b = split(jd)
    return erfa.c2t06a(a, b, a, b, 0.0, 0.0)


def r1(t):
    c, s, o, z = np.cos(t), np.sin(t), np.ones_like(t), np.zeros_like(t)
    return np.moveaxis(np.array([[o, z, z], [z, c, s], [z, -s, c]]), -1, 0)


def r2(t):
    c, s, o, z = np.cos(t), np.sin(t), np.ones_like(t), np.zeros_like(t)
    return np.moveaxis(np.array([[c, z, -s], [z, o, z], [s, z, c]]), -1, 0)


def r3(t):
    c, s, o, z = np.cos(t), np.sin(t), np.ones_like(t), np.zeros_like(t)
    return np.moveaxis(np.array([[c, s, z], [-s, c, z], [z, z, o]]), -1, 0)


# ---- calendar
def gregorian(jd):
    """Proleptic Gregorian date by erfa."""
    a, b = split(jd)
    y, m, d, f = erfa.jd2cal(a, b)
    return y, m, d, f


def julian_calendar(jdn):
    """Julian-calendar (y, m, d) of an integer Julian day number, by counting days."""
    # day 0 is 1 January -4712 (4713 BC), Julian calendar
    cycles, rest = divmod(int(jdn), 1461)
    y = -4712 + 4 * cycles
    if rest < 366:
        pass
    else:
        rest -= 366
        y += 1 + rest // 365
        rest %= 365
    leap = y % 4 == 0
    months = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    m = 0
    while rest >= months[m]:
        rest -= months[m]
        m += 1
    return y, m + 1, rest + 1


# ---- documented astronomical series (Meeus, Capitaine, Laskar)
def century(jd):
    return (np.asarray(jd, float) - 2451545.0) / 36525.0


def nutation_angles(jd):
    t = century(jd)
    return [(297.85036 + 445267.111480 * t - 0.0019142 * t ** 2 + t ** 3 / 189474) % 360,
            (357.52772 + 35999.050340 * t - 0.0001603 * t ** 2 - t ** 3 / 300000) % 360,
            (134.96298 + 477198.867398 * t + 0.0086972 * t ** 2 + t ** 3 / 56250) % 360,
            (93.27191 + 483202.017538 * t - 0.0036825 * t ** 2 + t ** 3 / 327270) % 360,
            (125.04452 - 1934.136261 * t + 0.0020708 * t ** 2 + t ** 3 / 450000) % 360]


def nutation(jd):
    """(dpsi, deps) arcsec, Meeus' short series."""
    t = century(jd)
    om = nutation_angles(jd)[4] * D2R
    L = (280.46645 + 36000.76983 * t) * D2R          # the code's constant
    Lm = (218.3165 + 481267.8813 * t) * D2R
    dpsi = -17.20 * np.sin(om) - 1.32 * np.sin(2 * L) - 0.23 * np.sin(2 * Lm) + \
        0.21 * np.sin(2 * om)
    deps = 9.20 * np.cos(om) + 0.57 * np.cos(2 * L) + 0.10 * np.cos(2 * Lm) - \
        0.09 * np.cos(2 * om)
    return dpsi, deps


def obliquity(jd):
    """Laskar's mean obliquity in degrees."""
    U = century(jd) / 100
    c = [84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87,
         5.79, 2.45]
    return sum(k * U ** i for i, k in enumerate(c)) / 3600


def true_obliquity(jd):
    return obliquity(jd) + nutation(jd)[1] / 3600


def gmst_hours(jd):
    d = np.asarray(jd, float) - 2451545.0
    t = d / 36525
    return ((280.46 + 360.98564736629 * d + 0.000387933 * t ** 2 -
             t ** 3 / 38710000) % 360) / 15


def equation_of_equinoxes_arcsec(jd):
    return nutation(jd)[0] * np.cos(true_obliquity(jd) * D2R)


def gast_hours(jd):
    return (gmst_hours(jd) + equation_of_equinoxes_arcsec(jd) / 15 / 3600) % 24


def equation_of_time_deg(jd):
    t = century(jd)
    L = (280.46645 + 36000.76983 * t) * D2R
    M = nutation_angles(jd)[1] * D2R
    e = 0.016708634 - 0.000042037 * t - 0.0000001267 * t ** 2
    e = e * D2R / D2R
    y = np.tan(true_obliquity(jd) * D2R / 2) ** 2
    return np.degrees(y * np.sin(2 * L) - 2 * e * np.sin(M) + 4 * e * y * np.sin(M) *
                      np.cos(2 * L) - .5 * y * y * np.sin(4 * L) -
                      1.25 * e * e * np.sin(2 * M))


def sun_apparent(jd):
    """Geocentric Sun of date by erfa: right ascension, declination (rad), of the
    true equator and equinox, with aberration."""
    a, b = split(jd)
    pvh, pvb = erfa.epv00(a, b)
    p = -pvh["p"]
    v = pvb["v"]
    r = np.linalg.norm(p, axis=-1, keepdims=True)
    # annual aberration, first order
    p = p / r + v / 173.144632674
    rot = erfa.pnm06a(a, b)
    q = np.einsum("...ij,...j->...i", rot, p)
    return np.arctan2(q[..., 1], q[..., 0]) % (2 * np.pi), \
        np.arctan2(q[..., 2], np.hypot(q[..., 0], q[..., 1]))


def sun_gcrs_km(jd):
    a, b = split(jd)
    pvh, pvb = erfa.epv00(a, b)
    return -pvh["p"] * 149597870.7


# ---- LVLH and attitude
def lvlh_axes(r, v):
    """Rows x, y, z: z to nadir, y against the orbit normal."""
    z = -r / np.linalg.norm(r, axis=1)[:, None]
    h = np.cross(r, v)
    y = -h / np.linalg.norm(h, axis=1)[:, None]
    return np.stack([np.cross(y, z), y, z], axis=1)


def attitude(r, v, target):
    """Roll, pitch, yaw (rad) whose 2-1-3 rotation turns nadir into the line of
    sight to target by the smallest angle; r, v, target in one rotating-free frame."""
    los = target - r
    los = los / np.linalg.norm(los, axis=1)[:, None]
    g = np.einsum("kij,kj->ki", lvlh_axes(r, v), los)
    roll = np.arcsin(np.clip(g[:, 1], -1, 1))
    pitch = np.arctan2(-g[:, 0], g[:, 2])
    yaw = np.arctan2(-g[:, 0] * g[:, 1] / (1 + g[:, 2]), 1 - g[:, 1] ** 2 / (1 + g[:, 2]))
    return roll, pitch, yaw, g


def hours_apart(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + 12) % 24 - 12)


def angle_apart(a, b):
    """degrees"""
    return np.abs((np.asarray(a) - np.asarray(b) + 180) % 360 - 180)
