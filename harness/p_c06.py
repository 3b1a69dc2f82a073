"""C06 azimuth and elevation."""
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
import gen
import ref

PROPERTY = "C06"
RULE = ("targets all around the horizon of ground locations everywhere (poles, equator and "
        "antimeridian included), given in Earth-fixed, geodetic and celestial frames and "
        "random units; distinct by location and target")
ASSUMPTIONS = ["no refraction", "azimuth is not judged within 0.01 degrees of the zenith or "
               "nadir, where it is undefined"]
REQUIRED = ["directions", "quadrants", "locations", "celestial", "high_places"]


def reading(c, az, n):
    a = np.asarray(az.azimuth.to(u.deg), float)
    e = np.asarray(az.elevation.to(u.deg), float)
    c.require(a.shape == e.shape == (n,), "shape", a=a.shape, e=e.shape)
    c.check(bool(np.all((a >= 0) & (a <= 360))), "azimuth_range", azimuth=a)
    c.check(bool(np.all((e >= -90) & (e <= 90))), "elevation_range", elevation=e)
    return a, e


def judge(c, az, xyz, lat, lon, h, tol=1e-6):
    a, e = reading(c, az, len(xyz))
    a0, e0, dist, flat = ref.azel(xyz, lat, lon, h)
    # rounding of positions: a nanometre at the target's distance
    slack = tol + np.degrees(1e-8 / dist) + np.degrees(4e-16 * np.linalg.norm(
        xyz, axis=1) / dist)
    off = np.abs(e - e0)
    c.check(bool(np.all(off <= slack)), "elevation_off", worst=float(np.max(off)),
            at=xyz[np.argmax(off)], lat=lat, lon=lon, h=h, want=e0[np.argmax(off)],
            got=e[np.argmax(off)])
    use = flat / dist > 2e-4
    d = ref.angle_apart(a, a0) * flat / dist
    d[~(flat / dist > 1e-7)] = 0
    c.check(bool(np.all(d <= slack * 2)), "azimuth_off", worst=float(np.max(d)),
            at=xyz[np.argmax(d)], lat=lat, lon=lon, h=h, want=a0[np.argmax(d)],
            got=a[np.argmax(d)])
    c.event("directions", len(xyz))
    for q in np.unique((a0[use] // 45).astype(int)):
        c.state("octant", int(q), bool(np.any(e0 < 0)))
    c.event("quadrants", len(np.unique((a0[use] // 90).astype(int))))
    return a, e


def build(c):
    rng = c.rng
    lat, lon, h = gen.location_deg(rng)
    if rng.random() < .12:                        # balloons, rockets, mines
        h = float(rng.choice([30, 101, 400, 2000, 36000, -12])) * float(rng.uniform(.9, 1.1))
        c.event("high_places")
    loc, units = gen.make_location(rng, lat, lon, h)
    c.event("locations")
    c.state("hemisphere", lat > 0, lon > 0)
    c.note(lat=lat, lon=lon, h=h, units=units)
    return lat, lon, h, loc


def place(rng, n, lat, lon, h):
    """Targets of known local direction."""
    az = rng.uniform(0, 360, n)
    el = rng.uniform(-90, 90, n)
    k = rng.random(n) < .25
    az[k] = rng.choice([0, 90, 180, 270, 45, 1e-6, 359.999999], int(k.sum()))
    el[k] = rng.choice([0, 10, 30, 45, 80, -1e-6, 1e-6, 89, -45], int(k.sum()))
    k = rng.random(n) < .08                       # all but level, all but overhead
    el[k] = rng.choice([0, 0, 90, -90], int(k.sum()))
    el[k] -= np.sign(el[k] + (rng.random(int(k.sum())) < .5) - .5) * \
        10 ** rng.uniform(-6, -2, int(k.sum()))
    d = 10 ** rng.uniform(0, 5, n)
    A, E = np.radians(az), np.radians(el)
    p, l = np.radians(lat), np.radians(lon)
    east = np.array([-np.sin(l), np.cos(l), 0])
    up = np.array([np.cos(p) * np.cos(l), np.cos(p) * np.sin(l), np.sin(p)])
    north = np.cross(up, east)
    v = np.outer(np.sin(A) * np.cos(E), east) + np.outer(np.cos(A) * np.cos(E), north) + \
        np.outer(np.sin(E), up)
    return ref.geodetic_to_ecef(lat, lon, h) + d[:, None] * v, az, el


def local(c):
    """Targets placed at a known azimuth and elevation."""
    rng = c.rng
    lat, lon, h, loc = build(c)
    n = gen.size(rng, .03)
    jd = gen.julian(rng, n)
    xyz, az, el = place(rng, n, lat, lon, h)
    c.note(xyz=xyz, az=az, el=el)
    c.sig("local", lat, lon, n, az[0])
    f, _ = gen.frame3(ITRS, rng, jd, xyz)
    before = gen.snapshot(f)
    r = Coordinate(f).convert_to(AzEl, loc)
    c.require(type(r) is AzEl, "frame_class", got=type(r).__name__)
    a, e = judge(c, r, xyz, lat, lon, h)
    d = np.linalg.norm(xyz - ref.geodetic_to_ecef(lat, lon, h), axis=1)
    c.check(bool(np.all(np.abs(e - el) <= 1e-6 + 1e-6 / d)), "placed_elevation", got=e, want=el)
    off = ref.angle_apart(a, az) * np.cos(np.radians(el))
    c.check(bool(np.all(off <= 2e-6 + 2e-6 / d)), "placed_azimuth", got=a, want=az)
    c.check(r.location is loc or str(r.location) == str(loc), "location_lost")
    c.check(np.array_equal(r.time.to(u.jd2000), jd), "time_changed")
    c.check(gen.same_snapshot(gen.snapshot(f), before), "source_modified")


def satellites(c):
    """Orbiting targets, from every frame."""
    rng = c.rng
    lat, lon, h, loc = build(c)
    n = gen.size(rng, .03)
    jd, xyz = gen.julian(rng, n), gen.positions(rng, n)
    c.note(jd=jd, xyz=xyz)
    c.sig("satellites", lat, lon, n, xyz[0])
    f, _ = gen.frame3(ITRS, rng, jd, xyz)
    a, e = judge(c, Coordinate(f).convert_to(AzEl, loc), xyz, lat, lon, h)
    # the same positions in the celestial frame
    g = Coordinate(f).convert_to(GCRS)
    c.event("celestial", n)
    judge(c, Coordinate(g).convert_to(AzEl, loc), xyz, lat, lon, h, 2e-6)
    w = Coordinate(f).convert_to(WGS84)
    judge(c, Coordinate(w).convert_to(AzEl, loc), xyz, lat, lon, h, 2e-6)
    # one location after another from one position: nothing is remembered
    lat2, lon2, h2, loc2 = build(c)
    coordinate = Coordinate(f)
    judge(c, coordinate.convert_to(AzEl, loc2), xyz, lat2, lon2, h2)
    judge(c, coordinate.convert_to(AzEl, loc), xyz, lat, lon, h)


def celestial(c):
    """Independent of the library's rotation: erfa's position of a celestial target."""
    rng = c.rng
    lat, lon, h, loc = build(c)
    n = gen.size(rng, .02)
    jd = gen.julian(rng, n)
    xyz = gen.directions(rng, n) * rng.uniform(20000, 60000, n)[:, None]
    itrs = np.einsum("kij,kj->ki", ref.erfa_c2t(jd), xyz)
    c.note(jd=jd, xyz=xyz)
    c.sig("celestial", lat, lon, n, jd[0])
    f, _ = gen.frame3(GCRS, rng, jd, xyz)
    # the models differ by seconds of arc about the Earth's centre (see C04), which
    # are more as seen from a high place close to the target
    near = np.linalg.norm(itrs - ref.geodetic_to_ecef(lat, lon, h), axis=1)
    judge(c, Coordinate(f).convert_to(AzEl, loc), itrs, lat, lon, h,
          np.maximum(0.003, 0.0015 * np.linalg.norm(itrs, axis=1) / near))
    c.event("celestial", n)


def overhead(c):
    """Straight up and down, at the poles too."""
    rng = c.rng
    lat, lon, h, loc = build(c)
    up = rng.uniform(100, 40000, 4)
    top = ref.geodetic_to_ecef(np.full(4, lat), np.full(4, lon), h + up)
    bottom = ref.geodetic_to_ecef(np.full(2, lat), np.full(2, lon),
                                  h - rng.uniform(1, 400, 2))
    jd = gen.julian(rng, 6)
    f, _ = gen.frame3(ITRS, rng, jd, np.vstack([top, bottom]))
    a, e = reading(c, Coordinate(f).convert_to(AzEl, loc), 6)
    c.sig("overhead", lat, lon, h)
    c.close(e[:4], np.full(4, 90.0), 1e-6, "zenith", lat=lat, lon=lon)
    c.close(e[4:], np.full(2, -90.0), 1e-5, "nadir", lat=lat, lon=lon)


def whole(c):
    """Whole numbers of kilometres, as integers of any type."""
    rng = c.rng
    lat, lon, h, loc = build(c)
    n = gen.size(rng, 0)
    jd = np.floor(gen.julian(rng, n))
    xyz = np.round(gen.directions(rng, n) * rng.uniform(6600, 32000, (n, 1)))
    if rng.random() < .3:
        xyz = np.abs(xyz)
    if np.any(np.linalg.norm(xyz - ref.geodetic_to_ecef(lat, lon, h), axis=1) < 10):
        return
    cols = [gen.integers(rng, x) for x in xyz.T]
    c.note(xyz=xyz, kinds=[str(x.dtype) for x in cols])
    c.sig("whole", lat, lon, n, xyz[0])
    c.event("whole_numbers", n)
    r = Coordinate(ITRS(gen.integers(rng, jd), *cols, u.km)).convert_to(AzEl, loc)
    judge(c, r, xyz, lat, lon, h)


QUICK = 4            # times as many in the quick tier
SCENARIOS = [("local", local, 300, 12000), ("satellites", satellites, 120, 5000),
             ("celestial", celestial, 80, 3000), ("overhead", overhead, 150, 4000),
             ("whole", whole, 50, 1500)]
