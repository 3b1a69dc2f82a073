"""C05 geodetic coordinates."""
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.satellite import Satellite
import gen
import ref

PROPERTY = "C05"
RULE = ("positions from 1000 km below to 400 000 km above the ellipsoid, poles, equator, "
        "antimeridian and axes included, converted between Earth-fixed and geodetic "
        "coordinates in random units; distinct by inputs")
ASSUMPTIONS = ["erfa's WGS84 conversions (gc2gd, gd2gc) are the reference, within 1e-9 rad "
               "and 1 mm", "positions nearer than 4500 km to the centre are not judged"]
REQUIRED = ["to_geodetic", "to_cartesian", "round_trips", "poles", "altitudes",
            "locations", "positions_beyond_use", "whole_numbers"]


def geodetic(rng, n):
    lat = rng.uniform(-90, 90, n)
    lon = rng.uniform(-180, 180, n)
    special = rng.random(n) < 0.2
    k = int(special.sum())
    lat[special] = rng.choice([90, -90, 0, 45, -45, 89.9999999, -89.9999, 1e-9, 60], k)
    lon[special] = rng.choice([180, -180, 0, 90, -90, 179.9999999, -179.9999999, 1e-9], k)
    h = np.where(rng.random(n) < .3, rng.uniform(-.4, 9, n), rng.uniform(100, 2000, n))
    far = rng.random(n) < .2
    h[far] = rng.choice([0, 20200, 35786, 384400, -10, -1000, 1e-3], int(far.sum()))
    return lat, lon, h


def judge(c, w, xyz, where):
    """A geodetic position against erfa's, in degrees and kilometres."""
    lat, lon, h = (np.asarray(q.to(x), float) for q, x in (
        (w.latitude, u.deg), (w.longitude, u.deg), (w.height, u.km)))
    lat0, lon0, h0 = ref.ecef_to_geodetic(xyz)
    p = np.hypot(xyz[:, 0], xyz[:, 1])
    c.close(lat, lat0, 6e-8, "latitude_off", where=where)
    c.close(h, h0, 1e-6, "height_off", rtol=1e-11, where=where)
    away = p > 1e-3
    c.event("poles", int((~away).sum()))
    c.close(ref.angle_apart(lon[away], lon0[away]), np.zeros(int(away.sum())), 6e-8,
            "longitude_off", where=where)
    c.check(bool(np.all((lat >= -90 - 1e-9) & (lat <= 90 + 1e-9) &
                        (lon >= -180 - 1e-9) & (lon <= 180 + 1e-9))), "out_of_range",
            where=where, lat=lat, lon=lon)
    c.event("to_geodetic", len(lat))


def to_geodetic(c):
    rng = c.rng
    n = gen.size(rng) if rng.random() < .997 else int(rng.choice([65537, 70001]))
    jd = gen.julian(rng, n)
    if rng.random() < 0.5:
        xyz = gen.positions(rng, n)
    else:
        xyz = ref.geodetic_to_ecef(*geodetic(rng, n))
    near = rng.random(n) < 0.1
    if np.any(near):                          # very near and on the axis of rotation
        d = rng.choice([0, 1e-9, 1e-6, 1e-3, 1], (int(near.sum()), 2)) * rng.choice(
            [-1, 1], (int(near.sum()), 2))
        xyz[near] = np.column_stack([d, rng.choice([-1, 1], len(d)) *
                                     rng.uniform(6300, 50000, len(d))])
    c.note(jd=jd, xyz=xyz)
    c.sig(n, xyz[0])
    f, unit = gen.frame3(ITRS, rng, jd, xyz)
    before = gen.snapshot(f)
    w = Coordinate(f).convert_to(WGS84)
    c.require(type(w) is WGS84, "frame_class", got=type(w).__name__)
    c.check(gen.same_snapshot(gen.snapshot(f), before), "source_modified")
    c.check(np.array_equal(w.time.to(u.jd2000), jd), "time_changed")
    judge(c, w, xyz, unit)
    back = gen.km(Coordinate(w).convert_to(ITRS))
    c.event("round_trips", n)
    c.close(back, xyz, 1e-6, "not_inverse", rtol=1e-10)
    # positions nobody can convert do not disturb the others
    bad = rng.random(n) < .2
    if np.any(bad) and not np.all(bad):
        sick = xyz.copy()
        sick[bad, int(rng.integers(0, 3))] = rng.choice([np.nan, np.inf, 1e150])
        x = Coordinate(ITRS(jd.copy(), *sick.T.copy(), u.km)).convert_to(WGS84)
        c.event("positions_beyond_use", int(bad.sum()))
        for name, q in (("latitude", u.deg), ("height", u.km)):
            c.close(np.asarray(getattr(x, name).to(q))[~bad],
                    np.asarray(getattr(w, name).to(q))[~bad], 1e-6, "others_disturbed",
                    rtol=1e-10, coordinate=name)
        c.close(Satellite(ITRS(jd.copy(), *sick.T.copy(), u.km)).altitude().to(u.km)[~bad],
                np.asarray(w.height.to(u.km))[~bad], 1e-6, "others_disturbed", rtol=1e-10)
    # geocentric distance: a satellite's altitude is the same height
    alt = Satellite(f).altitude()
    c.event("altitudes", n)
    c.close(alt.to(u.km), ref.ecef_to_geodetic(xyz)[2], 1e-6, "altitude_off", rtol=1e-11)
    # one at a time
    i = int(rng.integers(0, n))
    one = Coordinate(ITRS(jd[i:i + 1].copy(), *(xyz[i:i + 1, k].copy() for k in range(3)),
                          u.km)).convert_to(WGS84)
    c.close(one.height.to(u.km), np.asarray(w.height.to(u.km))[i:i + 1], 1e-6,
            "height_depends_on_batch", rtol=1e-11)
    c.close(one.latitude.to(u.deg), np.asarray(w.latitude.to(u.deg))[i:i + 1], 6e-8,
            "latitude_depends_on_batch")


def whole(c):
    """Whole numbers of kilometres, as integers of any type, or in single precision."""
    rng = c.rng
    n = gen.size(rng, 0)
    jd = np.floor(gen.julian(rng, n))
    xyz = np.round(gen.directions(rng, n) * rng.uniform(6300, 32000, (n, 1)))
    if rng.random() < .3:
        xyz = np.abs(xyz)
    cols = [gen.integers(rng, x) for x in xyz.T]
    for k in range(3):
        if rng.random() < .15:
            cols[k] = cols[k].astype(np.float32 if rng.random() < .5 else float)
    kinds = [str(x.dtype) for x in cols]
    c.note(jd=jd, xyz=xyz, kinds=kinds)
    c.sig("whole", n, xyz[0])
    c.state("kinds", *kinds)
    f = ITRS(gen.integers(rng, jd), *cols, u.km)
    before = gen.snapshot(f)
    c.event("whole_numbers", n)
    w = Coordinate(f).convert_to(WGS84)
    single = "float32" in kinds
    if single:
        c.close(w.height.to(u.km), ref.ecef_to_geodetic(xyz)[2], 2e-2, "single_height_off")
    else:
        judge(c, w, xyz, kinds)
        c.close(Satellite(f).altitude().to(u.km), ref.ecef_to_geodetic(xyz)[2], 1e-6,
                "altitude_off", rtol=1e-11, kinds=kinds)
    c.check(gen.same_snapshot(gen.snapshot(f), before), "source_modified")
    lat, lon = np.round(rng.uniform(-90, 90, n)), np.round(rng.uniform(-180, 180, n))
    h = np.round(10 ** rng.uniform(0, 4.4, n)) - 1
    name = str(rng.choice(["deg", "deg", "arcmin"]))
    k = 60 if name == "arcmin" else 1
    w = WGS84(gen.integers(rng, jd), gen.integers(rng, lat * k), gen.integers(rng, lon * k),
              gen.integers(rng, h), gen.unit(name), u.km)
    c.close(gen.km(Coordinate(w).convert_to(ITRS)), ref.geodetic_to_ecef(lat, lon, h), 1e-6,
            "position_off", rtol=1e-11)


def to_cartesian(c):
    rng = c.rng
    n = gen.size(rng)
    jd = gen.julian(rng, n)
    lat, lon, h = geodetic(rng, n)
    c.note(jd=jd, lat=lat, lon=lon, h=h)
    c.sig(n, lat[0], lon[0], h[0])
    w, units = gen.wgs(rng, jd, lat, lon, h)
    before = gen.snapshot(w)
    f = Coordinate(w).convert_to(ITRS)
    c.require(type(f) is ITRS, "frame_class", got=type(f).__name__)
    c.check(gen.same_snapshot(gen.snapshot(w), before), "source_modified")
    c.check(np.array_equal(f.time.to(u.jd2000), jd), "time_changed")
    xyz = ref.geodetic_to_ecef(lat, lon, h)
    c.event("to_cartesian", n)
    c.close(gen.km(f), xyz, 1e-6, "position_off", rtol=1e-11, units=units)
    back = Coordinate(f).convert_to(WGS84)
    c.event("round_trips", n)
    judge(c, back, xyz, units)
    c.close(back.latitude.to(u.deg), lat, 6e-8, "latitude_round_trip")
    c.close(back.height.to(u.km), h, 1e-6, "height_round_trip", rtol=1e-10)
    off = ref.angle_apart(np.asarray(back.longitude.to(u.deg)), lon)
    off[np.abs(lat) > 89.9999999] = 0
    c.close(off, np.zeros(n), 6e-8, "longitude_round_trip")
    # through the celestial frame too
    g = Coordinate(w).convert_to(GCRS)
    via = Coordinate(g).convert_to(WGS84)
    c.close(via.latitude.to(u.deg), lat, 1e-7, "latitude_through_gcrs")
    c.close(via.height.to(u.km), h, 1e-5, "height_through_gcrs", rtol=1e-9)


def surface(c):
    """On and along the ellipsoid: zero height, the known radii, height adds up."""
    rng = c.rng
    n = gen.size(rng, 0)
    lat, lon, _ = geodetic(rng, n)
    jd = gen.julian(rng, n)
    zero = Coordinate(WGS84(jd, lat, lon, np.zeros(n), u.deg, u.m)).convert_to(ITRS)
    p = gen.km(zero)
    c.note(lat=lat, lon=lon)
    c.sig("surface", n, lat[0])
    on = (p[:, 0] ** 2 + p[:, 1] ** 2) / ref.A ** 2 + p[:, 2] ** 2 / ref.B ** 2
    c.close(on, np.ones(n), 1e-11, "not_on_ellipsoid")
    h = rng.uniform(-5, 40000, n)
    high = gen.km(Coordinate(WGS84(jd, lat, lon, h * 1000, u.deg, u.m)).convert_to(ITRS))
    c.close(np.linalg.norm(high - p, axis=1), np.abs(h), 1e-7, "height_is_not_distance",
            rtol=1e-10)
    normal = p / np.array([ref.A ** 2, ref.A ** 2, ref.B ** 2])
    normal /= np.linalg.norm(normal, axis=1)[:, None]
    c.close(high - p, normal * h[:, None], 1e-6, "height_not_along_normal", rtol=1e-9)
    c.event("to_cartesian", 2 * n)


def ground(c):
    """Ground locations stand at their geodetic position."""
    rng = c.rng
    lat, lon, h = gen.location_deg(rng)
    loc, units = gen.make_location(rng, lat, lon, h)
    want = ref.geodetic_to_ecef(lat, lon, h)
    got = np.array([loc.itrs_x.to(u.km), loc.itrs_y.to(u.km), loc.itrs_z.to(u.km)])
    c.note(lat=lat, lon=lon, h=h, units=units)
    c.sig("ground", lat, lon, h)
    c.event("locations")
    c.close(got, want, 1e-6, "location_off", lat=lat, lon=lon, h=h, units=units)
    one = np.array([2459000.5])
    w = WGS84(one, np.array([lat]), np.array([lon]), np.array([h]), u.deg, u.km)
    c.close(gen.km(Coordinate(w).convert_to(ITRS))[0], got, 1e-6, "location_and_position_differ")


QUICK = 5            # times as many in the quick tier
SCENARIOS = [("to_geodetic", to_geodetic, 250, 12000),
             ("to_cartesian", to_cartesian, 200, 10000),
             ("surface", surface, 100, 4000), ("whole", whole, 60, 2000), ("ground", ground, 400, 8000)]
