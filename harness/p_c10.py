"""C10 distance, look angle and altitude of a satellite."""
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.satellite import Satellite
import gen
import ref

PROPERTY = "C10"
RULE = ("satellites on orbits and at random places, built from celestial and Earth-fixed "
        "positions in random units, seen with locations everywhere; distinct by inputs")
ASSUMPTIONS = ["angles within 2e-6 degrees (arc cosine near 0)"]
REQUIRED = ["measurements", "answers_edited", "from_gcrs", "from_itrs", "rejections_seen", "overhead",
            "at_the_surface", "namesakes"]


def workload(c):
    rng = c.rng
    if rng.random() < .6:
        jd, r, v, kind = gen.orbit(rng, n=gen.size(rng, .03))
    else:
        n = gen.size(rng, .03)
        jd, r, kind = gen.julian(rng, n), gen.positions(rng, n), "random"
        v = gen.directions(rng, n) * 7
    lat, lon, h = gen.location_deg(rng)
    if rng.random() < .4:
        a, b, _ = ref.ecef_to_geodetic(r[[0]])
        lat, lon = float(a[0]), float(b[0])
    if kind == "random" and rng.random() < .5:   # very nearly straight up from the location
        up = ref.geodetic_to_ecef(lat, lon, h)
        far = up * rng.uniform(1.05, 7, (n, 1))
        off = gen.directions(rng, n) * 10.0 ** rng.uniform(-4, 1, (n, 1))
        r = np.where(rng.random((n, 1)) < .7, far + off, r)
    if kind == "random" and rng.random() < .1:  # on the ellipsoid, or hardly off it
        a, b, _ = ref.ecef_to_geodetic(r)
        r = ref.geodetic_to_ecef(a, b, rng.choice([-1, 0, 1, 1], n) *
                                 10.0 ** rng.uniform(-6, 1, n))
        at = np.linalg.norm(r - ref.geodetic_to_ecef(lat, lon, h), axis=1) < 1
        r = np.where(at[:, None], r * 1.01, r)    # not where the location itself is
        c.event("at_the_surface", n)
    loc, units = gen.make_location(rng, lat, lon, h)
    c.note(kind=kind, jd=jd, r=r, lat=lat, lon=lon, h=h, units=units)
    c.sig(kind, r[0], lat, lon)
    return jd, r, v, kind, lat, lon, h, loc


def measures(c):
    rng = c.rng
    jd, r, v, kind, lat, lon, h, loc = workload(c)
    n = len(jd)
    target = ref.geodetic_to_ecef(lat, lon, h)
    d0 = np.linalg.norm(r - target, axis=1)
    los = r - target
    # stable angle between the vertical and the line of sight
    x, y = los / d0[:, None], r / np.linalg.norm(r, axis=1)[:, None]
    look0 = np.degrees(2 * np.arctan2(np.linalg.norm(x - y, axis=1),
                                      np.linalg.norm(x + y, axis=1)))
    alt0 = ref.ecef_to_geodetic(r)[2]
    c.event("overhead", int(np.sum(look0 < 1)))
    where = str(loc)
    for frame in ("itrs", "gcrs"):
        if frame == "itrs":
            p, _ = gen.frame3(ITRS, rng, jd, r)
            w, _ = gen.velocity3(ITRS, rng, jd, v)
        else:
            g = Coordinate(ITRS(jd, *r.T.copy(), u.km)).convert_to(GCRS)
            p, _ = gen.frame3(GCRS, rng, jd, gen.km(g))
            w, _ = gen.velocity3(GCRS, rng, jd, v)
        c.event("from_" + frame, n)
        before = gen.snapshot(p, w)
        sat = Satellite(p, w) if rng.random() < .5 else Satellite(p)
        mine = gen.snapshot(sat.position, sat.velocity)
        c.check(type(sat.position) is ITRS, "position_frame", got=type(sat.position).__name__)
        c.close(gen.km(sat.position), r, 1e-6, "position_off", rtol=1e-9, frame=frame)
        c.check(np.array_equal(sat.position.time.to(u.jd2000), jd), "time_changed")
        slack = 1e-6 + 2e-10 * np.max(np.linalg.norm(r, axis=1))
        order = rng.permutation(3)
        got = [None] * 3
        for k in order:
            got[k] = (lambda: sat.distance(loc), lambda: sat.look_angle(loc),
                      lambda: sat.altitude())[k]()
        dist, look, alt = got
        c.event("measurements", 3 * n)
        c.close(dist.to(u.m), d0 * 1000, slack * 1000, "distance_off", frame=frame, kind=kind)
        tol = 3e-6 + np.degrees(slack / d0)
        lk = np.asarray(look.to(u.deg), float)
        c.require(lk.shape == (n,), "look_shape", got=lk.shape)
        c.check(bool(np.all(np.abs(lk - look0) <= tol)), "look_angle_off", frame=frame,
                kind=kind, got=lk, want=look0)
        c.check(bool(np.all((lk >= 0) & (lk <= 180))), "look_angle_range", got=lk)
        c.close(alt.to(u.m), alt0 * 1000, slack * 1000, "altitude_off", frame=frame)
        # consistency with the local direction: slant range and elevation
        az = Coordinate(sat.position).convert_to(AzEl, loc)
        rs = np.linalg.norm(target)
        el = np.asarray(az.elevation.to(u.rad))
        rad = np.linalg.norm(r, axis=1)
        # law of cosines with the geocentric elevation differs only by the deflection
        # of the vertical (below 0.2 degrees)
        geo = np.degrees(np.arcsin(np.clip((rad ** 2 - d0 ** 2 - rs ** 2) / (2 * d0 * rs),
                                           -1, 1)))
        near = d0 > 1
        c.check(bool(np.all(np.abs(geo - np.degrees(el))[near] < 0.21)),
                "elevation_inconsistent", frame=frame)
        c.check(gen.same_snapshot(gen.snapshot(p, w), before) and str(loc) == where,
                "operands_modified", frame=frame)
        c.check(gen.same_snapshot(gen.snapshot(sat.position, sat.velocity), mine),
                "satellite_modified")
        # another place of the same numbers
        other = gen.namesake(rng, loc)
        if other and rng.random() < .5:
            e0 = np.linalg.norm(r - ref.geodetic_to_ecef(*other[1]), axis=1)
            c.event("namesakes")
            c.close(sat.distance(other[0]).to(u.km), e0, slack, "distance_to_a_namesake",
                    frame=frame)
            c.close(sat.distance(loc).to(u.km), d0, slack, "distance_off", frame=frame)
            x = r - ref.geodetic_to_ecef(*other[1])
            cosine = np.sum(x * r, axis=1) / np.linalg.norm(r, axis=1) / e0
            c.close(np.cos(sat.look_angle(other[0]).to(u.rad)), cosine, 1e-8 + slack / e0.min(),
                    "look_angle_to_a_namesake", frame=frame)
        # the answers are the caller's own
        again = [lambda: sat.distance(loc), lambda: sat.look_angle(loc), lambda: sat.altitude()]
        kept = [np.array(q.data, copy=True) for q in got]
        for q in got:
            if isinstance(q.data, np.ndarray) and q.data.flags.writeable:
                q.data[...] = -5
                c.event("answers_edited")
        for k in rng.permutation(3):
            c.check(np.array_equal(again[k]().data, kept[k], equal_nan=True),
                    "editing_an_answer_changes_the_next",
                    measure=["distance", "look_angle", "altitude"][k])


def whole(c):
    """Whole numbers of kilometres as integers of any type are the same positions."""
    rng = c.rng
    n = gen.size(rng, 0)
    jd = np.floor(gen.julian(rng, n))
    r = np.round(gen.directions(rng, n) * rng.uniform(6500, 32000, (n, 1)))
    if rng.random() < .3:
        r = np.abs(r)
    lat, lon, h = gen.location_deg(rng)
    loc, _ = gen.make_location(rng, lat, lon, h)
    cls = [ITRS, GCRS][int(rng.integers(0, 2))]
    cols = [gen.integers(rng, x) for x in r.T]
    kinds = [str(x.dtype) for x in cols]
    c.note(jd=jd, r=r, kinds=kinds, lat=lat, lon=lon, h=h)
    c.sig("whole", n, r[0], cls.__name__)
    c.event("whole_numbers", n)
    a = Satellite(cls(gen.integers(rng, jd), *cols, u.km))
    b = Satellite(cls(jd, *r.T.copy(), u.km))
    c.close(a.distance(loc).to(u.km), b.distance(loc).to(u.km), 1e-6, "integers_distance",
            rtol=1e-10, kinds=kinds)
    c.close(a.altitude().to(u.km), b.altitude().to(u.km), 1e-6, "integers_altitude",
            rtol=1e-10, kinds=kinds)
    c.close(np.cos(a.look_angle(loc).to(u.rad)), np.cos(b.look_angle(loc).to(u.rad)), 1e-9,
            "integers_look_angle", kinds=kinds)


def attitude_agrees(c):
    """Roll and pitch tilt the nadir by the look angle."""
    rng = c.rng
    jd, r, v, kind = gen.orbit(rng, n=gen.size(rng, .02))
    lat, lon, h = gen.location_deg(rng)
    loc, _ = gen.make_location(rng, lat, lon, h)
    sat, frame = gen.satellite(rng, jd, r, v)
    c.note(kind=kind, frame=frame, lat=lat, lon=lon, jd=jd, r=r)
    c.sig("attitude", kind, r[0], lat)
    a = sat.attitude(loc)
    roll, pitch = np.asarray(a.roll.to(u.rad)), np.asarray(a.pitch.to(u.rad))
    look = np.asarray(sat.look_angle(loc).to(u.rad))
    c.event("measurements", len(jd))
    c.close(np.cos(roll) * np.cos(pitch), np.cos(look), 1e-7, "tilt_is_not_look_angle",
            kind=kind, frame=frame)


def rejected(c):
    rng = c.rng
    jd, r, v, kind, lat, lon, h, loc = workload(c)
    n = len(jd)
    ok = gen.frame3(ITRS, rng, jd, r)[0]
    w = Coordinate(ok).convert_to(WGS84)
    z = np.ones(n)
    foreign = [w, Coordinate(ok).convert_to(AzEl, loc), LVLH(jd, z, z, z, u.km), r, "x"]
    for x in foreign:
        c.raises(ValueError, lambda: Satellite(x), "foreign_position_allowed",
                 frame=type(x).__name__)
        c.raises(ValueError, lambda: Satellite(ok, x), "foreign_velocity_allowed",
                 frame=type(x).__name__)


QUICK = 5            # times as many in the quick tier
SCENARIOS = [("measures", measures, 150, 8000), ("attitude_agrees", attitude_agrees, 60, 3000),
             ("whole", whole, 40, 1500), ("rejected", rejected, 15, 60)]
