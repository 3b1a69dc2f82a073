"""C09 pointing attitude."""
import numpy as np
from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.satellite import Satellite
import gen
import ref

PROPERTY = "C09"
RULE = ("satellites on orbits of all kinds, built from celestial, Earth-fixed and mixed "
        "frames in random units, pointing at locations everywhere (passes near overhead "
        "included); distinct by (orbit, location)")
ASSUMPTIONS = ["roll, pitch and yaw are those of the smallest rotation from nadir to the "
               "line of sight, in the local-vertical local-horizontal frame",
               "velocities are rotated between the frames, as positions are",
               "the attitude is not judged within 0.6 degrees of straight up, where the "
               "smallest rotation is undefined"]
REQUIRED = ["attitudes", "overhead", "rejections_seen", "mixed_frames", "directions_rebuilt",
            "steep", "skimming", "looking_up", "whole_numbers", "namesakes"]


def build(rng, jd, r, v, names):
    """r, v Earth-fixed; each given in the frame of names."""
    out = []
    for x, name, velocity in ((r, names[0], False), (v, names[1], True)):
        if name == "gcrs":
            f = Satellite(ITRS(jd, *x.T.copy(), u.km)).position
            from celest.coordinates.coordinate import Coordinate
            x = gen.km(Coordinate(f).convert_to(GCRS))
        cls = GCRS if name == "gcrs" else ITRS
        out.append((gen.velocity3 if velocity else gen.frame3)(cls, rng, jd, x)[0])
    return Satellite(*out)


def near(rng, r, jd):
    """A location under, or around, some point of the orbit."""
    lat, lon, _ = ref.ecef_to_geodetic(r[[rng.integers(0, len(r))]])
    spread = float(rng.choice([0, 1e-4, .1, 5, 20]))
    lat = float(np.clip(lat[0] + rng.normal() * spread, -90, 90))
    lon = float((lon[0] + rng.normal() * spread + 180) % 360 - 180)
    return lat, lon, float(rng.choice([0, .1, 2.5]))


def read(a):
    return [np.asarray(x.to(u.rad), float) for x in (a.roll, a.pitch, a.yaw)]


def pointing(c):
    rng = c.rng
    jd, r, v, kind = gen.orbit(rng, n=gen.size(rng, .03))
    n = len(jd)
    if rng.random() < .25:                    # rockets, and debris falling
        v, kind = gen.steep(rng, r, v), kind + " steep"
        c.event("steep", n)
    lat, lon, h = near(rng, r, jd) if rng.random() < .6 else gen.location_deg(rng)
    if rng.random() < .2:                     # just above, or below, a mountain nearby
        lat, lon, h0 = ref.ecef_to_geodetic(r)
        k = int(rng.integers(0, n))
        h0 = rng.choice([.05, 1, 5, 20, 60, 100], n) * rng.uniform(.5, 1.5, n)
        r, kind = ref.geodetic_to_ecef(lat, lon, h0), kind + " skimming"
        out = float(rng.choice([.01, .1, 1, 5]))
        lat = float(np.clip(lat[k] + rng.normal() * out, -90, 90))
        lon = float((lon[k] + rng.normal() * out + 180) % 360 - 180)
        h = float(rng.choice([0, 3, 8.8, 20]))
        c.event("skimming", n)
    loc, _ = gen.make_location(rng, lat, lon, h)
    names = [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)]
    whole = rng.random() < .15
    if whole:                                 # whole metres, and whole millimetres a second
        names, kind = ["itrs", "itrs"], kind + " whole"
        r, v = np.round(r * 1e3) / 1e3, np.round(v * 1e6) / 1e6
        c.event("whole_numbers", n)
    c.note(kind=kind, jd=jd, lat=lat, lon=lon, h=h, frames=names, r=r, v=v)
    c.sig(kind, r[0], lat, lon)
    c.state("kind", kind, *names)
    if names[0] != names[1]:
        c.event("mixed_frames")
    sat = build(rng, jd, r, v, names)
    if whole:
        ints = [np.round(x * s).astype(int) for x, s in ((r, 1e3), (v, 1e6))]
        sat = Satellite(ITRS(jd, *ints[0].T.copy(), u.m), ITRS(jd, *ints[1].T.copy(),
                                                               u.mm / u.s))
    before = gen.snapshot(sat.position, sat.velocity)
    where = str(loc)
    a = sat.attitude(loc)
    c.require(type(a) is Attitude, "class", got=type(a).__name__)
    c.check(np.array_equal(a.time.to(u.jd2000), jd), "time_changed")
    c.check(a.location is loc or str(a.location) == where, "location_lost")
    c.check(gen.same_snapshot(gen.snapshot(sat.position, sat.velocity), before) and
            str(loc) == where, "operands_modified")
    roll, pitch, yaw = read(a)
    target = ref.geodetic_to_ecef(lat, lon, h)
    r0, p0, y0, g = ref.attitude(r, v, target)
    c.event("attitudes", n)
    c.event("overhead", int(np.sum(g[:, 2] > .999)))
    c.event("looking_up", int(np.sum(g[:, 2] < 0)))
    ok = g[:, 2] > -1 + 5e-5
    # arcsin and the rounding of line of sight are coarse near a right angle
    d = np.linalg.norm(target - r, axis=1)
    tol = 1e-6 + 1e-5 / d
    c.require(roll.shape == pitch.shape == yaw.shape == (n,), "shape")

    def judge(got, want, weight, kindname):
        e = np.abs((got - want + np.pi) % (2 * np.pi) - np.pi) * weight
        bad = ok & ~(e <= tol)
        if not c.check(not np.any(bad), kindname, worst=float(np.nanmax(e[ok]))
                       if np.any(ok) else None, kind=kind, nan=int(np.isnan(got[ok]).sum()),
                       index=np.argwhere(bad)[:3]):
            return
        c.event("values_compared", int(ok.sum()))
    judge(roll, r0, np.cos(r0), "roll_off")
    judge(pitch, p0, np.hypot(g[:, 0], g[:, 2]), "pitch_off")
    w = np.hypot(g[:, 0] * g[:, 1] / (1 + g[:, 2]), 1 - g[:, 1] ** 2 / (1 + g[:, 2]))
    judge(yaw, y0, np.minimum(w, 1) * (1 + g[:, 2]) / 2, "yaw_off")
    # the angles turn nadir into the line of sight
    b = np.column_stack([-np.sin(pitch) * np.cos(roll), np.sin(roll),
                         np.cos(pitch) * np.cos(roll)])
    c.event("directions_rebuilt", int(ok.sum()))
    c.close(b[ok], g[ok], float(np.max(1e-6 + 1e-5 / d)), "line_of_sight_missed", kind=kind)
    # another place of the same numbers
    twin = gen.namesake(rng, loc)
    if twin and rng.random() < .3:
        c.event("namesakes")
        _, _, _, g2 = ref.attitude(r, v, ref.geodetic_to_ecef(*twin[1]))
        q = read(sat.attitude(twin[0]))
        b = np.column_stack([-np.sin(q[1]) * np.cos(q[0]), np.sin(q[0]),
                             np.cos(q[1]) * np.cos(q[0])])
        d2 = np.linalg.norm(ref.geodetic_to_ecef(*twin[1]) - r, axis=1)
        ok2 = g2[:, 2] > -1 + 5e-5
        c.close(b[ok2], g2[ok2], float(np.max(1e-6 + 1e-5 / d2)), "namesake_missed")
    # independent of how the satellite was built
    other = build(rng, jd, r, v, [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)])
    for x, y, kk in zip(read(other.attitude(loc)), (roll, pitch, yaw),
                        ("roll", "pitch", "yaw")):
        good = ok & (np.abs(np.cos(r0)) > 1e-3) & (w > 1e-3) & (g[:, 2] > -.999) & (
            np.hypot(g[:, 0], g[:, 2]) > 1e-3) & (d > 10)
        e = np.abs((x - y + np.pi) % (2 * np.pi) - np.pi)
        c.close(e[good], np.zeros(int(good.sum())), 1e-5, "construction_dependent", angle=kk)
    # and of the rest of the batch
    i = int(rng.integers(0, n))
    if ok[i] and d[i] > 10 and abs(np.cos(r0[i])) > 1e-3 and w[i] > 1e-3 and g[i, 2] > -.999:
        one = build(rng, jd[i:i + 1], r[i:i + 1], v[i:i + 1], ["itrs", "itrs"])
        q = read(one.attitude(loc))
        c.close([q[0][0], q[2][0]], [roll[i], yaw[i]], 1e-5, "batch_dependent", kind=kind)


def overhead(c):
    """Straight below: no rotation at all (a location on the geocentric vertical)."""
    rng = c.rng
    jd, r, v, kind = gen.orbit(rng, n=5, step=1)
    lon = np.degrees(np.arctan2(r[2, 1], r[2, 0]))
    # the ellipsoid's point on the line to the centre
    u0 = r[2] / np.linalg.norm(r[2])
    s = 1 / np.sqrt((u0[0] ** 2 + u0[1] ** 2) / ref.A ** 2 + u0[2] ** 2 / ref.B ** 2)
    lat, lon, h = (float(q[0]) for q in ref.ecef_to_geodetic((s * u0)[None]))
    loc, _ = gen.make_location(rng, lat, lon, h, ("deg", "km"))
    sat = build(rng, jd, r, v, ["itrs", "itrs"])
    roll, pitch, yaw = read(sat.attitude(loc))
    c.note(kind=kind, lat=lat, lon=lon)
    c.sig("overhead", lat, lon)
    c.event("overhead")
    c.close([roll[2], pitch[2], yaw[2]], [0, 0, 0], 2e-6, "nadir_not_zero")
    # the location lies ahead before the pass and behind after it
    c.check(pitch[0] < 0 < pitch[4], "pitch_sense", pitch=pitch, kind=kind)


def rejected(c):
    rng = c.rng
    jd, r, v, kind = gen.orbit(rng, n=5)
    lat, lon, h = gen.location_deg(rng)
    loc, _ = gen.make_location(rng, lat, lon, h)
    c.note(kind=kind)
    c.sig("rejected", lat)
    for cls in (GCRS, ITRS):
        sat = Satellite(gen.frame3(cls, rng, jd, r)[0])
        c.raises(ValueError, lambda: sat.attitude(loc), "no_velocity_allowed")


QUICK = 2            # times as many in the quick tier
SCENARIOS = [("pointing", pointing, 260, 9000), ("overhead", overhead, 80, 3000),
             ("rejected", rejected, 10, 50)]
