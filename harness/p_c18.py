"""C18 day and night constraints of visible time windows."""
import enum
import os
import numpy as np
import erfa
from jplephem.spk import SPK
import celest
from celest import units as u
from celest.coordinates.frames.itrs import ITRS
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.satellite import Satellite
import gen
import ref
import windows as W

PROPERTY = "C18"
RULE = ("visible passes and drawn visibility patterns over days, seasons and latitudes "
        "(polar day and night included), for day, night and any lighting; distinct by "
        "(geometry, threshold)")
ASSUMPTIONS = ["the DE421 kernel is not in the repository: its segments are served by "
               "erfa's epv00, with an arbitrary Earth-Moon barycentre offset",
               "a Sun within 0.003 degrees of the horizon may count either way; no "
               "refraction, the Sun's centre"]
REQUIRED = ["day_samples", "night_samples", "windows", "split_by_sunset", "kernel_reads",
            "rejections_seen", "samples_within_a_quarter_degree"]

AU = 149597870.7


class Segment:
    """Positions in km, of shape (3,) or (3, n)."""

    def __init__(self, kernel, function):
        self.kernel, self.function = kernel, function

    def compute(self, tdb, tdb2=0.0):
        self.kernel.reads += 1
        jd = np.asarray(tdb, float) + tdb2
        a, b = ref.split(np.atleast_1d(jd))
        x = self.function(a, b).T
        return x[:, 0] if jd.ndim == 0 else x

    def compute_and_differentiate(self, tdb, tdb2=0.0):
        raise NotImplementedError


REACH = [1]


def moon(a, b):
    """Some offset of the Earth from the Earth-Moon barycentre, 4670 km long or far more."""
    t = 2 * np.pi * (a - 2451545 + b) / (27.32 if REACH[0] == 1 else 1.3)
    return 4670 * REACH[0] * np.column_stack([np.cos(t), np.sin(t) * .92, np.sin(t) * .4])


def origin(a, b):
    """What all positions are counted from is of no consequence: here it may fly about."""
    if REACH[0] == 1:
        return 0.0
    t = 2 * np.pi * (a - 2451545 + b) / .7
    return 9000 * REACH[0] * np.column_stack([np.sin(t), np.cos(t), -np.sin(t)])


class Kernel:
    """Stands in for the missing DE421 file."""

    def __init__(self, log, path=None):
        self.log, self.reads, self.closed, self.path = log, 0, False, path
        log.append(self)

    def __getitem__(self, key):
        def earth(a, b):
            return erfa.epv00(a, b)[1]["p"] * AU + origin(a, b)

        def sun(a, b):
            h, e = erfa.epv00(a, b)
            return (e["p"] - h["p"]) * AU + origin(a, b)
        table = {(0, 10): sun, (0, 3): lambda a, b: earth(a, b) + moon(a, b),
                 (3, 399): lambda a, b: -moon(a, b),
                 (3, 301): lambda a, b: moon(a, b) * 81.3}
        return Segment(self, table[tuple(key)])

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.closed = True


EPHEMERIS = os.path.realpath(os.path.join(os.path.dirname(celest.__file__), "data",
                                          "de421.bsp"))


class patched:
    """The ephemeris file replaced while in here."""

    def __init__(self, rng=None):
        self.reach = 1 if rng is None else int(rng.choice([1, 1, 300, 5000]))

    def __enter__(self):
        REACH[0] = self.reach
        self.kept = {k: SPK.__dict__[k] for k in ("open", "close") if k in SPK.__dict__}
        self.log = []
        SPK.open = classmethod(lambda cls, path: Kernel(self.log, path))
        original = self.kept["close"]
        SPK.close = lambda k: k.close() if isinstance(k, Kernel) else original(k)
        return self.log

    def __exit__(self, *_):
        for k, v in self.kept.items():
            setattr(SPK, k, v)


def sun_itrs(jd):
    return np.einsum("kij,kj->ki", ref.erfa_c2t(jd), ref.sun_gcrs_km(jd))


def sun_elevation(jd, lat, lon, h, r=None):
    r = sun_itrs(jd) if r is None else r
    return ref.azel(r, lat, lon, h)[1]


BAND = 0.003


def lit(c):
    rng = c.rng
    jd, r, v, lat, lon, h, loc, sat, el, threshold, kind = W.workload(c)
    c.sig(kind, jd[0], lat, lon, threshold)
    sun = sun_elevation(jd, lat, lon, h)
    up, down = el > threshold + 2e-6, el < threshold - 2e-6
    order = rng.permutation(3)
    got = {}
    before = gen.snapshot(sat.position, sat.velocity)
    with patched(rng) as log:
        for k in order:
            light = [Lighting.NIGHTTIME, Lighting.ANYTIME, Lighting.DAYTIME][k]
            got[light] = generate_vtws(sat, loc, threshold, light)
    c.event("kernel_reads", sum(k.reads for k in log))
    c.check(all(k.closed for k in log), "ephemeris_left_open")
    c.check(all(os.path.realpath(k.path) == EPHEMERIS for k in log),
            "not_the_ephemeris", paths=[str(k.path) for k in log][:2])
    c.check(gen.same_snapshot(gen.snapshot(sat.position, sat.velocity), before),
            "satellite_modified")
    day, night = sun > BAND, sun < -BAND
    c.event("day_samples", int(np.sum(day & up)))
    c.event("night_samples", int(np.sum(night & up)))
    c.event("split_by_sunset", int(np.any(np.diff(np.sign(sun[up])) != 0)) if np.any(up) else 0)
    _, cov_any = W.judge(c, got[Lighting.ANYTIME], jd, up, down, "any")
    _, cov_day = W.judge(c, got[Lighting.DAYTIME], jd, up & day, down | night, "day")
    _, cov_night = W.judge(c, got[Lighting.NIGHTTIME], jd, up & night, down | day, "night")
    c.check(not np.any(cov_day & cov_night), "day_and_night_overlap")
    c.check(np.array_equal(cov_day | cov_night, cov_any), "day_and_night_do_not_add_up",
            lost=np.flatnonzero(cov_any & ~(cov_day | cov_night))[:10],
            gained=np.flatnonzero((cov_day | cov_night) & ~cov_any)[:10])
    for w in got.values():
        for x in list(w)[:1]:
            c.check(str(x.attitude.location) == str(loc), "attitude_location")


def seasons(c):
    """Always-visible satellites over days: windows are the days and nights."""
    rng = c.rng
    lat = float(rng.choice([-89, -70, -45, 0, 30, 52, 66.5, 78, 89.9])) + float(
        rng.uniform(-.4, .1))
    lon = float(rng.uniform(-180, 180))
    n = int(rng.choice([100, 300]))
    jd = rng.uniform(2451545, 2466000) + np.arange(n) * float(rng.choice([600, 1800])) / 86400
    r, v, _ = W.drawn(rng, n, lat, lon, 0.0, 40.0)
    up = ref.geodetic_to_ecef(lat, lon, 0.0)
    normal = np.array([np.cos(np.radians(lat)) * np.cos(np.radians(lon)),
                       np.cos(np.radians(lat)) * np.sin(np.radians(lon)),
                       np.sin(np.radians(lat))])
    r = up + rng.uniform(500, 2000, n)[:, None] * normal
    w = np.cross(r, [.3, -.2, .9] if abs(lat) < 60 else [.9, .3, .1])
    sat = Satellite(ITRS(jd, *r.T.copy(), u.km), ITRS(jd, *(w / 6000).T.copy(), u.km / u.s))
    loc, _ = gen.make_location(rng, lat, lon, 0.0)
    sun = sun_elevation(jd, lat, lon, 0.0)
    c.note(lat=lat, lon=lon, jd=jd)
    c.sig("seasons", lat, lon, jd[0])
    c.state("season", int(lat // 20), bool(np.all(sun > 0)), bool(np.all(sun < 0)))
    with patched(rng):
        d = generate_vtws(sat, loc, 60, Lighting.DAYTIME)
        k = generate_vtws(sat, loc, 60, Lighting.NIGHTTIME)
    no = np.zeros(n, bool)
    W.judge(c, d, jd, sun > BAND, no | (sun < -BAND), "season_day")
    W.judge(c, k, jd, sun < -BAND, no | (sun > BAND), "season_night")
    if rng.random() < .4:                        # the same ends, other instants between
        t = jd[0] + (jd[-1] - jd[0]) * np.linspace(0, 1, n) ** float(rng.choice([.5, 2]))
        t[-1] = jd[-1]
        sat = Satellite(ITRS(t, *r.T.copy(), u.km), ITRS(t, *(w / 6000).T.copy(), u.km / u.s))
        s = sun_elevation(t, lat, lon, 0.0)
        with patched(rng):
            W.judge(c, generate_vtws(sat, loc, 60, Lighting.DAYTIME), t, s > BAND, s < -BAND,
                    "season_day")
        c.event("same_ends")
    c.event("day_samples", int(np.sum(sun > 0)))
    c.event("night_samples", int(np.sum(sun < 0)))


def terminator(c):
    """Samples crowded about sunrise and sunset."""
    rng = c.rng
    lat, lon = float(rng.uniform(-66, 66)), float(rng.uniform(-180, 180))
    t = rng.uniform(2451545, 2466000) + np.arange(0, 1.1, 5 / 1440)
    s = sun_elevation(t, lat, lon, 0.0)
    i = np.flatnonzero(s[1:] * s[:-1] < 0)
    if not len(i):
        return
    near = []
    for k in i:
        a, b = t[k], t[k + 1]
        for _ in range(25):
            m = (a + b) / 2
            if sun_elevation(np.array([m]), lat, lon, 0.0)[0] * s[k] > 0:
                a = m
            else:
                b = m
        near.append(a + np.sort(rng.uniform(1, 30, 12) * rng.choice([-1, 1], 12)) *
                    float(rng.choice([1.5, 10])) / 86400)
    jd = np.unique(np.concatenate(near))
    if rng.random() < .4:                        # nothing but a minute or ten
        jd = near[0][0] + np.arange(int(rng.choice([5, 13, 40]))) * float(
            rng.choice([1, 4, 20])) / 86400 + rng.uniform(-60, 20) / 86400
    n = len(jd)
    p, l = np.radians(lat), np.radians(lon)
    r = ref.geodetic_to_ecef(lat, lon, 0.0) + rng.uniform(500, 2000, n)[:, None] * np.array(
        [np.cos(p) * np.cos(l), np.cos(p) * np.sin(l), np.sin(p)])
    w = np.cross(r, [.3, -.2, .9])
    sat = Satellite(ITRS(jd, *r.T.copy(), u.km), ITRS(jd, *(w / 6000).T.copy(), u.km / u.s))
    loc, _ = gen.make_location(rng, lat, lon, 0.0)
    sun = sun_elevation(jd, lat, lon, 0.0)
    c.note(lat=lat, lon=lon, jd=jd, sun=sun)
    c.sig("terminator", lat, lon, jd[0])
    with patched(rng):
        d = generate_vtws(sat, loc, 60, Lighting.DAYTIME)
        k = generate_vtws(sat, loc, 60, Lighting.NIGHTTIME)
    W.judge(c, d, jd, sun > BAND, sun < -BAND, "sunset_day")
    W.judge(c, k, jd, sun < -BAND, sun > BAND, "sunset_night")
    c.event("samples_within_a_quarter_degree", int(np.sum(abs(sun) < .25)))


def rejected(c):
    rng = c.rng
    jd, r, v, lat, lon, h, loc, sat, el, threshold, kind = W.workload(c)
    c.note(kind=kind)
    c.sig("rejected", jd[0])
    if not np.any(el > threshold + 1e-5):
        return
    with patched(rng):
        twin = enum.Enum("Lighting", {m.name: m.value for m in Lighting})
        whole = enum.IntEnum("Lighting", {m.name: m.value for m in Lighting})
        for bad in (None, 2, "DAYTIME", 0.5, 0, 1, -1, True, False, 1.0, np.int64(1), "ANYTIME",
                    "", Lighting, *twin, *whole):
            c.raises(ValueError, lambda: generate_vtws(sat, loc, threshold, bad),
                     "lighting_allowed", lighting=repr(bad))


SCENARIOS = [("lit", lit, 150, 6000), ("seasons", seasons, 80, 3000),
             ("terminator", terminator, 60, 2000),
             ("rejected", rejected, 15, 60)]
