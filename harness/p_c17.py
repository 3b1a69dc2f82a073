"""C17 visible time windows."""
import warnings
import numpy as np
from celest import units as u
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import WindowCollection
from celest.satellite import Satellite
import gen
import ref
import windows as W

PROPERTY = "C17"
RULE = ("satellites on orbits of all kinds and with drawn visibility patterns (never, "
        "always, single samples, first or last sample, alternating), locations everywhere, "
        "thresholds from 0 to 90 degrees; distinct by (geometry, threshold)")
ASSUMPTIONS = ["elevations within 2e-6 degrees of the threshold may fall on either side, "
               "except where the threshold is exactly a sample's elevation"]
REQUIRED = ["windows", "never_visible", "always_visible", "single_samples",
            "samples_of_long_windows", "rejections_seen", "exact_thresholds", "attitudes",
            "attitudes_edited"]


def generate(c, sat, loc, threshold):
    rng = c.rng
    before = gen.snapshot(sat.position, sat.velocity)
    mode = rng.integers(0, 3)
    t = gen.scalar(rng, threshold)
    w = generate_vtws(sat, loc, t) if mode < 2 else generate_vtws(sat, loc, t,
                                                                  Lighting.ANYTIME)
    c.require(isinstance(w, WindowCollection), "not_a_collection", got=type(w).__name__)
    c.check(gen.same_snapshot(gen.snapshot(sat.position, sat.velocity), before),
            "satellite_modified")
    return w


def visible(c):
    jd, r, v, lat, lon, h, loc, sat, el, threshold, kind = W.workload(c)
    n = len(jd)
    c.sig(kind, jd[0], lat, lon, threshold)
    w = generate(c, sat, loc, threshold)
    band = 2e-6
    must, never = el > threshold + band, el < threshold - band
    s, covered = W.judge(c, w, jd, must, never, "window")
    c.event("never_visible", int(np.all(never)))
    c.event("always_visible", int(np.all(must)))
    c.event("single_samples", sum(i == j for i, j in s))
    c.check(len(w) == len(s), "length")
    # each window carries the attitude towards this location
    direct = sat.attitude(loc) if s else None
    for k, (x, (i, j)) in enumerate(zip(w, s)):
        if k > 3:
            break
        c.event("attitudes")
        a = x.attitude
        t = a.time.to(u.jd2000)
        c.check(bool(np.all(np.isin(jd[i:j + 1], t))), "attitude_misses_window", span=(i, j))
        c.check(a.location is loc or str(a.location) == str(loc), "attitude_location")
        at = np.searchsorted(t, jd[i:j + 1])
        for q in ("roll", "pitch", "yaw"):
            c.close(np.asarray(getattr(a, q).to(u.rad))[at],
                    np.asarray(getattr(direct, q).to(u.rad))[i:j + 1], 1e-9,
                    "attitude_off", angle=q)
    # what the windows of another call are made of is their owner's
    if s and c.rng.random() < .3:
        mine = [x.attitude for x in generate(c, sat, loc, threshold)]
        for a in mine:
            for q in (a.roll, a.pitch, a.yaw):
                if isinstance(q.data, np.ndarray) and q.data.flags.writeable:
                    q.data[...] = 9
        c.event("attitudes_edited", len(mine))
        for again in (generate(c, sat, loc, threshold), w):
            a = again[0].attitude
            at = np.searchsorted(a.time.to(u.jd2000), jd[s[0][0]])
            c.close([np.asarray(getattr(a, q).to(u.rad))[at] for q in ("roll", "pitch", "yaw")],
                    [np.asarray(getattr(direct, q).to(u.rad))[s[0][0]] for q in (
                        "roll", "pitch", "yaw")], 1e-9, "editing_a_window_changes_others")
    # a higher threshold sees no more
    higher = float(np.random.default_rng(c.index).uniform(threshold, 90))
    s2, covered2 = W.judge(c, generate(c, sat, loc, higher), jd, el > higher + band,
                           el < higher - band, "higher")
    c.check(not np.any(covered2 & ~covered), "not_monotonic", thresholds=[threshold, higher])


def long(c):
    """Tens of thousands of samples, in windows as long as they last."""
    rng = c.rng
    lat, lon, h = gen.location_deg(rng)
    n = int(rng.integers(4000, 40000))
    jd = 2459000.5 + np.cumsum(rng.choice([1, 10, 30], n)) / 86400
    threshold = float(rng.choice([0, 10, 30, 80]))
    loc, _ = gen.make_location(rng, lat, lon, h)
    r, v, _ = W.drawn(rng, n, lat, lon, h, threshold, mode=int(rng.choice([0, 8, 8, 6, 4])))
    sat, frame = gen.satellite(rng, jd, r, v, "itrs")
    el = W.elevation(sat, loc)
    c.note(n=n, lat=lat, lon=lon, h=h, threshold=threshold)
    c.sig("long", n, lat, lon)
    w = generate(c, sat, loc, threshold)
    s, _ = W.judge(c, w, jd, el > threshold + 2e-6, el < threshold - 2e-6, "long")
    c.event("samples_of_long_windows", sum(j - i + 1 for i, j in s if j - i > 2000))


def exact(c):
    """A threshold that is exactly some sample's elevation: not greater, not visible."""
    jd, r, v, lat, lon, h, loc, sat, el, _, kind = W.workload(c, 20.0)
    own = W.elevation(sat, loc)
    ok = np.flatnonzero((own >= 0) & (own <= 90))
    if not len(ok):
        return
    threshold = float(own[c.rng.choice(ok)])
    c.note(threshold=threshold)
    c.sig("exact", jd[0], threshold)
    w = generate_vtws(sat, loc, threshold)
    W.judge(c, w, jd, own > threshold, own <= threshold, "exact")
    c.event("exact_thresholds")


def horizon(c):
    """A whole sky of targets at the horizon and the zenith."""
    rng = c.rng
    lat, lon, h = 0.0, float(rng.choice([0.0, 90.0, 180.0])), 0.0
    loc, _ = gen.make_location(rng, lat, lon, h, ("deg", "km"))
    n = 9
    jd = 2459000.5 + np.arange(n) / 1440
    d = rng.uniform(100, 2000, n)
    p = np.radians(lon)
    up = np.array([round(np.cos(p)), round(np.sin(p)), 0.0])
    r = ref.geodetic_to_ecef(lat, lon, h) + d[:, None] * up
    from celest.coordinates.frames.itrs import ITRS
    sat = Satellite(ITRS(jd, *r.T.copy(), u.km), ITRS(jd, *np.tile([[0.0], [0.1], [7.5]],
                                                                   (1, n)), u.km / u.s))
    c.note(lon=lon)
    c.sig("horizon", lon, d[0])
    # nothing exceeds 90 degrees
    c.check(len(generate_vtws(sat, loc, 90)) == 0, "above_ninety")
    s, _ = W.judge(c, generate_vtws(sat, loc, 89), jd, np.ones(n, bool), np.zeros(n, bool),
                   "zenith")
    c.check(s == [(0, n - 1)], "zenith_pass", spans=s)


def rejected(c):
    rng = c.rng
    jd, r, v, lat, lon, h, loc, sat, el, threshold, kind = W.workload(c)
    c.note(kind=kind)
    c.sig("rejected", jd[0])
    for bad in (-1e-9, -1, -90, 90.0000001, 91, 180, float("inf"), -float("inf"),
                float("nan"), np.float64("nan")):
        c.raises(ValueError, lambda: generate_vtws(sat, loc, bad), "threshold_allowed",
                 threshold=bad)
    alone = Satellite(sat.position)
    c.raises(Warning, lambda: generate_vtws(alone, loc, threshold), "no_velocity_allowed")


QUICK = 3            # times as many in the quick tier
SCENARIOS = [("visible", visible, 250, 9000), ("long", long, 8, 200), ("exact", exact, 80, 3000),
             ("horizon", horizon, 12, 60), ("rejected", rejected, 10, 60)]
