"""Shared workload and oracle for visible time windows."""
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.itrs import ITRS
from celest.encounter.window_handling import VisibleTimeWindow
from celest.satellite import Satellite
import gen
import ref
import p_c06
import p_c09


def pattern(rng, n, mode=None):
    """A visibility pattern: which samples rise above the threshold."""
    mode = int(rng.integers(0, 8)) if mode is None else mode
    m = np.zeros(n, bool)
    if mode == 0:
        m[:] = True
    elif mode == 1:
        pass
    elif mode == 2:                                   # one sample, anywhere
        m[rng.choice([0, n - 1, rng.integers(0, n)])] = True
    elif mode == 3:                                   # alternating
        m[int(rng.integers(0, 2))::2] = True
    elif mode == 4:                                   # runs of random lengths
        i, on = 0, bool(rng.integers(0, 2))
        while i < n:
            k = int(rng.integers(1, 8))
            m[i:i + k] = on
            i, on = i + k, not on
    elif mode == 5:                                   # equal runs
        k = int(rng.integers(1, 5))
        m = (np.arange(n) // k) % 2 == rng.integers(0, 2)
    elif mode == 8:                                   # few and long
        for i in rng.integers(0, n, 3):
            m[i:i + int(rng.integers(1, n))] = rng.random() < .7
    elif mode == 6:                                   # only the ends
        m[0] = m[-1] = True
    else:
        m = rng.random(n) < rng.choice([.1, .5, .9])
    return m, mode


def drawn(rng, n, lat, lon, h, threshold, mode=None):
    """Positions (ITRS km) with a drawn visibility pattern about a location."""
    m, mode = pattern(rng, n, mode)
    gap = float(rng.choice([1e-4, 1e-2, 1, 10]))
    el = np.where(m, np.minimum(threshold + gap * rng.uniform(.5, 1, n), 90),
                  threshold - gap * rng.uniform(.5, 1, n))
    az = rng.uniform(0, 360, n)
    d = rng.uniform(400, 3000, n)
    A, E = np.radians(az), np.radians(el)
    p, l = np.radians(lat), np.radians(lon)
    east = np.array([-np.sin(l), np.cos(l), 0])
    up = np.array([np.cos(p) * np.cos(l), np.cos(p) * np.sin(l), np.sin(p)])
    north = np.cross(up, east)
    v = np.outer(np.sin(A) * np.cos(E), east) + np.outer(np.cos(A) * np.cos(E), north) + \
        np.outer(np.sin(E), up)
    r = ref.geodetic_to_ecef(lat, lon, h) + d[:, None] * v
    w = np.cross(r, gen.directions(rng, n) + [.1, .2, .3])
    w = 7.5 * w / np.linalg.norm(w, axis=1)[:, None]
    return r, w, mode


def workload(c, threshold=None):
    """A satellite, a location and the geometry between them."""
    rng = c.rng
    lat, lon, h = gen.location_deg(rng)
    if rng.random() < .5:
        n = int(rng.choice([1, 2, 3, 5, 20, 60, 150]))
        jd = rng.uniform(2455000, 2462000) + np.cumsum(rng.choice(
            [10, 30, 60], n) if rng.random() < .5 else rng.uniform(1, 5000, n)) / 86400
        if rng.random() < .2:                         # data with holes in it
            jd = jd + np.cumsum(rng.choice([0, 0, 0, .3, 1, 100], n))
        threshold = float(rng.choice([0, 5, 10, 30, 45, 80])) if threshold is None \
            else threshold
        r, v, mode = drawn(rng, n, lat, lon, h, threshold)
        kind = "drawn %d" % mode
    else:
        jd, r, v, kind = gen.orbit(rng)
        threshold = float(rng.choice([0, 0, 5, 10, 10.5, 30, 60, 89, 90])) \
            if threshold is None else threshold
        if rng.random() < .5:
            lat, lon, h = p_c09.near(rng, r, jd)
    loc, units = gen.make_location(rng, lat, lon, h)
    names = [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)]
    sat = p_c09.build(rng, jd, r, v, names)
    c.note(kind=kind, jd=jd, lat=lat, lon=lon, h=h, threshold=threshold, frames=names, r=r)
    c.state("pattern", kind)
    _, el, _, _ = ref.azel(r, lat, lon, h)
    return jd, r, v, lat, lon, h, loc, sat, el, threshold, kind


def elevation(sat, loc):
    return np.asarray(Coordinate(sat.position).convert_to(AzEl, loc).elevation.to(u.deg))


def spans(c, windows, jd, kind):
    """(first, last) sample of each window; times are sample times, in order, disjoint."""
    out = []
    for w in windows:
        c.require(isinstance(w, VisibleTimeWindow), kind + "_class", got=type(w).__name__)
        ends = []
        for t in (w.rise_time.to(u.jd2000), w.set_time.to(u.jd2000)):
            i = np.flatnonzero(jd == t)
            c.require(len(i) == 1 and np.ndim(t) == 0, kind + "_not_a_sample_time", time=t)
            ends.append(int(i[0]))
        c.check(ends[0] <= ends[1], kind + "_sets_before_rise", span=ends)
        out.append(tuple(ends))
    for a, b in zip(out, out[1:]):
        c.check(a[1] + 1 < b[0], kind + "_not_maximal_or_in_order", first=a, second=b)
    return out


def judge(c, windows, jd, must, never, kind):
    """Windows cover every sample that must be in one, none that may not be."""
    s = spans(c, windows, jd, kind)
    covered = np.zeros(len(jd), bool)
    for i, j in s:
        covered[i:j + 1] = True
    c.check(not np.any(must & ~covered), kind + "_visible_sample_left_out",
            samples=np.flatnonzero(must & ~covered)[:10], spans=s[:10])
    c.check(not np.any(never & covered), kind + "_invisible_sample_included",
            samples=np.flatnonzero(never & covered)[:10], spans=s[:10])
    c.event("windows", len(s))
    c.event("samples_judged", len(jd))
    for i, j in s:
        c.state("span_kind", i == 0, j == len(jd) - 1, i == j)
    return s, covered
