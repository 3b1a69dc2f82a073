"""C08 local-vertical local-horizontal frame."""
import numpy as np
from celest import units as u
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.transforms import _gcrs_to_lvlh
import gen
import ref

PROPERTY = "C08"
RULE = ("states of orbits of all kinds and of random directions, in random units; the "
        "orbiting frame's position and velocity against the definition; distinct by state")
ASSUMPTIONS = ["position and velocity are not parallel (the frame is undefined there)"]
REQUIRED = ["states", "orbits", "nearly_radial", "rejections_seen"]


def states(rng, c):
    if rng.random() < .5:
        jd, r, v, kind = gen.orbit(rng, n=gen.size(rng, .03))
        c.event("orbits")
        return jd, r, v, kind
    n = gen.size(rng, .03)
    r = gen.positions(rng, n)
    v = gen.directions(rng, n) * rng.uniform(.5, 11, n)[:, None]
    # climbing and falling steeply
    some = rng.random(n) < .3
    v[some] = gen.steep(rng, r[some], v[some])
    if rng.random() < .2:                        # all but straight up or down
        side = np.cross(r, gen.directions(rng, n) + [.1, .2, .3])
        side /= np.linalg.norm(side, axis=1)[:, None]
        up = r / np.linalg.norm(r, axis=1)[:, None] * rng.choice([-1, 1], n)[:, None]
        a = 10.0 ** rng.uniform(-5, -2, n)[:, None]
        c.event("nearly_radial", n)
        return gen.julian(rng, n), r, np.linalg.norm(v, axis=1)[:, None] * (
            np.cos(a) * up + np.sin(a) * side), "nearly radial"
    bad = np.linalg.norm(np.cross(r, v), axis=1) < 0.01 * np.linalg.norm(
        r, axis=1) * np.linalg.norm(v, axis=1)
    v[bad] = np.cross(r[bad], [1.0, 2.0, 3.0]) / 9000
    return gen.julian(rng, n), r, v, "random"


def definition(c):
    rng = c.rng
    jd, r, v, kind = states(rng, c)
    n = len(jd)
    c.note(kind=kind, jd=jd, r=r, v=v)
    c.sig(kind, r[0], v[0], n)
    c.state("kind", kind)
    p, pn = gen.frame3(GCRS, rng, jd, r)
    w, vn = gen.velocity3(GCRS, rng, jd, v)
    before = gen.snapshot(p, w)
    lp, lv = _gcrs_to_lvlh(p, w)
    c.event("states", n)
    c.require(type(lp) is LVLH and type(lv) is LVLH, "frame_class")
    c.check(gen.same_snapshot(gen.snapshot(p, w), before), "source_modified")
    for f in (lp, lv):
        c.check(np.array_equal(f.time.to(u.jd2000), jd), "time_changed")
    c.check(str(lp.x.unit) == str(p.x.unit) and str(lv.x.unit) == str(w.x.unit),
            "unit_changed", got=[str(lp.x.unit), str(lv.x.unit)])
    norm = np.linalg.norm(r, axis=1)
    x = gen.km(lp)
    z = np.zeros(n)
    # position: straight up the z axis
    c.close(x / norm[:, None], np.column_stack([z, z, -np.ones(n)]), 1e-9, "position_off",
            kind=kind)
    y = gen.kms(lv)
    speed = np.linalg.norm(v, axis=1)
    h = np.linalg.norm(np.cross(r, v), axis=1)
    want = np.column_stack([h / norm, z, -np.einsum("ij,ij->i", r, v) / norm])
    # across the orbital plane rounding counts the more, the more radial the motion
    c.close(y / speed[:, None], want / speed[:, None], np.array([1e-12, 1e-9, 1e-12]),
            "velocity_off", kind=kind)
    c.close(np.linalg.norm(y, axis=1), speed, 0, "speed_changed", rtol=1e-9)
    # one at a time
    i = int(rng.integers(0, n))
    a, _ = gen.frame3(GCRS, rng, jd[i:i + 1], r[i:i + 1], pn)
    b, _ = gen.velocity3(GCRS, rng, jd[i:i + 1], v[i:i + 1], vn)
    _, one = _gcrs_to_lvlh(a, b)
    c.close(gen.kms(one)[0], y[i], 1e-9, "depends_on_batch")


def covariance(c):
    """The frame turns with the orbit: a rotated state has the same local velocity."""
    rng = c.rng
    jd, r, v, kind = states(rng, c)
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(q) < 0:
        q[0] *= -1
    c.note(kind=kind, r=r, v=v, rotation=q)
    c.sig("rotated", kind, r[0])
    out = []
    for a, b in ((r, v), (r @ q.T, v @ q.T)):
        p, _ = gen.frame3(GCRS, rng, jd, a)
        w, _ = gen.velocity3(GCRS, rng, jd, b)
        out.append([gen.km(_gcrs_to_lvlh(p, w)[0]), gen.kms(_gcrs_to_lvlh(p, w)[1])])
        c.event("states", len(jd))
    c.close(out[0][0], out[1][0], 1e-5, "position_not_covariant", rtol=1e-9)
    c.close(out[0][1], out[1][1], 1e-8, "velocity_not_covariant", rtol=1e-9)


def rejected(c):
    rng = c.rng
    jd, r, v, kind = states(rng, c)
    c.note(kind=kind)
    c.sig("rejected", r[0])
    g, gv = gen.frame3(GCRS, rng, jd, r)[0], gen.velocity3(GCRS, rng, jd, v)[0]
    i, iv = gen.frame3(ITRS, rng, jd, r)[0], gen.velocity3(ITRS, rng, jd, v)[0]
    for a, b in ((i, gv), (g, iv), (i, iv), (None, gv), (g, None)):
        c.raises(ValueError, lambda: _gcrs_to_lvlh(a, b), "wrong_frame_allowed",
                 position=type(a).__name__, velocity=type(b).__name__)


QUICK = 5            # times as many in the quick tier
SCENARIOS = [("definition", definition, 1000, 24000), ("covariance", covariance, 200, 6000),
             ("rejected", rejected, 10, 60)]
