"""C04 celestial to Earth-fixed rotation."""
import erfa
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.units.quantity import Quantity
import gen
import ref
try:
    import celest.coordinates.nutation_precession_matrices as matrices
except ImportError:
    matrices = None

PROPERTY = "C04"
RULE = ("batches of positions at random dates (1900-2100; order, spacing, unit, dtype and "
        "memory layout varied) rotated from GCRS to ITRS and back; non-trivial: more than "
        "one distinct date or position; distinct by inputs")
ASSUMPTIONS = ["erfa's IAU 2006/2000A c2t06a with zero polar motion and UT1=TT is the "
               "independent rotation, accurate far below the 5 arcsec judged",
               "the documented precision of the model is a few arcseconds; 1900-2100"]
REQUIRED = ["rotations", "inverse_rotations", "erfa_compared", "model_compared",
            "same_instant_batches"]

ARCSEC = np.pi / 180 / 3600


def angle(a, b):
    """Angle between rows, stable for small angles."""
    a = a / np.linalg.norm(a, axis=1)[:, None]
    b = b / np.linalg.norm(b, axis=1)[:, None]
    return 2 * np.arctan2(np.linalg.norm(a - b, axis=1), np.linalg.norm(a + b, axis=1))


def model(jd):
    """The documented rotation: sidereal angle, nutation, precession, bias."""
    jd = np.asarray(jd, float)
    t = ref.century(jd)
    zeta = (2.59796176 + 2306.0809506 * t + .3019015 * t ** 2 + .0179663 * t ** 3 -
            .0000327 * t ** 4 - .0000002 * t ** 5) * ARCSEC
    theta = (2004.1917476 * t - .4269353 * t ** 2 - .0418251 * t ** 3 -
             .0000601 * t ** 4 - .0000001 * t ** 5) * ARCSEC
    z = (-2.5976176 + 2306.0803226 * t + 1.0947790 * t ** 2 + .0182273 * t ** 3 +
         .0000470 * t ** 4 - .0000003 * t ** 5) * ARCSEC
    p = ref.r3(-z) @ ref.r2(theta) @ ref.r3(-zeta)
    dpsi, deps = (v * ARCSEC for v in ref.nutation(jd))
    eps = ref.obliquity(jd) * np.pi / 180
    n = ref.r1(-eps - deps) @ ref.r3(-dpsi) @ ref.r1(eps)
    one = np.ones(1)
    b = ref.r1(0.0068192 * ARCSEC * one) @ ref.r2(-0.0166170 * ARCSEC * one) @ \
        ref.r3(-0.01460 * ARCSEC * one)
    return ref.r3(ref.gast_hours(jd) * 15 * np.pi / 180) @ n @ p @ b


def turn(c, jd, xyz, cls, fancy=True):
    """One conversion between GCRS and ITRS, checked for what every one must keep."""
    other = ITRS if cls is GCRS else GCRS
    f, unit = gen.frame3(cls, c.rng, jd, xyz, fancy=fancy)
    before = gen.snapshot(f)
    r = Coordinate(f).convert_to(other)
    c.require(type(r) is other, "frame_class", got=type(r).__name__)
    c.check(gen.same_snapshot(gen.snapshot(f), before), "source_modified", unit=unit)
    c.check(np.array_equal(r.time.to(u.jd2000), jd), "time_changed")
    c.check(str(r.x.unit) == str(r.y.unit) == str(r.z.unit) == str(gen.unit(unit)), "unit_changed",
            unit=unit, got=str(r.x.unit))
    out = gen.km(r)
    c.require(out.shape == xyz.shape, "shape_changed", got=out.shape)
    c.event("rotations" if cls is GCRS else "inverse_rotations", len(jd))
    c.close(np.linalg.norm(out, axis=1), np.linalg.norm(xyz, axis=1), 0,
            "length_changed", rtol=1e-11, unit=unit)
    return out


def batch(c):
    rng = c.rng
    n = gen.size(rng)
    jd, xyz = gen.julian(rng, n), gen.positions(rng, n)
    c.note(n=n, jd=jd, xyz=xyz)
    if n > 1:
        c.sig(n, jd[0], xyz[0, 0])
    itrs = turn(c, jd, xyz, GCRS)
    back = turn(c, jd, itrs, ITRS)
    r = np.linalg.norm(xyz, axis=1)
    c.close(np.linalg.norm(back - xyz, axis=1) / r, np.zeros(n), 1e-10, "not_inverse")
    gcrs = turn(c, jd, xyz, ITRS)
    again = turn(c, jd, gcrs, GCRS)
    c.close(np.linalg.norm(again - xyz, axis=1) / r, np.zeros(n), 1e-10,
            "not_inverse_from_itrs")
    # against erfa: arcseconds
    m = ref.erfa_c2t(jd)
    want = np.einsum("kij,kj->ki", m, xyz)
    c.event("erfa_compared", n)
    c.close(angle(itrs, want) / ARCSEC, np.zeros(n), 5.0, "gcrs_to_itrs_off", jd=jd[0])
    c.close(angle(gcrs, np.einsum("kji,kj->ki", m, xyz)) / ARCSEC, np.zeros(n), 5.0,
            "itrs_to_gcrs_off", jd=jd[0])
    c.state("erfa_arcsec", int(np.max(angle(itrs, want)) / ARCSEC * 4))
    # against the documented series: hundredths
    want = np.einsum("kij,kj->ki", model(jd), xyz)
    c.event("model_compared", n)
    c.close(angle(itrs, want) / ARCSEC, np.zeros(n), 0.008, "model_off", jd=jd[0])


def instant(c):
    """One instant, many vectors: a proper, linear rotation."""
    rng = c.rng
    n = int(rng.integers(3, 40))
    when = float(gen.julian(rng, 1)[0])
    if rng.random() < 0.2:                 # far dates too: still a rotation
        when = float(rng.uniform(2400000.5, 2500000.5))
    jd = np.full(n, when)
    xyz = gen.positions(rng, n)
    k = rng.uniform(-2, 2, 2)
    xyz = np.vstack([xyz, k @ xyz[:2], -xyz[0]])
    jd = np.full(len(xyz), when)
    c.note(jd=when, n=n, xyz=xyz)
    c.sig(when, n)
    for cls in (GCRS, ITRS):
        out = turn(c, jd, xyz, cls)
        s = np.linalg.norm(xyz, axis=1)
        c.event("same_instant_batches")
        c.close(out @ out.T / np.outer(s, s), xyz @ xyz.T / np.outer(s, s), 1e-10,
                "angles_changed", jd=when)
        c.close(np.linalg.det(out[:3] / s[:3, None]), np.linalg.det(xyz[:3] / s[:3, None]),
                1e-10, "handedness_changed", jd=when)
        c.close(out[n] / s[0], k @ out[:2] / s[0], 1e-9, "not_linear", jd=when)
        c.close(out[n + 1] / s[0], -out[0] / s[0], 1e-10, "not_odd", jd=when)
        # the same rotation, one at a time
        i = int(rng.integers(0, n))
        alone = turn(c, jd[:1], xyz[i:i + 1], cls)
        c.close(alone[0] / s[i], out[i] / s[i], 1e-11, "depends_on_batch", jd=when)


def whole(c):
    """Whole numbers given as integers or single floats rotate like the same doubles."""
    rng = c.rng
    n = gen.size(rng, 0)
    jd = np.floor(gen.julian(rng, n))
    xyz = np.round(gen.positions(rng, n))
    if rng.random() < .3:
        xyz = np.abs(xyz)
    c.note(jd=jd, xyz=xyz)
    c.sig("whole", n, jd[0])
    dtype = [np.int64, np.int32, np.float32][rng.integers(0, 3)]
    for cls, other in ((GCRS, ITRS), (ITRS, GCRS)):
        cols = [xyz[:, i].astype(dtype) for i in range(3)]
        if rng.random() < .3:           # of several kinds
            k = int(rng.integers(0, 3))
            cols[k] = xyz[:, k].astype([np.float64, np.int64, np.float32][rng.integers(0, 3)])
        if rng.random() < .4:           # of any type which holds them
            cols = [gen.integers(rng, x) for x in xyz.T]
        t = gen.integers(rng, jd) if rng.random() < .5 else jd
        out = gen.km(Coordinate(cls(t, *cols, u.km)).convert_to(other))
        want = gen.km(Coordinate(cls(jd, *xyz.T.copy(), u.km)).convert_to(other))
        c.event("rotations", n)
        c.close(out, want, 1e-6, "integers_differ", frm=cls.__name__)


def earth_turns(c):
    """An Earth-fixed point seen from the stars turns eastwards at the sidereal rate."""
    rng = c.rng
    jd0 = float(gen.julian(rng, 1)[0])
    steps = np.sort(rng.uniform(0, 1, 20))
    jd = jd0 + steps
    xyz = np.repeat(gen.positions(rng, 1), 20, axis=0)
    r, lat = np.linalg.norm(xyz[0]), np.arcsin(xyz[0, 2] / np.linalg.norm(xyz[0]))
    c.note(jd0=jd0, xyz=xyz[0])
    c.sig("turns", jd0)
    if abs(lat) > 1.5:
        return
    out = turn(c, jd, xyz, ITRS)
    # measured about the celestial pole of date
    pole = turn(c, jd, np.repeat([[0.0, 0.0, r]], 20, axis=0), ITRS) / r
    c.close(np.einsum("ij,ij->i", out, pole) / r, np.full(20, np.sin(lat)), 1e-10,
            "pole_distance_changed", jd=jd0)
    p0 = pole[0]
    e = np.cross(p0, out[0])
    e /= np.linalg.norm(e)
    f = np.cross(e, p0)
    ra = np.unwrap(np.arctan2(out @ e, out @ f))
    rate = 360.98564736629
    want = (jd - jd[0]) * rate * np.pi / 180
    d = np.degrees((ra - want + np.pi) % (2 * np.pi) - np.pi)
    c.event("earth_turns", 20)
    c.close(d, np.zeros(20), 2 / 3600 / max(1e-3, np.cos(lat)), "sidereal_rate", jd=jd0)


def parts(c):
    """The bias, precession and nutation rotations, where they can be observed."""
    rng = c.rng
    n = gen.size(rng, 0.02)
    jd = gen.julian(rng, n)
    q = Quantity(jd.copy(), u.jd2000)
    c.note(jd=jd)
    c.sig("parts", n, jd[0])
    a, b = ref.split(jd)
    rb, rp = erfa.bp06(a, b)[:2]
    rn = erfa.num06a(a, b)
    for name, args, want, tol in (("bias_matrix", (), rb[:1], 1e-3),
                                  ("precession_matrix", (q,), rp, 0.05),
                                  ("nutation_matrix", (q,), rn, 2.0)):
        fn = getattr(matrices, name, None)
        if fn is None:
            continue
        m = np.asarray(fn(*args)).reshape(-1, 3, 3)
        c.event("matrices", len(m))
        c.close(m @ np.swapaxes(m, 1, 2), np.broadcast_to(np.eye(3), m.shape), 1e-12,
                "not_orthonormal", matrix=name)
        c.close(np.linalg.det(m), np.ones(len(m)), 1e-12, "not_proper", matrix=name)
        d = m @ np.swapaxes(want, 1, 2)
        off = np.linalg.norm(np.stack([d[:, 2, 1] - d[:, 1, 2], d[:, 0, 2] - d[:, 2, 0],
                                       d[:, 1, 0] - d[:, 0, 1]]), axis=0) / 2 / ARCSEC
        c.close(off, np.zeros(len(m)), tol, "matrix_off", matrix=name)
        c.check(np.array_equal(q.data, jd), "time_modified", matrix=name)


QUICK = 3            # times as many in the quick tier
SCENARIOS = [("batch", batch, 150, 6000), ("instant", instant, 60, 3000),
             ("whole", whole, 20, 500), ("earth_turns", earth_turns, 30, 1000),
             ("parts", parts, 60, 2000)]
