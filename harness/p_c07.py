"""C07 conversions between frames as a whole: paths, batches, units, time."""
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
import gen
import ref

PROPERTY = "C07"
RULE = ("every pair of source and target frame, and random chains of conversions, over "
        "random batches; the same batch split, joined, permuted, repeated and in other units "
        "must give the same answers; distinct by (frames, inputs)")
ASSUMPTIONS = ["agreement within 1e-6 km and 1e-6 degrees: rounding of the transforms"]
REQUIRED = ["pairs", "chains", "permutations", "splits", "unit_changes", "rejections_seen",
            "same_frame", "answers_of_a_shared_coordinate", "answers_edited",
            "samples_beyond_use", "huge_batches"]

FRAMES = {"GCRS": GCRS, "ITRS": ITRS, "WGS84": WGS84}


def make(rng, name, jd, xyz):
    """xyz: Earth-fixed kilometres, used to pick sensible values in any frame."""
    if name == "WGS84":
        lat, lon, h = ref.ecef_to_geodetic(xyz)
        return gen.wgs(rng, jd, lat, lon, h)[0]
    return gen.frame3(FRAMES[name], rng, jd, xyz)[0]


def table(f):
    """Plain numbers in km and degrees, and which columns are angles/longitudes."""
    if isinstance(f, (GCRS, ITRS)):
        return gen.km(f)
    if isinstance(f, WGS84):
        return np.column_stack([f.latitude.to(u.deg), f.longitude.to(u.deg),
                                f.height.to(u.km)])
    return np.column_stack([f.azimuth.to(u.deg), f.elevation.to(u.deg)])


def difference(name, a, b):
    d = np.abs(a - b)
    if name == "WGS84":
        d[:, 1] = ref.angle_apart(a[:, 1], b[:, 1]) * np.cos(np.radians(b[:, 0]))
    elif name == "AzEl":
        d[:, 0] = ref.angle_apart(a[:, 0], b[:, 0]) * np.cos(np.radians(b[:, 1]))
    return d


def same(c, name, a, b, kind, scale=1.0, **detail):
    c.run.evaluations += 1
    c.event("values_compared", a.size)
    if not c.check(a.shape == b.shape, kind + ":shape", got=a.shape, want=b.shape, **detail):
        return
    d = difference(name, a, b)
    big = np.ones_like(d) * 2e-6 * scale
    if name in ("GCRS", "ITRS"):
        big += 1e-10 * np.linalg.norm(b, axis=1)[:, None]
    ok = (d <= big) | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        i = np.argwhere(~ok)[0]
        c.fail(kind, at=i, got=a[tuple(i)], want=b[tuple(i)], frame=name,
               wrong=int((~ok).sum()), of=int(ok.size), **detail)


def workload(c):
    rng = c.rng
    n = gen.size(rng, .02)
    jd = gen.julian(rng, n)
    xyz = gen.directions(rng, n) * rng.uniform(6500, 43000, n)[:, None]
    lat, lon, h = gen.location_deg(rng)
    loc, _ = gen.make_location(rng, lat, lon, h)
    # keep clear of the station's own position, where directions are ill-conditioned
    return n, jd, xyz, loc


def convert(c, f, target, loc):
    """A conversion with the monitors every conversion gets."""
    before = gen.snapshot(f)
    where = str(loc)
    needs = target is AzEl
    r = Coordinate(f).convert_to(target, loc) if needs or c.rng.random() < .3 else \
        Coordinate(f).convert_to(target)
    c.require(type(r) is target, "wrong_class", got=type(r).__name__, want=target.__name__)
    c.check(gen.same_snapshot(gen.snapshot(f), before), "source_modified",
            source=type(f).__name__, target=target.__name__)
    c.check(np.array_equal(r.time.to(u.jd2000), f.time.to(u.jd2000)), "time_changed",
            source=type(f).__name__, target=target.__name__)
    c.check(str(loc) == where, "location_modified")
    if needs:
        c.check(r.location is loc or str(r.location) == where, "location_lost")
    c.event("pairs")
    c.state("pair", type(f).__name__, target.__name__)
    return r


def pairs(c):
    """Every pair of frames: paths agree, parts agree with the whole, units do not matter."""
    rng = c.rng
    n, jd, xyz, loc = workload(c)
    src = list(FRAMES)[c.index % 3]
    dst = [k for k in ("GCRS", "ITRS", "WGS84", "AzEl") if k != src][(c.index // 3) % 3]
    target = dict(FRAMES, AzEl=AzEl)[dst]
    f = make(rng, src, jd, xyz)
    c.note(source=src, target=dst, n=n, jd=jd, xyz=xyz, location=str(loc))
    c.sig(src, dst, n, jd[0], xyz[0])
    whole = table(convert(c, f, target, loc))
    c.check(whole.shape == (n, 2 if dst == "AzEl" else 3), "shape", got=whole.shape)
    c.check(bool(np.all(np.isfinite(whole))), "not_finite", source=src, target=dst)
    # through the third frame
    for mid in FRAMES:
        if mid in (src, dst):
            continue
        step = convert(c, f, FRAMES[mid], loc)
        same(c, dst, table(convert(c, step, target, loc)), whole, "path_dependent",
             source=src, via=mid, target=dst)
    # and back
    if dst != "AzEl":
        back = convert(c, Coordinate(f).convert_to(target), FRAMES[src], loc)
        same(c, src, table(back), table(f), "not_inverse", source=src, target=dst)
    # permuted
    p = rng.permutation(n)
    g = make(rng, src, jd[p], xyz[p])
    same(c, dst, table(convert(c, g, target, loc)), whole[p], "order_dependent",
         source=src, target=dst)
    c.event("permutations")
    # split in two, and one alone
    k = int(rng.integers(0, n + 1))
    for part in (slice(0, k), slice(k, n)):
        if jd[part].size:
            g = make(rng, src, jd[part], xyz[part])
            same(c, dst, table(convert(c, g, target, loc)), whole[part], "batch_dependent",
                 source=src, target=dst, part=[part.start, part.stop])
            c.event("splits")
    i = int(rng.integers(0, n))
    g = make(rng, src, jd[i:i + 1], xyz[i:i + 1])
    same(c, dst, table(convert(c, g, target, loc)), whole[i:i + 1], "batch_dependent",
         source=src, target=dst, part=i)
    # repeated inside one batch
    r = np.repeat(np.arange(n), 2)
    g = make(rng, src, jd[r], xyz[r])
    same(c, dst, table(convert(c, g, target, loc)), whole[r], "repeats_differ", source=src,
         target=dst)
    # some samples are nothing anybody can convert: the others do not notice
    bad = rng.random(n) < .3
    if not np.all(bad):
        q = [q.copy() for q in table(f).T]
        q[2][bad] = rng.choice([np.nan, np.inf, -np.inf, 1e150], int(bad.sum()))
        g = WGS84(jd.copy(), *q, u.deg, u.km) if src == "WGS84" else \
            FRAMES[src](jd.copy(), *q, u.km)
        same(c, dst, table(convert(c, g, target, loc))[~bad], whole[~bad],
             "another_sample_matters", source=src, target=dst, others=q[2][bad])
        c.event("samples_beyond_use", int(bad.sum()))
    # other units and layouts
    for _ in range(2):
        g = make(rng, src, jd, xyz)
        same(c, dst, table(convert(c, g, target, loc)), whole, "unit_dependent", source=src,
             target=dst, scale=2)
        c.event("unit_changes")
    # the same object asked again
    again = Coordinate(f)
    a = table(again.convert_to(target, loc))
    b = table(again.convert_to(target, loc))
    c.check(np.array_equal(a, b, equal_nan=True), "second_answer_differs", source=src,
            target=dst)


def huge(c):
    """More samples than any buffer or block would hold."""
    rng = c.rng
    n = int(rng.choice([65537, 70000, 131073]))
    jd = gen.julian(rng, n)
    xyz = gen.directions(rng, n) * rng.uniform(6500, 43000, n)[:, None]
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    src = list(FRAMES)[c.index % 3]
    dst = [k for k in ("GCRS", "ITRS", "WGS84", "AzEl") if k != src][(c.index // 3) % 3]
    target = dict(FRAMES, AzEl=AzEl)[dst]
    f = make(rng, src, jd, xyz)
    c.note(source=src, target=dst, n=n, first=xyz[0], jd=jd[:3])
    c.sig("huge", src, dst, n, jd[0])
    whole = table(convert(c, f, target, loc))
    part = np.concatenate([np.arange(min(n, k), min(n, k + 300)) for k in (
        0, 4000, 8100, 16300, 32700, 65500, 99900, 131000, n - 300)])
    part = np.unique(np.concatenate([part, rng.integers(0, n, 3000)]))
    g = make(rng, src, jd[part], xyz[part])
    same(c, dst, table(convert(c, g, target, loc)), whole[part], "batch_dependent",
         source=src, target=dst, n=n)
    c.event("huge_batches")


def chains(c):
    """A walk over the frames ends where a direct conversion does."""
    rng = c.rng
    n, jd, xyz, loc = workload(c)
    src = str(rng.choice(list(FRAMES)))
    f = make(rng, src, jd, xyz)
    start = {k: table(Coordinate(f).convert_to(FRAMES[k])) for k in FRAMES}
    azel = table(Coordinate(f).convert_to(AzEl, loc))
    path, now = [src], f
    for _ in range(int(rng.integers(2, 12))):
        k = str(rng.choice(list(FRAMES)))
        now = convert(c, now, FRAMES[k], loc)
        path.append(k)
        same(c, k, table(now), start[k], "chain_drift", path=path, scale=5)
        if rng.random() < .3:
            same(c, "AzEl", table(convert(c, now, AzEl, loc)), azel, "chain_direction",
                 path=path, scale=5)
    c.note(path=path, n=n, jd=jd, xyz=xyz)
    c.sig(*path, n, jd[0])
    c.event("chains")


def places(c):
    """One position seen from many places, some all but the same, in any order."""
    rng = c.rng
    n, jd, xyz, loc = workload(c)
    src = str(rng.choice(list(FRAMES)))
    f = make(rng, src, jd, xyz)
    lat, lon, h = gen.location_deg(rng)
    lat = min(max(lat, -89.9), 89.9)
    lon = min(max(lon, -179.9), 179.9)
    all_ = [GroundLocation(lat, lon, h, u.deg, u.km)]
    for _ in range(int(rng.integers(2, 8))):
        d = 10.0 ** rng.uniform(-9, -2, 3) * rng.choice([-1, 0, 0, 1], 3)
        if rng.random() < .2:
            d[2] = float(rng.choice([.5, 20, 300]))
        p = (lat + d[0], lon + d[1], h + d[2])
        all_.append(GroundLocation(*p, u.deg, u.km) if rng.random() < .7 else
                    GroundLocation(p[0], p[1], p[2] * 1000, u.deg, u.m))
    c.note(source=src, n=n, jd=jd, xyz=xyz, places=[[p.latitude.to(u.deg), p.longitude.to(u.deg),
                                                     p.height.to(u.km)] for p in all_])
    c.sig("places", src, jd[0], lat, lon)
    shared = Coordinate(f)
    rest = [k for k in FRAMES if k != src]
    for _ in range(len(all_) + 4):
        if rng.random() < .3:
            k = str(rng.choice(rest))
            got, want = shared.convert_to(FRAMES[k]), Coordinate(f).convert_to(FRAMES[k])
        else:
            k = "AzEl"
            p = all_[rng.integers(0, len(all_))]
            got, want = shared.convert_to(AzEl, p), Coordinate(f).convert_to(AzEl, p)
            c.check(got.location is p or str(got.location) == str(p), "location_of_another")
        c.event("answers_of_a_shared_coordinate")
        a, b = gen.snapshot(got), gen.snapshot(want)
        c.check(gen.same_snapshot(a, b), "not_as_if_asked_first", source=src, target=k)
        # what is handed out is the caller's own
        if rng.random() < .4:
            before = gen.snapshot(f)
            for name in ("x", "y", "z", "latitude", "longitude", "height", "azimuth",
                         "elevation"):
                d = getattr(got, name).data if hasattr(got, name) else None
                if isinstance(d, np.ndarray) and d.flags.writeable:
                    d[...] = 3
                    c.event("answers_edited")
            c.check(gen.same_snapshot(gen.snapshot(f), before), "answer_shares_the_source",
                    source=src, target=k)


def same_frame(c):
    """A conversion to the frame a position is in changes nothing."""
    rng = c.rng
    n, jd, xyz, loc = workload(c)
    for name, cls in FRAMES.items():
        f = make(rng, name, jd, xyz)
        before = gen.snapshot(f)
        r = Coordinate(f).convert_to(cls)
        c.event("same_frame")
        c.check(gen.same_snapshot(gen.snapshot(r), before), "identity_changed", frame=name)
    c.note(n=n)
    c.sig("same", n, jd[0])


def rejected(c):
    rng = c.rng
    n, jd, xyz, loc = workload(c)
    f = make(rng, "ITRS", jd, xyz)
    c.note(n=n)
    c.sig("rejected", n, jd[0])
    for name in FRAMES:
        g = make(rng, name, jd, xyz)
        c.raises(ValueError, lambda: Coordinate(g).convert_to(AzEl),
                 "missing_location_allowed", frame=name)
        for frame in (LVLH, Attitude, None, name, Coordinate):
            c.raises((ValueError, TypeError), lambda: Coordinate(g).convert_to(frame, loc),
                     "foreign_frame_allowed", frame=name, to=str(frame))
    one = np.zeros(n)
    foreign = [Coordinate(f).convert_to(AzEl, loc), Attitude(jd, one, one, one, u.deg, loc),
               LVLH(jd, one, one, one, u.km), None, 5, xyz, Coordinate(f), ITRS]
    for x in foreign:
        c.raises(ValueError, lambda: Coordinate(x), "foreign_base_allowed",
                 base=type(x).__name__)


QUICK = 3            # times as many in the quick tier
SCENARIOS = [("pairs", pairs, 180, 9000), ("huge", huge, 3, 40), ("chains", chains, 60, 3000),
             ("places", places, 60, 2500), ("same_frame", same_frame, 30, 500), ("rejected", rejected, 15, 100)]
