"""C25 coordinate containers keep what they are given, and refuse what does not fit."""
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.satellite import Satellite
from celest.units.quantity import Quantity
import gen

PROPERTY = "C25"
RULE = ("all frames over lengths, dtypes, memory layouts and units, read back through every "
        "accessor in every unit; columns of mismatched lengths and shapes in every place; "
        "distinct by (frame, shapes, units)")
ASSUMPTIONS = []
REQUIRED = ["accessors_read", "tables_read", "rejections_seen", "mismatch_places",
            "unit_readings", "columns_of_one_table"]

SPEC = {"GCRS": (GCRS, "xyz"), "ITRS": (ITRS, "xyz"), "LVLH": (LVLH, "xyz"),
        "WGS84": (WGS84, ("latitude", "longitude", "height")),
        "AzEl": (AzEl, ("azimuth", "elevation")),
        "Attitude": (Attitude, ("roll", "pitch", "yaw"))}


def build(which, jd, cols, un, loc):
    cls, names = SPEC[which]
    if which in ("GCRS", "ITRS", "LVLH"):
        return cls(jd, *cols, un[0])
    if which == "WGS84":
        return cls(jd, *cols, un[0], un[2])
    return cls(jd, *cols, un[0], loc)


def units_for(rng, which):
    """(unit, table name) for each column."""
    length, angle = str(rng.choice(list(gen.LENGTH))), str(rng.choice(gen.ANGLES))
    if which in ("GCRS", "ITRS", "LVLH"):
        return [length] * 3
    if which == "WGS84":
        return [angle, angle, length]
    return [angle] * len(SPEC[which][1])


def kept(c):
    rng = c.rng
    which = str(rng.choice(list(SPEC)))
    cls, names = SPEC[which]
    n = int(rng.choice([0, 1, 1, 2, 3, 5, 17, 100, 1025]))
    kinds = [str(rng.choice(["f8", "f8", "f4", "i8", "special"])) for _ in names]

    def column(kind):
        if kind == "i8":
            return rng.integers(-9999, 9999, n)
        v = rng.normal(size=n) * 10.0 ** rng.integers(-3, 9)
        if kind == "special" and n:
            v[rng.integers(0, n)] = rng.choice([np.nan, np.inf, 0.0, -0.0])
        return v.astype(np.float32) if kind == "f4" else v
    jd = gen.layout(rng, rng.uniform(2400000, 2500000, n))
    cols = [gen.layout(rng, column(k)) for k in kinds]
    whole = None
    if rng.random() < .15:                        # the columns of one table, or its rows
        whole = rng.normal(size=(n, len(names))) * 1e4
        if rng.random() < .5:
            whole = np.asfortranarray(whole)
        cols = [whole[:, i] for i in range(len(names))]
        kinds = ["table"] * len(names)
        c.event("columns_of_one_table")
    un = units_for(rng, which)
    rate = None
    if which in ("GCRS", "ITRS", "LVLH") and rng.random() < .3:
        rate = str(rng.choice(gen.TIMES))
        objects = [gen.unit(un[0]) / gen.unit(rate)] * 3
    else:
        objects = [gen.unit(x) for x in un]
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    c.note(frame=which, n=n, units=un, rate=rate, kinds=kinds)
    c.sig(which, n, un, rate, kinds)
    c.state("frame", which, n, kinds)
    copies = [np.array(x) for x in cols] + [np.array(jd)]
    f = build(which, jd, cols, objects, loc)
    for name, given, obj, table in zip(names, copies, objects, un):
        q = getattr(f, name)
        c.require(isinstance(q, Quantity), "not_a_quantity", column=name)
        c.event("accessors_read")
        c.check(np.asarray(q.data).shape == (n,) and np.array_equal(
            np.asarray(q.data, float), np.asarray(given, float), equal_nan=True),
            "column_changed", column=name, frame=which)
        c.check(str(q.unit) == str(obj) and q.unit.dimension == obj.dimension,
                "unit_changed", column=name, got=str(q.unit), want=str(obj))
        for other in gen.TABLE[gen.DIM_OF[table]]:
            if other in gen.ROUNDED or table in gen.ROUNDED:
                continue
            target = gen.unit(other) / gen.unit(rate) if rate else gen.unit(other)
            c.event("unit_readings")
            c.close(q.to(target), np.asarray(given, float) * gen.factor(table) /
                    gen.factor(other), 0, "column_in_another_unit", rtol=1e-6 if
                    given.dtype == np.float32 else 1e-12, column=name, unit=other)
    c.check(np.array_equal(np.asarray(f.time.to(u.jd2000)), copies[-1]) and
            f.time.unit.dimension == u.jd2000.dimension, "time_changed")
    if which in ("AzEl", "Attitude"):
        c.check(f.location is loc or str(f.location) == str(loc), "location_changed")
    if len(set(un)) == 1 and un[0] not in gen.ROUNDED:
        options = [x for x in gen.TABLE[gen.DIM_OF[un[0]]] if x not in gen.ROUNDED]
        other = str(rng.choice(options)) if rng.random() < .7 else un[0]
        target = gen.unit(other) / gen.unit(rate) if rate else gen.unit(other)
        if other == un[0]:
            target = objects[0]
        t = f.to_numpy(target)
        c.event("tables_read")
        want = np.array([np.asarray(g, float) * gen.factor(un[0]) / gen.factor(other)
                         for g in copies[:-1]]).T
        c.require(isinstance(t, np.ndarray), "table_type")
        c.close(t, want, 0, "table", rtol=1e-6 if "f4" in kinds else 1e-12, unit=other,
                frame=which)
        # every reading is a reading of its own, whatever was read before
        third = str(rng.choice(options))
        target3 = gen.unit(third) / gen.unit(rate) if rate else gen.unit(third)
        c.close(f.to_numpy(target3), want * (gen.factor(other) / gen.factor(third)), 0,
                "second_table", rtol=1e-6 if "f4" in kinds else 1e-12, first=other,
                unit=third, frame=which)
        # the table is the caller's own
        if t.flags.writeable and t.size:
            t[:] = -12345.0
            c.check(all(np.array_equal(np.asarray(getattr(f, name).data), g,
                                       equal_nan=True)
                        for name, g in zip(names, copies)), "table_shares_the_frame")
            c.close(f.to_numpy(target), want, 0, "table_remembers_edits", rtol=1e-6 if
                    "f4" in kinds else 1e-12, unit=other, frame=which)
    c.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(
        list(cols) + [jd], copies)), "inputs_modified")


def mismatched(c):
    """Any column of another length or shape, in any place, is refused."""
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 10]))
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    for which, (cls, names) in SPEC.items():
        un = [gen.unit(x) for x in units_for(rng, which)]
        total = len(names) + 1
        good = [rng.uniform(1, 2, n) for _ in range(total)]
        build(which, good[0], good[1:], un, loc)          # fits
        for place in range(total):
            for bad in (rng.uniform(1, 2, n + 1), rng.uniform(1, 2, max(n - 1, 0)),
                        rng.uniform(1, 2, (n, 1)), rng.uniform(1, 2, (1, n)),
                        np.array(1.5), rng.uniform(1, 2, n + 7), rng.uniform(1, 2, (n, 3))):
                a = list(good)
                a[place] = bad
                c.raises(ValueError, lambda: build(which, a[0], a[1:], un, loc),
                         "mismatch_allowed", frame=which, place=place, shape=bad.shape, n=n)
                c.event("mismatch_places")
            c.state("place", which, place)
        # two columns wrong in the same way, and all two-dimensional
        i, j = rng.permutation(total)[:2]
        a = list(good)
        a[i] = a[j] = rng.uniform(1, 2, n + 1)
        if total > 2:
            c.raises(ValueError, lambda: build(which, a[0], a[1:], un, loc),
                     "mismatch_allowed", frame=which, places=(int(i), int(j)))
        a = [x.reshape(n, 1) for x in good]
        c.raises(ValueError, lambda: build(which, a[0], a[1:], un, loc), "matrix_allowed",
                 frame=which)
    c.sig("mismatched", n, c.index)


def foreign(c):
    """Coordinates and satellites are made of frames only."""
    rng = c.rng
    c.sig("foreign", c.index)
    n = 3
    jd = rng.uniform(2450000, 2460000, n)
    v = [rng.uniform(7000, 8000, n) for _ in range(3)]
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    f = {"GCRS": GCRS(jd, *v, u.km), "ITRS": ITRS(jd, *v, u.km), "LVLH": LVLH(jd, *v, u.km),
         "WGS84": WGS84(jd, *[x / 1000 for x in v], u.deg, u.km),
         "AzEl": AzEl(jd, v[0], v[1], u.deg, loc),
         "Attitude": Attitude(jd, *v, u.deg, loc)}
    odd = [None, 5, "ITRS", np.ones((3, 3)), ITRS, loc, Quantity(v[0], u.km), [1, 2, 3]]
    for x in odd + [f["LVLH"], f["AzEl"], f["Attitude"]]:
        c.raises(ValueError, lambda: Coordinate(x), "coordinate_of_anything",
                 what=repr(x)[:60])
    for x in odd + [f["LVLH"], f["AzEl"], f["Attitude"], f["WGS84"]]:
        c.raises(ValueError, lambda: Satellite(x), "satellite_of_anything", what=repr(x)[:60])
        if x is not None:
            c.raises(ValueError, lambda: Satellite(f["ITRS"], x), "velocity_of_anything",
                     what=repr(x)[:60])
    s = Satellite(f["ITRS"])
    c.check(s.velocity is None and gen.same_snapshot(gen.snapshot(s.position),
                                                     gen.snapshot(f["ITRS"])),
            "position_changed")
    s = Satellite(f["ITRS"], f["ITRS"])
    c.check(gen.same_snapshot(gen.snapshot(s.velocity), gen.snapshot(f["ITRS"])),
            "velocity_changed")
    c.event("accessors_read", 2)


QUICK = 5            # times as many in the quick tier
SCENARIOS = [("kept", kept, 1500, 30000), ("mismatched", mismatched, 30, 600),
             ("foreign", foreign, 10, 100)]
