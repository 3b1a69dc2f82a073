"""C11 ground locations: validation and geometry."""
import math
import numpy as np
from celest import units as u
from celest.coordinates.ground_location import GroundLocation
import gen
import ref

PROPERTY = "C11"
RULE = ("locations inside, at and just outside the limits, in every angle and length unit; "
        "distinct by (latitude, longitude, height, units)")
ASSUMPTIONS = ["limits given in another unit than degrees are judged 1e-9 degrees off them",
               "the radius within 10 cm (height along or across the geocentric vertical)"]
REQUIRED = ["accepted", "rejections_seen", "limits", "namesakes"]


def number(rng, x):
    return gen.scalar(rng, x, plain=True)


def geometry(c):
    rng = c.rng
    lat, lon, h = gen.location_deg(rng)
    if rng.random() < .08:                          # all but at a pole, or on the date line
        lat = float(rng.choice([-1, 1]) * (90 - 10 ** rng.uniform(-9, -2)))
    if rng.random() < .08:
        lon = float(rng.choice([-1, 1]) * (180 - 10 ** rng.uniform(-9, -2)))
    if rng.random() < .2:
        h = float(rng.uniform(-10, 40000) if rng.random() < .5 else
                  rng.choice([-10.9, -2, -30, -1e-3, 100, 8848.86]))
    a, l = str(rng.choice(gen.ANGLES)), str(rng.choice(list(gen.LENGTH)))
    if a != "deg":
        lat, lon = lat * .9999999, lon * .9999999
    la, lo, hh = lat / gen.factor(a), lon / gen.factor(a), h * 1000 / gen.factor(l)
    c.note(lat=lat, lon=lon, h=h, units=[a, l])
    c.sig(lat, lon, h, a, l)
    c.state("units", a, l)
    loc = GroundLocation(number(rng, la), number(rng, lo), number(rng, hh), gen.unit(a),
                         gen.unit(l))
    c.event("accepted")
    # kept as given
    for q, x, name in ((loc.latitude, la, a), (loc.longitude, lo, a), (loc.height, hh, l)):
        c.close(q.to(gen.unit(name)), x, 0, "value_changed", rtol=1e-12)
        c.check(str(q.unit) == name, "unit_changed", got=str(q.unit), want=name)
    c.close(loc.latitude.to(u.deg), lat, 1e-10, "latitude_off")
    c.close(loc.longitude.to(u.deg), lon, 1e-10, "longitude_off")
    want = ref.geodetic_to_ecef(lat, lon, h)
    got = [loc.itrs_x.to(u.km), loc.itrs_y.to(u.km), loc.itrs_z.to(u.km)]
    c.close(got, want, 1e-6, "itrs_off", rtol=1e-11)
    surface = np.linalg.norm(ref.geodetic_to_ecef(lat, lon, 0.0))
    c.close(loc.radius.to(u.km), surface + h, 1e-4 + 2e-5 * abs(h), "radius_off")
    c.close(loc.radius.to(u.m), 1000 * loc.radius.to(u.km), 0, "radius_units", rtol=1e-12)
    if h == 0:
        c.check(ref.B - 1e-6 <= loc.radius.to(u.km) <= ref.A + 1e-6, "radius_range")
        c.close(loc.radius.to(u.km), surface, 1e-6, "surface_radius_off")
    # the same place in other units
    b, m = str(rng.choice(gen.ANGLES)), str(rng.choice(gen.LENGTHS))
    other = GroundLocation(lat / gen.factor(b) * (1 - 1e-12), lon / gen.factor(b) *
                           (1 - 1e-12), h * 1000 / gen.factor(m), gen.unit(b), gen.unit(m))
    c.close([other.itrs_x.to(u.km), other.itrs_y.to(u.km), other.itrs_z.to(u.km)], want,
            1e-6, "unit_dependent", rtol=1e-11)
    # asked twice, in any order: the same
    again = [loc.itrs_x.to(u.km), loc.itrs_y.to(u.km), loc.itrs_z.to(u.km)]
    c.check(again == got, "second_answer_differs")


def limits(c):
    """The limits, from both sides, in every unit."""
    rng = c.rng
    which = c.index % 4
    a = gen.ANGLES[(c.index // 4) % len(gen.ANGLES)]
    sign = 1 if which < 2 else -1
    lat_edge = which % 2 == 0
    edge = sign * (90.0 if lat_edge else 180.0)
    c.note(edge=edge, unit=a)
    c.sig("edge", edge, a)

    def make(x, other=0.0):
        x, other = x / gen.factor(a), other / gen.factor(a)
        args = (x, other) if lat_edge else (other, x)
        return GroundLocation(*args, 0.0, gen.unit(a), u.km)
    eps = float(rng.choice([1e-9, 1e-6, 1e-3, 1, 30]))
    c.event("limits")
    inside = make(edge - sign * eps, float(rng.uniform(-80, 80)))
    got = (inside.latitude if lat_edge else inside.longitude).to(u.deg)
    c.close(got, edge - sign * eps, 1e-10, "inside_value")
    out = eps * float(rng.choice([1, 10, 1000]))
    c.raises(ValueError, lambda: make(edge + sign * out), "outside_allowed", edge=edge,
             out=out, unit=a)
    if a == "deg":
        c.check(make(edge) is not None, "edge")
        c.raises(ValueError, lambda: make(math.nextafter(edge, sign * 1e9)),
                 "just_outside_allowed", edge=edge)
    for bad in (float("nan"), float("inf"), -float("inf"), 1e300):
        c.raises(ValueError, lambda: make(bad), "not_a_place_allowed", value=bad, unit=a)
    # both wrong, or the other one wrong
    c.raises(ValueError, lambda: GroundLocation(91 / gen.factor(a), 181 / gen.factor(a), 0.0,
                                                gen.unit(a), u.km), "both_outside_allowed")


def namesakes(c):
    """Places which share some of their numbers, and are none the less other places."""
    rng = c.rng
    numbers = [[float(round(rng.uniform(-1.4, 1.4), 2)) for _ in range(2)],
               [float(round(rng.uniform(-3, 3), 2)) for _ in range(2)],
               [float(rng.choice([0, .5, 1, 3, 42])) for _ in range(2)]]
    made = []
    for _ in range(8):
        la, lo, h = (x[int(rng.integers(0, 2))] for x in numbers)
        a = str(rng.choice(["deg", "rad", "hourangle", "arcmin", "arcsec", "mrad"]))
        if a not in gen.ANGLES:
            a = "deg"
        m = str(rng.choice(gen.LENGTHS))
        if abs(la * gen.factor(a)) > 89.9 or abs(lo * gen.factor(a)) > 179.9 or \
                not -6e5 < h * gen.factor(m) < 1e8:
            continue
        made.append((GroundLocation(la, lo, h, gen.unit(a), gen.unit(m)), la, lo, h, a, m))
    c.note(places=[x[1:] for x in made])
    c.sig("namesakes", *[x[1:] for x in made])
    for i in [*rng.permutation(len(made)), *rng.permutation(len(made))]:
        loc, la, lo, h, a, m = made[i]
        deg, km = (la * gen.factor(a), lo * gen.factor(a)), h * gen.factor(m) / 1000
        want = ref.geodetic_to_ecef(*deg, km)
        c.event("namesakes")
        c.close([loc.itrs_x.to(u.km), loc.itrs_y.to(u.km), loc.itrs_z.to(u.km)], want, 1e-6,
                "namesake_itrs", rtol=1e-11)
        c.close(loc.radius.to(u.km), np.linalg.norm(ref.geodetic_to_ecef(*deg, 0.0)) + km,
                1e-4 + 2e-5 * abs(km), "namesake_radius")
        c.close([loc.latitude.to(u.deg), loc.longitude.to(u.deg)], deg, 1e-10, "namesake_angles")
        c.close(loc.height.to(u.km), km, 1e-10, "namesake_height", rtol=1e-12)


QUICK = 6            # times as many in the quick tier
SCENARIOS = [("geometry", geometry, 800, 30000), ("limits", limits, 200, 4000),
             ("namesakes", namesakes, 60, 2000)]
