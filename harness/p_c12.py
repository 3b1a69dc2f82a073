"""C12 textual locations."""
import re
import numpy as np
from celest import units as u
from celest.coordinates.ground_location import GroundLocation
import gen

PROPERTY = "C12"
RULE = ("locations everywhere, many at and around whole minutes, seconds and hundredths, in "
        "every unit; their text parsed back; distinct by (latitude, longitude, height, units)")
ASSUMPTIONS = ["the text gives hundredths of arcseconds and of the length unit, rounded"]
REQUIRED = ["texts", "near_whole", "southern", "western"]

ANGLE = re.compile("^(\\d{2,3})\u00b0(\\d{2})\u2032(\\d{2}\\.\\d{2})\u2033([NSEW])$")


def angle(rng, limit):
    mode = rng.integers(0, 6)
    if mode == 0:
        return float(rng.uniform(-limit, limit)), False
    s = rng.choice([-1, 1])
    d = int(rng.integers(0, limit))
    m = int(rng.integers(0, 60))
    if mode == 1:                                     # around whole minutes
        x = d + m / 60 + rng.choice([-1, 0, 1]) * rng.choice([0, 1e-13, 1e-9, 1e-6, 1.3e-6, 2e-6])
    elif mode == 2:                                   # around whole degrees
        x = d + rng.choice([-1, 0, 1]) * rng.choice([0, 1e-15, 1e-13, 1e-9, 1e-6, 1.4e-6])
    elif mode == 3:                                   # last hundredths of a minute
        x = d + m / 60 + rng.uniform(59.98, 60) / 3600
    elif mode == 4:                                   # near hundredths' midpoints
        x = d + m / 60 + (rng.integers(0, 6000) + .5 + rng.choice([-1e-3, 1e-3])) / 360000
    else:
        x = rng.choice([0, 1e-9, limit, limit - 1e-7, limit / 2, .5, 1 / 60, 1 / 3600])
    return float(s * min(max(x, 0), limit)), True


def texts(c):
    rng = c.rng
    (lat, n1), (lon, n2) = angle(rng, 90), angle(rng, 180)
    a = str(rng.choice(gen.ANGLES)) if rng.random() < .5 else "deg"
    if a != "deg" and (abs(lat) > 89.999999 or abs(lon) > 179.999999):
        a = "deg"
    l = str(rng.choice(list(gen.LENGTH)))
    h = float(rng.choice([0, 1, -3.456, 12.005, .004, 1e5, -.001, 999.999])) \
        if rng.random() < .5 else float(rng.uniform(-500, 9000)) if rng.random() < .7 else \
        float(rng.choice([-1, 1]) * 10 ** rng.uniform(3, 10))
    la, lo, hh = (gen.scalar(rng, x, plain=True) for x in
                  (lat / gen.factor(a), lon / gen.factor(a), h))
    loc = GroundLocation(la, lo, hh, gen.unit(a), gen.unit(l))
    lat, lon = loc.latitude.to(u.deg), loc.longitude.to(u.deg)
    text = str(loc)
    c.note(lat=lat, lon=lon, h=h, units=[a, l], text=text)
    c.sig(lat, lon, h, a, l)
    c.event("texts")
    c.event("near_whole", int(n1 or n2))
    c.event("southern", int(lat < 0))
    c.event("western", int(lon < 0))
    parts = text.split(" ")
    c.require(len(parts) == 3, "parts", text=text)
    for part, x, pair, limit in ((parts[0], lat, "NS", 90), (parts[1], lon, "EW", 180)):
        m = ANGLE.match(part)
        if not c.check(bool(m), "angle_form", part=part):
            continue
        d, mi, s = int(m.group(1)), int(m.group(2)), float(m.group(3))
        c.check(mi < 60 and s < 60, "sixty", part=part, value=x)
        c.check(d < limit or (d == limit and mi == 0 and s == 0), "beyond_limit", part=part)
        c.check(m.group(4) in pair, "wrong_letter_kind", part=part)
        value = d + mi / 60 + s / 3600
        c.close(value, abs(x), (.005 + 1e-6) / 3600, "angle_off", part=part, degrees=x)
        if x > 0:
            c.check(m.group(4) == pair[0], "hemisphere", part=part, value=x)
        if x < 0:
            c.check(m.group(4) == pair[1], "hemisphere", part=part, value=x)
        c.state("degrees_width", len(m.group(1)))
    m = re.match(r"^(-?\d+\.\d{2})([a-z]+)$", parts[2])
    if c.check(bool(m), "height_form", part=parts[2]):
        c.close(float(m.group(1)), h, .005 + 1e-9 + 1e-15 * abs(h), "height_off", part=parts[2], height=h)
        c.check(m.group(2) == l, "height_unit", part=parts[2], unit=l)
    # the representation carries the exact values
    r = repr(loc)
    m = re.match(r'^GroundLocation\((\S+), (\S+), (\S+), (.*), (.*)\)$', r)
    if c.check(bool(m), "repr_form", text=r):
        want = [loc.latitude.data, loc.longitude.data, loc.height.data]
        c.close([float(m.group(i)) for i in (1, 2, 3)], want, 0, "repr_values", rtol=1e-12,
                text=r)
        c.check(a in m.group(4) and l in m.group(5), "repr_units", text=r, units=[a, l])
    c.check(str(loc) == text, "second_text_differs")


QUICK = 4            # times as many in the quick tier
SCENARIOS = [("texts", texts, 4000, 150000)]
