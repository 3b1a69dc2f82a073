"""C01 unit algebra: what an expression of units means."""
import re
import numpy as np
from celest import units as u
from celest.units.quantity import Quantity
from celest.units.core import Unit
import gen

PROPERTY = "C01"
RULE = ("random expression trees of units (products, quotients, powers, reciprocals, "
        "numeric factors; nested up to depth 5), evaluated by the library and by a "
        "reference (factor, dimension exponents); non-trivial: at least two operations, "
        "distinct by the expression text")
ASSUMPTIONS = ["factors of the atomic units are taken as the library defines them; "
               "C02 compares those with the international definitions"]
REQUIRED = ["expressions", "equivalent_pairs", "incompatible_pairs", "strings_parsed",
            "cancellations", "nearly_equal_dimensions", "own_units"]

NAMES = list(gen.DIM_OF)
BASE = {"L": "m", "T": "s", "A": "deg", "D": "jd2000"}


def dims(exponents):
    return {k: v for k, v in exponents.items() if abs(v) > 1e-12}


def combine(a, b, k):
    d = dict(a)
    for n, p in b.items():
        d[n] = d.get(n, 0) + k * p
    return {n: p for n, p in d.items() if abs(p) > 1e-12}


class Node:
    """text, library unit, reference factor, reference dimension exponents"""

    def __init__(self, text, unit, factor, dim, ops):
        self.text, self.unit, self.factor, self.dim, self.ops = text, unit, factor, dim, ops


CUSTOM = {}          # the user's own named units of this case: name -> (factor, dims)


def leaf(rng):
    if rng.random() < 0.08 and len(CUSTOM) < 20:
        a = tree(rng, int(rng.integers(1, 3)))
        if 1e-60 < abs(a.factor) < 1e60:
            n = "own" + chr(ord("A") + len(CUSTOM))
            CUSTOM[n] = (a.factor, a.dim)
            return Node("%s=%s" % (n, a.text), Unit(n, "own unit", {}, a.unit), a.factor,
                        a.dim, a.ops)
    n = str(rng.choice(NAMES))
    return Node(n, gen.unit(n), gen.factor(n), {gen.DIM_OF[n]: 1}, 0)


def tree(rng, depth):
    if depth == 0 or rng.random() < 0.12:
        return leaf(rng)
    op = rng.integers(0, 10)
    a = tree(rng, depth - 1)
    if op <= 2:
        b = tree(rng, depth - 1)
        return Node("(%s*%s)" % (a.text, b.text), a.unit * b.unit, a.factor * b.factor,
                    combine(a.dim, b.dim, 1), a.ops + b.ops + 1)
    if op <= 4:
        b = tree(rng, depth - 1)
        return Node("(%s/%s)" % (a.text, b.text), a.unit / b.unit, a.factor / b.factor,
                    combine(a.dim, b.dim, -1), a.ops + b.ops + 1)
    if op <= 6:
        p = rng.choice([2, 3, -1, -2, 0.5, 1, 1.5, 0]) if rng.random() < 0.6 else 2
        if rng.random() < 0.1:
            p = rng.choice([1 / 3, 0.33, 0.25, 1.001, 0.999, 2.0, -1 / 7, 4 / 3, 1.23456,
                            -5 / 3])
        p = float(p) if p % 1 else int(p)
        return Node("(%s**%r)" % (a.text, p), a.unit ** p, a.factor ** p,
                    combine({}, a.dim, p), a.ops + 1)
    if op == 7:
        return Node("(1/%s)" % a.text, 1 / a.unit, 1 / a.factor, combine({}, a.dim, -1),
                    a.ops + 1)
    k = [2, 0.5, 1000, 1e-3, 60, 1.0, 7.25, 1, np.float64(2.5), np.int64(3),
         np.float32(0.25), 1 / 3, True, 1 + 1e-7, 1.0000000001, 0.9999][rng.integers(0, 16)]
    if op == 8:
        return Node("(%r*%s)" % (k, a.text), k * a.unit, k * a.factor, a.dim, a.ops + 1)
    return Node("(%s*%r)" % (a.text, k), a.unit * k, k * a.factor, a.dim, a.ops + 1)


def canonical(dim, rng):
    """A library unit of the given dimension exponents, and its factor."""
    items = list(dim.items())
    rng.shuffle(items)
    if not items:
        return u.m / u.m, 1.0
    out, f = None, 1.0
    for d, p in items:
        p = float(p) if float(p) % 1 else int(p)
        n = BASE[d] if rng.random() < .5 else str(rng.choice(list(gen.TABLE[d])))
        f *= gen.factor(n) ** p
        part = gen.unit(n) ** p
        out = part if out is None else out * part
    return out, f


def usable(n):
    return 1e-200 < abs(n.factor) < 1e200 and all(abs(p) < 20 for p in n.dim.values())


def draw(c, depth=None, fresh=True):
    if fresh:
        CUSTOM.clear()
    for _ in range(50):
        n = tree(c.rng, depth or int(c.rng.integers(1, 5)))
        if usable(n):
            return n
    return leaf(c.rng)


NAME_RE = re.compile("^(own[A-Z]|%s)([0-9.e+-]*)$" %
                     "|".join(sorted(NAMES, key=len, reverse=True)))


def parse(text):
    """(factor, dims) of a unit's text."""
    factor, dim, sign = 1.0, {}, 1
    for i, tok in enumerate(text.split()):
        if tok == "/":
            sign = -1
            continue
        m = NAME_RE.match(tok)
        if m:
            p = sign * (float(m.group(2)) if m.group(2) else 1.0)
            f, d = CUSTOM[m.group(1)] if m.group(1) in CUSTOM else \
                (gen.factor(m.group(1)), {gen.DIM_OF[m.group(1)]: 1})
            factor *= f ** p
            dim = combine(dim, d, p)
        else:
            factor *= float(tok)
    return factor, dim


def atoms():
    return {n: (str(gen.unit(n)), gen.unit(n).dimension, gen.unit(n).scale,
                list(map(str, gen.unit(n).bases)), list(gen.unit(n).powers))
            for n in NAMES}


def expressions(c):
    before = atoms()
    n = draw(c)
    c.note(expression=n.text)
    if n.ops >= 2:
        c.sig(n.text)
    c.event("expressions")
    if CUSTOM:
        c.event("own_units")
    x = float(c.rng.uniform(0.5, 9))
    target, f = canonical(n.dim, c.rng)
    c.check(n.unit.dimension == target.dimension, "dimension_wrong", expression=n.text,
            dimension=n.unit.dimension, expected=target.dimension, dims=n.dim)
    c.state("dimension", n.unit.dimension)
    if not n.dim:
        c.event("cancellations")
    got = Quantity(x, n.unit).to(target)
    c.close(got, x * n.factor / f, 0, "factor_wrong", rtol=1e-11, expression=n.text,
            target=str(target))
    back = Quantity(x, target).to(n.unit)
    c.close(back, x * f / n.factor, 0, "reverse_factor_wrong", rtol=1e-11,
            expression=n.text, target=str(target))
    text = str(n.unit)
    pf, pd = parse(text)
    c.event("strings_parsed")
    c.check(pd == n.dim or all(abs(pd.get(k, 0) - n.dim.get(k, 0)) < 1e-9
                               for k in set(pd) | set(n.dim)),
            "text_dimension_wrong", expression=n.text, text=text, dims=n.dim, parsed=pd)
    c.close(pf, n.factor, 0, "text_factor_wrong", rtol=1e-9, expression=n.text, text=text)
    c.check(text in repr(n.unit), "repr_differs", text=text, repr=repr(n.unit))
    c.check(atoms() == before, "atomic_unit_changed", expression=n.text)


def equivalences(c):
    """Laws of algebra: both sides are the same unit."""
    a, b, d = (draw(c, int(c.rng.integers(0, 3)) or None, fresh=i == 0) for i in range(3))
    p = int(c.rng.choice([2, 3, -1, -2]))
    k = float(c.rng.choice([2, 0.5, 10, 1000, 1.00001, 1 - 1e-7]))
    # binary fractions: their sums are exact; some sums are small, or nothing
    q, s = ([.5, .25, .375, 1.5, 1, -.5, 2, 1 + 2 ** -12][c.rng.integers(0, 8)],
            [-.4375, -.25, .125, -.375, -1.46875, -1, .5][c.rng.integers(0, 7)])
    laws = [
        ("a*b = b*a", lambda: a.unit * b.unit, lambda: b.unit * a.unit),
        ("(a*b)*d = a*(b*d)", lambda: (a.unit * b.unit) * d.unit,
         lambda: a.unit * (b.unit * d.unit)),
        ("a/b = a*b**-1", lambda: a.unit / b.unit, lambda: a.unit * b.unit ** -1),
        ("1/(a/b) = b/a", lambda: 1 / (a.unit / b.unit), lambda: b.unit / a.unit),
        ("(a*b)**p = a**p*b**p", lambda: (a.unit * b.unit) ** p,
         lambda: a.unit ** p * b.unit ** p),
        ("(a/b)**p = a**p/b**p", lambda: (a.unit / b.unit) ** p,
         lambda: a.unit ** p / b.unit ** p),
        ("(a**2)**p = a**(2p)", lambda: (a.unit ** 2) ** p, lambda: a.unit ** (2 * p)),
        ("a**q*a**s = a**(q+s)", lambda: a.unit ** q * a.unit ** s,
         lambda: a.unit ** (q + s)),
        ("b*a**q*a**s = b*a**(q+s)", lambda: b.unit * a.unit ** q * a.unit ** s,
         lambda: b.unit * a.unit ** (q + s)),
        ("a*b/b = a", lambda: a.unit * b.unit / b.unit, lambda: a.unit),
        ("(a/b)*b = a", lambda: (a.unit / b.unit) * b.unit, lambda: a.unit),
        ("a/(b/d) = a*d/b", lambda: a.unit / (b.unit / d.unit),
         lambda: a.unit * d.unit / b.unit),
        ("(k*a)*b = k*(a*b)", lambda: (k * a.unit) * b.unit, lambda: k * (a.unit * b.unit)),
        ("(k*a)/b = k*(a/b)", lambda: (k * a.unit) / b.unit, lambda: k * (a.unit / b.unit)),
        ("(k*a)**2 = k*k*a**2", lambda: (k * a.unit) ** 2, lambda: (k * k) * a.unit ** 2),
        ("k*a = a*k", lambda: k * a.unit, lambda: a.unit * k),
        ("(a/a)*b = b", lambda: (a.unit / a.unit) * b.unit, lambda: b.unit),
        ("b*(a/a) = b", lambda: b.unit * (a.unit / a.unit), lambda: b.unit),
        ("a*a**-1*b = b", lambda: a.unit * a.unit ** -1 * b.unit, lambda: b.unit),
        ("b*a**0 = b", lambda: b.unit * a.unit ** 0, lambda: b.unit),
    ]
    c.note(a=a.text, b=b.text, d=d.text, p=p, k=k)
    c.sig(a.text, b.text, d.text, p, k)
    for name, left, right in laws:
        if not (1e-90 < abs(a.factor) < 1e90 and 1e-90 < abs(b.factor) < 1e90 and
                1e-90 < abs(d.factor) < 1e90):
            return
        l, r = left(), right()
        c.event("equivalent_pairs")
        if c.check(l.dimension == r.dimension, "law_dimension", law=name, a=a.text,
                   b=b.text, d=d.text, left=l.dimension, right=r.dimension):
            c.close(Quantity(3.0, l).to(r), 3.0, 0, "law_factor", rtol=1e-9, law=name,
                    a=a.text, b=b.text, d=d.text, left=str(l), right=str(r))


def incompatible(c):
    a, b = draw(c), draw(c, fresh=False)
    if c.rng.random() < 0.3 and a.dim:
        # the same dimensions but for one power, which differs by little
        p = [1 + 1e-3, 0.5, 1 / 3, 0.999, 2, 1.01, 0.9, 1 + 1e-6][c.rng.integers(0, 8)]
        k = str(c.rng.choice(list(a.dim)))
        low, f = canonical({d: q for d, q in a.dim.items() if d != k}, c.rng)
        b = Node("nearly(%s)" % a.text, low * gen.unit(BASE[k]) ** float(a.dim[k] * p), f,
                 dict(a.dim, **{k: a.dim[k] * p}), 1)
        c.event("nearly_equal_dimensions")
    if all(abs(a.dim.get(k, 0) - b.dim.get(k, 0)) < 1e-9 for k in BASE):
        b = Node("(%s*m)" % b.text, b.unit * u.m, b.factor, combine(b.dim, {"L": 1}, 1), 1)
    c.note(a=a.text, b=b.text)
    c.sig(a.text, b.text)
    c.event("incompatible_pairs")
    c.check(a.unit.dimension != b.unit.dimension, "different_dimensions_equal",
            a=a.text, b=b.text, dimension=a.unit.dimension)
    c.raises(ValueError, lambda: Quantity(1.0, a.unit).to(b.unit),
             "incompatible_conversion_allowed", a=a.text, b=b.text)
    c.raises(ArithmeticError, lambda: Quantity(1.0, a.unit) + Quantity(1.0, b.unit),
             "incompatible_addition_allowed", a=a.text, b=b.text)


def named(c):
    """A named unit built from an expression stands for that expression."""
    n = draw(c)
    space = {}
    v = Unit("custom", "custom unit", space, n.unit)
    c.note(expression=n.text)
    c.sig("named", n.text)
    c.check(space.get("custom") is v, "not_in_namespace", expression=n.text)
    target, f = canonical(n.dim, c.rng)
    if c.check(v.dimension == target.dimension, "named_dimension", expression=n.text,
               dimension=v.dimension, expected=target.dimension):
        c.close(Quantity(2.0, v).to(target), 2.0 * n.factor / f, 0, "named_factor",
                rtol=1e-9, expression=n.text)
        c.close(Quantity(2.0, n.unit).to(v), 2.0, 0, "named_equivalent", rtol=1e-9,
                expression=n.text)
    c.check(str(v) == "custom" and v.short_name == "custom" and v.long_name == "custom unit"
            and "custom" in repr(v), "named_text", text=str(v), repr=repr(v))
    c.event("named_units")


def rejected(c):
    a = draw(c)
    c.note(a=a.text)
    bad = [lambda: a.unit ** "2", lambda: a.unit ** None, lambda: a.unit ** u.m,
           lambda: 2 / a.unit if False else a.unit ** [1]]
    for other in ("2", None, [1], {}, object(), Quantity(2.0, u.m)):
        for f in (lambda: a.unit * other, lambda: other * a.unit, lambda: a.unit / other):
            c.raises(TypeError, f, "foreign_factor_allowed", a=a.text, other=repr(other))
    for f in bad:
        c.raises(TypeError, f, "non_number_power_allowed", a=a.text)


def divisions(c):
    """Numbers over units and units over numbers mean that, where they are allowed."""
    a = draw(c)
    k = [2, .5, 1.0, 3, -1, 1000, 1e-3, -2.5, True][c.rng.integers(0, 9)]
    c.note(a=a.text, number=k)
    c.sig("divisions", a.text, k)
    for text, f, factor, sign in (("number/unit", lambda: k / a.unit, k / a.factor, -1),
                                  ("unit/number", lambda: a.unit / k, a.factor / k, 1)):
        try:
            got = f()
        except TypeError:
            c.check(k != 1 or sign == 1, "reciprocal_refused", a=a.text)
            continue
        dim = combine({}, a.dim, sign)
        target, size = canonical(dim, c.rng)
        c.event("divisions_by_numbers")
        if c.check(got.dimension == target.dimension, "division_dimension", form=text,
                   a=a.text, number=k, dimension=got.dimension):
            c.close(Quantity(2.0, got).to(target), 2.0 * factor / size, 0,
                    "division_factor", rtol=1e-9, form=text, a=a.text, number=k)


QUICK = 4            # times as many in the quick tier
SCENARIOS = [("expressions", expressions, 2500, 60000),
             ("equivalences", equivalences, 400, 12000),
             ("incompatible", incompatible, 800, 20000),
             ("named", named, 400, 8000), ("divisions", divisions, 300, 6000),
             ("rejected", rejected, 20, 400)]
