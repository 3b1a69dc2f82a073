"""C03 quantity arithmetic and comparison."""
import operator
import numpy as np
from celest import units as u
from celest.units.quantity import Quantity
import gen
from p_c01 import combine, canonical
from p_c02 import frozen, gridded, is_frozen

PROPERTY = "C03"
RULE = ("binary operations, comparisons and random expressions of quantities in random "
        "units (scalars, arrays, broadcasting), evaluated by the library and, in base "
        "units, by a reference; non-trivial: operands in different units or a nested "
        "expression; distinct by (operation, units, shapes)")
ASSUMPTIONS = ["floating-point rounding up to 1e-9 relative",
               "ordering is judged where operands differ by more than 1e-9 relative or "
               "share a unit"]
REQUIRED = ["binary", "grids", "results_edited", "comparisons", "neighbours", "special_values", "expressions", "rejections_seen", "numbers", "augmented", "integer_results"]

COMPARE = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
           ">": operator.gt, ">=": operator.ge}
AUGMENTED = {"+": operator.iadd, "-": operator.isub, "*": operator.imul,
             "/": operator.itruediv}
ARITH = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def leaf_unit(rng, dim=None):
    """(text, unit, factor, dims)"""
    mode = rng.integers(0, 4)
    d = dim or str(rng.choice(["L", "T", "A"]))
    if dim is None and mode == 3:
        a = str(rng.choice(list(gen.LENGTH)))
        b = str(rng.choice(list(gen.TIME)))
        return a + "/" + b, gen.unit(a) / gen.unit(b), gen.factor(a) / gen.factor(b), \
            {"L": 1, "T": -1}
    n = str(rng.choice(list(gen.TABLE[d])))
    return n, gen.unit(n), gen.factor(n), {d: 1}


def like(rng, dims):
    for _ in range(500):
        r = leaf_unit(rng, None)
        if r[3] == dims:
            return r
    raise RuntimeError


def value(rng, shape, nonzero=True):
    if shape == ():
        k = int(rng.integers(0, 3))
        x = float(rng.choice([-1, 1]) * rng.uniform(0.1, 50))
        return int(rng.integers(1, 60)) if k == 0 else x
    if rng.random() < 0.2:
        return rng.integers(1, 500, shape)
    return rng.choice([-1, 1], shape) * rng.uniform(0.1, 50, shape)


def shapes(rng):
    n = gen.size(rng, big=0.01)
    return [((), ()), ((n,), (n,)), ((n,), ()), ((), (n,)), ((1,), (n,)),
            ((n, 3), (n, 3))][rng.integers(0, 6)]


def untouched(c, pairs, what):
    for q, x, f, unit in pairs:
        c.check(is_frozen(q.data, f) and is_frozen(x, f) and str(q.unit) == unit,
                "operand_modified", what=what, was=f[2], now=np.array(q.data),
                unit=str(q.unit), unit_was=unit)


def edited(c, r, pairs, what):
    """A result is the caller's own: editing it leaves the operands alone."""
    d = np.asarray(r.data)
    if isinstance(r.data, np.ndarray) and d.flags.writeable:
        d[...] = 113
        c.event("results_edited")
        untouched(c, pairs, what + " and editing the result")


def grids(c):
    """Operands of several dimensions, in any order in memory, and single precision."""
    rng = c.rng
    a = leaf_unit(rng)
    b = like(rng, a[3])
    xa, xb = gridded(rng) + 9, gridded(rng)
    if rng.random() < .6 or xa.ndim != xb.ndim:
        xb = rng.uniform(1, 9, xa.shape) if rng.random() < .5 else \
            np.asfortranarray(rng.uniform(1, 9, xa.shape))
    elif xa.shape != xb.shape:
        xb = rng.uniform(1, 9, [n if rng.random() < .5 else 1 for n in xa.shape])
    tol = 1e-9
    if rng.random() < .3:
        xa, tol = xa.astype(np.float32), 1e-5
    c.note(a=a[0], b=b[0], xa=xa, xb=xb)
    c.sig("grid", a[0], b[0], xa.shape, xb.shape, xa.strides, xb.strides)
    c.event("grids")
    qa, qb = Quantity(xa, a[1]), Quantity(xb, b[1])
    fa, fb = frozen(xa), frozen(xb)
    pairs = [(qa, xa, fa, str(a[1])), (qb, xb, fb, str(b[1]))]
    va, vb = np.asarray(xa, float) * a[2], np.asarray(xb, float) * b[2]
    scale = np.max(np.abs(va)) + np.max(np.abs(vb))
    for name, op in ARITH.items():
        dims = a[3] if name in "+-" else combine(a[3], b[3], 1 if name == "*" else -1)
        target, f = canonical(dims, rng)
        for left, right, vl, vr in ((qa, qb, va, vb), (qb, qa, vb, va)):
            if name in "*/":
                dims = combine(a[3], b[3], 1 if name == "*" else -1)
            r = op(left, right)
            c.event("binary")
            with np.errstate(divide="ignore", invalid="ignore"):
                want = op(vl, vr) / f
            c.close(r.to(target), want, tol * scale / f if name in "+-" else 0,
                    "grid_value", rtol=tol, op=name, a=a[0], b=b[0])
            edited(c, r, pairs, name)


def binary(c):
    rng = c.rng
    a = leaf_unit(rng)
    same = rng.random() < 0.6
    b = like(rng, a[3]) if same else leaf_unit(rng)
    sa, sb = shapes(rng)
    xa, xb = value(rng, sa), value(rng, sb)
    qa, qb = Quantity(xa, a[1]), Quantity(xb, b[1])
    fa, fb = frozen(xa), frozen(xb)
    ta, tb = str(a[1]), str(b[1])
    c.note(a=a[0], b=b[0], xa=xa, xb=xb)
    c.state("units", a[0], b[0])
    va, vb = np.asarray(xa, float) * a[2], np.asarray(xb, float) * b[2]
    for name, op in ARITH.items():
        if a[0] != b[0]:
            c.sig(name, a[0], b[0], sa, sb)
        if name in "+-" and a[3] != b[3]:
            c.raises(ArithmeticError, lambda: op(qa, qb), "mismatch_allowed", op=name,
                     a=a[0], b=b[0])
            continue
        r = op(qa, qb)
        c.event("binary")
        dims = a[3] if name in "+-" else combine(a[3], b[3], 1 if name == "*" else -1)
        target, f = canonical(dims, rng)
        if c.check(r.unit.dimension == target.dimension, "dimension_wrong", op=name,
                   a=a[0], b=b[0], got=r.unit.dimension, want=target.dimension):
            c.close(r.to(target), op(va, vb) / f, 1e-9 * np.max(
                np.abs(va) + np.abs(vb)) / f if name in "+-" else 0, "value_wrong",
                rtol=1e-9, op=name, a=a[0], b=b[0], shapes=[sa, sb])
        untouched(c, [(qa, xa, fa, ta), (qb, xb, fb, tb)], name)
        edited(c, r, [(qa, xa, fa, ta), (qb, xb, fb, tb)], name)
    # augmented assignment makes another quantity, under the old name
    for name, op in AUGMENTED.items():
        if name in "+-" and a[3] != b[3]:
            continue
        left = op(qa, qb)
        c.event("augmented")
        c.close(left.to(left.unit), ARITH[name](qa, qb).to(left.unit), 0, "augmented_differs",
                rtol=1e-12, op=name)
        op(qa, 2)
        untouched(c, [(qa, xa, fa, ta), (qb, xb, fb, tb)], name + "=")
    r = -qa
    c.close(r.data, -np.asarray(xa, float), 0, "negation_wrong", a=a[0])
    c.check(str(r.unit) == ta, "negation_unit")
    untouched(c, [(qa, xa, fa, ta)], "neg")
    edited(c, r, [(qa, xa, fa, ta)], "neg")


def integers(c):
    """Whole numbers as integers of any type are the numbers they are."""
    rng = c.rng
    a = leaf_unit(rng)
    b = a if rng.random() < .4 else like(rng, a[3])
    n = int(rng.choice([1, 3, 20]))
    xa, xb = rng.integers(10, 20, n), rng.integers(0, 10, n)
    if rng.random() < .3:
        xa[...], n = 120, 0
    ka, kb = gen.integers(rng, xa), gen.integers(rng, xb)
    if rng.random() < .5:
        ka = xa + .5 if rng.random() < .5 else ka
    elif rng.random() < .3:
        ka, kb = float(xa[0]), kb
    elif rng.random() < .3:
        ka, kb = ka, kb[0]
    va, vb = np.asarray(ka, float), np.asarray(kb, float)
    kinds = [str(np.asarray(x).dtype) for x in (ka, kb)]
    c.note(a=a[0], b=b[0], xa=ka, xb=kb, kinds=kinds)
    c.sig("integers", a[0], b[0], *kinds, int(np.ravel(xa)[0]))
    c.state("kinds", *kinds)
    c.event("integers", np.size(xa))
    qa, qb = Quantity(ka, a[1]), Quantity(kb, b[1])
    # the answer, unless its own type cannot hold it
    same = a[0] == b[0]
    typ = np.result_type(np.asarray(ka), np.asarray(kb))
    whole = typ.kind in "iu"

    def holds(x):
        return not whole or not same or bool(np.all(x >= np.iinfo(typ).min) and
                                             np.all(x <= np.iinfo(typ).max))
    for name, op in ARITH.items():
        for left, right, l, r, fl, fr in ((qa, qb, va, vb, a, b), (qb, qa, vb, va, b, a)):
            if name == "/" and np.any(r == 0) or not holds(op(l, r)):
                continue
            if name in "+-":
                want, f = op(l * fl[2], r * fr[2]), 1
                got = op(left, right).to(fl[1]) * np.float64(fl[2])
            else:
                want = op(l * fl[2], r * fr[2])
                res = op(left, right)
                target, f = canonical(combine(fl[3], fr[3], 1 if name == "*" else -1), rng)
                got = res.to(target) * np.float64(f)
            c.event("integer_results")
            c.close(got, want, 1e-9 * (np.max(np.abs(l)) * fl[2] + np.max(np.abs(r)) * fr[2])
                    if name in "+-" else 0, "integers_wrong", rtol=1e-9, op=name, kinds=kinds,
                    units=[fl[0], fr[0]])
    near = np.abs(va * a[2] - vb * b[2]) <= 1e-9 * (np.abs(va * a[2]) + np.abs(vb * b[2]))
    for name, op in COMPARE.items():
        wrong = (np.asarray(op(qa, qb)) != op(va * a[2], vb * b[2])) & ~near
        c.check(not np.any(wrong), "integers_compared_wrong", op=name, kinds=kinds)
    for k in (3.5, -2.25):
        c.close((qb - k).data, vb - k, 1e-9, "integers_less_a_number", kinds=kinds)
        c.close((k - qb).data, k - vb, 1e-9, "a_number_less_integers", kinds=kinds)
        c.close((qb + k).data, vb + k, 1e-9, "integers_and_a_number", kinds=kinds)
        c.close((qb * k).data, vb * k, 1e-9, "integers_times_a_number", kinds=kinds)
        c.close((qb / k).data, vb / k, 1e-9, "integers_over_a_number", kinds=kinds)


def numbers(c):
    """Plain numbers: added in the quantity's unit, multiplied as factors."""
    rng = c.rng
    a = leaf_unit(rng)
    s = shapes(rng)[0]
    x = value(rng, s)
    k = [3, -2, 0.5, 7.25, 1, -1, 0.0, 1000][rng.integers(0, 8)]
    q = Quantity(x, a[1])
    f, t = frozen(x), str(a[1])
    v = np.asarray(x, float)
    c.note(unit=a[0], x=x, k=k)
    c.sig("number", a[0], k, s)
    rows = [("q+k", lambda: q + k, v + k), ("k+q", lambda: k + q, v + k),
            ("q-k", lambda: q - k, v - k), ("k-q", lambda: k - q, k - v),
            ("q*k", lambda: q * k, v * k), ("k*q", lambda: k * q, v * k)]
    if k:
        rows.append(("q/k", lambda: q / k, v / k))
    for name, fn, want in rows:
        r = fn()
        c.event("numbers")
        c.check(isinstance(r, Quantity), "not_a_quantity", op=name)
        c.close(r.to(a[1]), want, 1e-9, "number_wrong", rtol=1e-12, op=name, unit=a[0], k=k)
        c.check(r.unit.dimension == a[1].dimension, "number_dimension", op=name)
        edited(c, r, [(q, x, f, t)], name)
    r = k / q
    target, fac = canonical({d: -p for d, p in a[3].items()}, rng)
    if c.check(r.unit.dimension == target.dimension, "reciprocal_dimension", a=a[0]):
        c.close(r.to(target), k / (v * a[2]) / fac, 0, "reciprocal_wrong", rtol=1e-9,
                a=a[0], k=k)
    untouched(c, [(q, x, f, t)], "numbers")
    for other in ("x", None, [1], {}, u.m):
        for op in ARITH.values():
            if other is u.m:
                continue
            c.raises(TypeError, lambda: op(q, other), "foreign_operand_allowed",
                     other=repr(other))


def comparisons(c):
    rng = c.rng
    a = leaf_unit(rng)
    b = like(rng, a[3])
    sa, sb = shapes(rng)
    xa = value(rng, sa)
    mode = rng.integers(0, 6)
    xb = value(rng, sb)
    if mode == 0:                       # the same values in the same unit
        b, xb, sb = a, np.array(xa, copy=True) if sa else xa, sa
    elif mode == 1:                     # clearly below or above, some on each side
        shape = sa or sb
        xb = np.asarray(xa, float) * a[2] / b[2] * rng.choice([0.5, 2.0], shape or None)
        if not shape:
            xb = float(xb)
    elif mode == 4:                     # the same unit, values next to each other
        b, sb = a, sa
        k = 10.0 ** rng.integers(-15, 3)
        xa = np.asarray(xa, float) * k
        xb = np.where(rng.random(sa) < .5, np.nextafter(xa, np.inf * rng.choice([-1, 1])),
                      xa * (1 + rng.choice([-1, 0, 1]) * 10.0 ** rng.integers(-14, -5)))
        if not sa:
            xa, xb = float(xa), float(xb)
        c.event("neighbours")
    elif mode == 5:                     # values no number is equal to or beyond
        odd = [np.nan, np.inf, -np.inf, 0.0, -0.0, 1.0]
        xa = rng.choice(odd, sa) if sa else float(rng.choice(odd))
        xb = rng.choice(odd, sb) if sb else float(rng.choice(odd))
        c.event("special_values")
    qa, qb = Quantity(xa, a[1]), Quantity(xb, b[1])
    fa, fb = frozen(xa), frozen(xb)
    ta, tb = str(a[1]), str(b[1])
    va, vb = np.asarray(xa, float) * a[2], np.asarray(xb, float) * b[2]
    exact = a[0] == b[0]
    near = np.abs(va - vb) <= 1e-9 * (np.abs(va) + np.abs(vb))
    c.note(a=a[0], b=b[0], xa=xa, xb=xb)
    c.sig("compare", a[0], b[0], sa, sb, int(mode))
    c.state("comparison_units", a[0], b[0])
    if exact:
        va, vb = np.asarray(xa, float), np.asarray(xb, float)
    for name, op in COMPARE.items():
        want = op(va, vb)
        got = op(qa, qb)
        c.event("comparisons", np.size(want))
        c.require(np.shape(got) == np.shape(want), "comparison_shape", op=name, a=a[0], b=b[0],
                  got=np.shape(got), want=np.shape(want))
        c.check(np.asarray(got).dtype == bool, "not_a_truth_value", op=name,
                got=type(got).__name__)
        wrong = np.asarray(got, bool) != want
        if not exact:
            wrong &= ~near
        c.check(not np.any(wrong), "comparison_wrong", op=name, a=a[0], b=b[0], xa=xa, xb=xb,
                got=got, want=want)
    untouched(c, [(qa, xa, fa, ta), (qb, xb, fb, tb)], "comparison")
    # exact equalities across units: a larger unit is a whole number of smaller ones
    big, small, k = [("km", "m", 1000), ("hr", "s", 3600), ("dy", "hr", 24),
                     ("min", "s", 60), ("hourangle", "deg", 15), ("m", "m", 1)][
                         rng.integers(0, 6)]
    n = int(rng.integers(-50, 50))
    left, right = Quantity(float(k * n), gen.unit(small)), Quantity(float(n), gen.unit(big))
    for name, op in COMPARE.items():
        c.check(bool(op(left, right)) == (name in ("==", "<=", ">=")), "exact_comparison",
                op=name, left=str(left), right=str(right))


def mismatched(c):
    rng = c.rng
    a, b = leaf_unit(rng), leaf_unit(rng)
    if a[3] == b[3]:
        return
    sa, sb = shapes(rng)
    qa, qb = Quantity(value(rng, sa), a[1]), Quantity(value(rng, sb), b[1])
    c.note(a=a[0], b=b[0])
    c.sig("mismatch", a[0], b[0])
    for name, op in COMPARE.items():
        c.raises(ArithmeticError, lambda: op(qa, qb), "comparison_allowed", op=name, a=a[0],
                 b=b[0])
    k = [5, 5.0, "5", None][rng.integers(0, 4)]
    for name in ("<", "<=", ">", ">="):
        c.raises(TypeError, lambda: COMPARE[name](qa, k), "number_ordering_allowed", op=name,
                 other=repr(k))
    q = Quantity(5.0, a[1])
    c.check((q == k) is False and (q != k) is True, "equal_to_a_number", unit=a[0],
            other=repr(k))


def expressions(c):
    """Whole expressions keep value and dimension."""
    rng = c.rng
    n = int(rng.integers(1, 8))
    shape = (n,) if rng.random() < 0.7 else ()
    leaves = []

    def build(depth, dims=None):
        if depth == 0 or (dims is not None and rng.random() < 0.3):
            t = like(rng, dims) if dims is not None else leaf_unit(rng)
            x = np.abs(value(rng, shape if rng.random() < 0.8 else ()))
            q = Quantity(x, t[1])
            leaves.append((q, x, frozen(x), str(t[1])))
            return q, np.asarray(x, float) * t[2], dict(t[3]), t[0]
        op = rng.integers(0, 4) if dims is None else rng.integers(0, 2)
        if op == 0:
            a = build(depth - 1, dims)
            b = a if not (a[2] in ({"L": 1}, {"T": 1}, {"A": 1}, {"L": 1, "T": -1})) \
                else build(0, a[2])
            return a[0] + b[0], a[1] + b[1], a[2], "(%s+%s)" % (a[3], b[3])
        if op == 1:
            a = build(depth - 1, dims)
            k = float(rng.choice([2, 0.5, 3]))
            return k * a[0], k * a[1], a[2], "(%g*%s)" % (k, a[3])
        a, b = build(depth - 1), build(depth - 1)
        if op == 2:
            return a[0] * b[0], a[1] * b[1], combine(a[2], b[2], 1), "(%s*%s)" % (a[3], b[3])
        return a[0] / b[0], a[1] / b[1], combine(a[2], b[2], -1), "(%s/%s)" % (a[3], b[3])

    q, v, dims, text = build(int(rng.integers(1, 5)))
    c.note(expression=text)
    c.sig(text)
    c.event("expressions")
    target, f = canonical(dims, rng)
    if c.check(q.unit.dimension == target.dimension, "expression_dimension",
               expression=text, got=q.unit.dimension, want=target.dimension):
        # additions are of positive values: no cancellation
        c.close(np.broadcast_to(q.to(target), v.shape), v / f, 0, "expression_value",
                rtol=1e-8, expression=text)
    c.check(q.dimension == q.unit.dimension, "dimension_property")
    untouched(c, leaves, text)


QUICK = 4            # times as many in the quick tier
SCENARIOS = [("binary", binary, 1200, 30000),
             ("grids", grids, 250, 8000), ("integers", integers, 400, 8000), ("numbers", numbers, 500, 8000),
             ("comparisons", comparisons, 1000, 30000),
             ("mismatched", mismatched, 400, 6000),
             ("expressions", expressions, 1000, 30000)]
