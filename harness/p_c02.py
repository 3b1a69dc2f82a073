"""C02 unit conversion of values."""
import itertools
import numpy as np
from celest import units as u
from celest.units.core import Unit
from celest.units.quantity import Quantity
import gen

PROPERTY = "C02"
RULE = ("every ordered pair of units of one dimension (and random velocity, area and rate "
        "units) with scalars and arrays of many shapes, dtypes and layouts; non-trivial: "
        "the two units differ; distinct by (units, data kind, shape)")
ASSUMPTIONS = ["international definitions of the units (SI brochure, 1959 yard)"]
REQUIRED = ["conversions", "round_trips", "rejections_seen", "definitions",
            "results_edited", "namesakes"]


def gridded(rng):
    """Several dimensions, in some order in memory."""
    a = rng.normal(size=rng.integers(1, 6, int(rng.integers(2, 5))))
    mode = int(rng.integers(0, 5))
    if mode == 0:
        return np.asfortranarray(a)
    if mode == 1:
        return a.T
    if mode == 2:
        return np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, 1::2]
    return a[::-1] if mode == 3 else a


def data(rng):
    kind = int(rng.integers(0, 15))
    n = gen.size(rng)
    if kind == 0:
        return "int", int(rng.integers(-1000, 1000))
    if kind == 1:
        return "float", float(rng.normal() * 10.0 ** rng.integers(-8, 9))
    if kind == 2:
        return "np.float64", np.float64(rng.normal() * 1e3)
    if kind == 3:
        return "int array", rng.integers(-10 ** 6, 10 ** 6, n)
    if kind == 4:
        return "2d", gridded(rng)
    if kind == 5:
        return "empty", np.zeros(0)
    if kind == 6:
        a = rng.normal(size=n)
        a[rng.integers(0, n)] = rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0])
        return "special", a
    if kind == 7:
        return "zero", 0.0
    if kind == 8:
        return "0d", np.array(rng.normal())
    if kind == 9:
        return "int32 array", rng.integers(-1000, 1000, n).astype(np.int32)
    if kind == 10:
        return "float32 array", (rng.normal(size=n) * 100).astype(np.float32)
    if kind == 11:
        return "small ints", rng.integers(0, 120, n).astype(rng.choice([np.int8, np.uint8,
                                                                        np.uint16]))
    return "array", gen.layout(rng, rng.normal(size=n) * 10.0 ** rng.integers(-9, 10))


def pick(rng, table=None):
    """A unit of some dimension and its factor; returns (text, unit, factor, dim)."""
    mode = rng.integers(0, 7)
    if mode == 6:                   # powers that are not whole
        d = "LTA"[rng.integers(0, 3)]
        p = [0.5, 1.5, 4 / 3, 1.23456, -2 / 3][rng.integers(0, 5)]
        n = str(rng.choice(list(gen.TABLE[d])))
        return "%s**%r" % (n, p), gen.unit(n) ** p, gen.factor(n) ** p, "%s**%r" % (d, p)
    if mode <= 2:
        d = str(rng.choice(["L", "T", "A"]))
        n = str(rng.choice(list(gen.TABLE[d])))
        return n, gen.unit(n), gen.factor(n), d
    L, T, A = (str(rng.choice(list(gen.TABLE[d]))) for d in "LTA")
    if mode == 3:
        return "%s/%s" % (L, T), gen.unit(L) / gen.unit(T), gen.factor(L) / gen.factor(T), "L/T"
    if mode == 4:
        return "%s**2" % L, gen.unit(L) ** 2, gen.factor(L) ** 2, "L2"
    return "%s/%s**2" % (A, T), gen.unit(A) / gen.unit(T) ** 2, \
        gen.factor(A) / gen.factor(T) ** 2, "A/T2"


def same_dim(rng, dim):
    for _ in range(4000):
        p = pick(rng)
        if p[3] == dim:
            return p
    raise RuntimeError


def frozen(x):
    return (type(x).__name__, getattr(x, "dtype", None), np.array(x, copy=True))


def is_frozen(x, f):
    return type(x).__name__ == f[0] and getattr(x, "dtype", None) == f[1] and \
        np.array_equal(np.array(x), f[2], equal_nan=True)


def convert(c):
    rng = c.rng
    a = pick(rng)
    b = same_dim(rng, a[3])
    kind, x = data(rng)
    c.note(source=a[0], target=b[0], kind=kind, data=x)
    if a[0] != b[0]:
        c.sig(a[0], b[0], kind, np.shape(x))
    c.state("unit_pair", a[0], b[0])
    f = frozen(x)
    q = Quantity(x, a[1])
    ua = str(a[1])
    r = q.convert_to(b[1])
    c.event("conversions")
    expected = np.asarray(x, float) * (a[2] / b[2])
    tol = 1e-6 if kind == "float32 array" else 1e-12
    c.close(r.data, expected, 0, "value_wrong", rtol=tol, source=a[0], target=b[0], kind=kind)
    c.close(q.to(b[1]), expected, 0, "to_value_wrong", rtol=tol, source=a[0], target=b[0])
    c.check(str(r.unit) == str(b[1]), "unit_wrong", got=str(r.unit), want=str(b[1]))
    c.check(np.shape(r.data) == np.shape(x), "shape_changed", kind=kind)
    c.check(isinstance(r.data, np.ndarray) == isinstance(x, np.ndarray) or np.ndim(x) == 0,
            "container_changed", kind=kind, got=type(r.data).__name__)
    c.check(is_frozen(q.data, f) and is_frozen(x, f) and str(q.unit) == ua, "source_modified",
            source=a[0], target=b[0], kind=kind)
    # what is handed out is the caller's own to edit
    for target in (b[1], a[1]):
        for out, text in ((q.to(target), "to"), (q.convert_to(target).data, "convert_to")):
            if isinstance(out, np.ndarray) and out.flags.writeable:
                c.event("results_edited")
                out[...] = -77
                c.check(is_frozen(q.data, f) and is_frozen(x, f), "result_shares_the_source",
                        by=text, source=a[0], target=str(target), kind=kind)
    back = r.convert_to(a[1])
    c.event("round_trips")
    c.close(back.data, np.asarray(x, float), 0, "round_trip", rtol=tol, source=a[0],
            target=b[0])
    d = same_dim(rng, a[3])
    c.close(r.convert_to(d[1]).data, q.to(d[1]), 0, "not_transitive", rtol=tol,
            path=[a[0], b[0], d[0]])
    # linear
    k = 3.0
    if kind != "special":
        c.close(Quantity(np.asarray(x, float) * k, a[1]).to(b[1]), expected * k, 0,
                "not_homogeneous", rtol=tol, source=a[0], target=b[0])


def huge(c):
    """Very long data is converted like any other, and is the caller's own too."""
    rng = c.rng
    a = pick(rng)
    b = same_dim(rng, a[3])
    n = int(rng.choice([65537, 131073, 300001, 1100000]))
    x = rng.normal(size=n) * 100
    keep = x.copy()
    c.note(source=a[0], target=b[0], n=n)
    c.sig("huge", n, a[0], b[0])
    q = Quantity(x, a[1])
    r = q.convert_to(b[1])
    c.event("conversions")
    c.close(r.data, keep * (a[2] / b[2]), 0, "long_value_wrong", rtol=1e-12, n=n)
    c.check(str(r.unit) == str(b[1]) and str(q.unit) == str(a[1]), "long_unit_wrong", n=n)
    for target in (b[1], a[1]):
        for out in (q.to(target), q.convert_to(target).data):
            if out.flags.writeable:
                c.event("results_edited")
                out[...] = -77
                c.check(np.array_equal(x, keep) and np.array_equal(q.data, keep),
                        "long_result_shares_the_source", n=n, target=str(target))


def all_pairs(c):
    """Exhaustive over the named units of one dimension."""
    for d, table in gen.TABLE.items():
        for a, b in itertools.product(table, table):
            x = np.array([1.0, -2.5, 0.0, 1e6])
            got = Quantity(x, gen.unit(a)).to(gen.unit(b))
            c.event("conversions")
            c.close(got, x * gen.factor(a) / gen.factor(b), 0, "pair_wrong", rtol=1e-12,
                    source=a, target=b)
            c.state("named_pair", a, b)
    names = list(gen.DIM_OF)
    for a, b in itertools.product(names, names):
        if gen.DIM_OF[a] != gen.DIM_OF[b]:
            c.raises(ValueError, lambda: Quantity(1.0, gen.unit(a)).to(gen.unit(b)),
                     "incompatible_allowed", source=a, target=b)
    c.note(pairs="all")
    c.sig("all pairs")


def definitions(c):
    """The named units are the international ones."""
    c.note(units=list(gen.DIM_OF))
    base = {"L": u.m, "T": u.s, "A": u.deg, "D": u.jd2000}
    for d, table in gen.TABLE.items():
        for n, f in table.items():
            got = Quantity(1.0, gen.unit(n)).to(base[d])
            c.event("definitions")
            if n in gen.ROUNDED and abs(got - gen.ROUNDED[n]) < 1e-12:
                c.finding("rounded-" + n, unit=n, factor=got, definition=f)
                continue
            c.close(got, f, 0, "definition_wrong", rtol=1e-12, unit=n)


def rejected(c):
    rng = c.rng
    a, b = pick(rng), pick(rng)
    if a[3] == b[3]:
        return
    kind, x = data(rng)
    c.note(source=a[0], target=b[0])
    c.sig("rejected", a[0], b[0])
    q = Quantity(x, a[1])
    f = frozen(x)
    c.raises(ValueError, lambda: q.to(b[1]), "incompatible_to", source=a[0], target=b[0])
    c.raises(ValueError, lambda: q.convert_to(b[1]), "incompatible_convert_to",
             source=a[0], target=b[0])
    c.check(is_frozen(q.data, f) and str(q.unit) == str(a[1]), "changed_by_rejection")


def namesakes(c):
    """Different units of one name, and one unit under several names."""
    rng = c.rng
    d = str(rng.choice(["L", "T", "A"]))
    n = str(rng.choice(list(gen.TABLE[d])))
    k = float(rng.choice([2.0, 0.5, 1.852, 1e-9, 1e9]) * rng.integers(1, 5))
    name = n if rng.random() < 0.6 else "own"
    make = lambda k, n: Unit(name, "own unit", {}, k * gen.unit(n))
    a, fa = make(k, n), k * gen.factor(n)
    t = float(rng.choice([3, 1.0000001, 1 + 1e-10]))      # or all but the same size
    m = str(rng.choice(list(gen.TABLE[d])))
    b, fb = [(make(k * t, n), k * t * gen.factor(n)), (gen.unit(m), gen.factor(m)),
             (make(k, m), k * gen.factor(m)), (gen.unit(n), gen.factor(n))][rng.integers(0, 4)]
    p = [1, 2, -1][rng.integers(0, 3)]
    if p != 1:
        a, fa, b, fb = a ** p, fa ** p, b ** p, fb ** p
    if rng.random() < 0.3:
        a, b = a / u.s if d != "T" else a * u.m, b / u.s if d != "T" else b * u.m
    kind, x = data(rng)
    c.note(name=name, of=n, k=k, other=str(b), power=p, data=x)
    c.sig("namesake", name, n, k, str(b), p)
    c.event("namesakes")
    for s, fs, t, ft in ((a, fa, b, fb), (b, fb, a, fa)):
        r = Quantity(x, s).convert_to(t)
        tol = 1e-6 if kind == "float32 array" else 1e-12
        c.close(r.data, np.asarray(x, float) * (fs / ft), 0, "namesake_value", rtol=tol,
                source=str(s), target=str(t), factors=[fs, ft])
        c.close(r.to(s), np.asarray(x, float), 0, "namesake_round_trip", rtol=tol)
    # a name says nothing about the dimension
    other = str(rng.choice(list(gen.TABLE["T" if d != "T" else "L"])))
    v = Unit(other, "namesake of another dimension", {}, k * gen.unit(n))
    c.raises(ValueError, lambda: Quantity(1.0, v).to(gen.unit(other)), "namesake_dimension",
             name=other, of=n)
    c.close(Quantity(1.0, v ** 2).to(gen.unit(n) ** 2), k * k, 0, "namesake_square", rtol=1e-12,
            name=other, of=n)


def history(c):
    """A long chain of conversions of one quantity neither drifts nor loses it."""
    rng = c.rng
    a = pick(rng)
    x = rng.normal(size=gen.size(rng)) * 100
    q0 = q = Quantity(x, a[1])
    path = [a[0]]
    for _ in range(int(rng.integers(5, 40))):
        b = same_dim(rng, a[3])
        q = q.convert_to(b[1])
        path.append(b[0])
    c.note(path=path)
    c.sig(*path)
    c.event("chains")
    c.close(q.to(a[1]), x, 0, "chain_drift", rtol=1e-11, path=path)
    c.close(q0.data, x, 0, "chain_changed_source")


QUICK = 5            # times as many in the quick tier
SCENARIOS = [("all_pairs", all_pairs, 1, 1), ("definitions", definitions, 1, 1),
             ("convert", convert, 1500, 40000), ("rejected", rejected, 500, 8000),
             ("history", history, 150, 4000),
             ("huge", huge, 6, 40), ("namesakes", namesakes, 300, 8000)]
