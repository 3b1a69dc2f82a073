"""C19 collections of windows, model-checked over histories."""
import itertools
import numpy as np
from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.encounter.window_handling import (ObservationWindow, VisibleTimeWindow,
                                              WindowCollection)
from celest.units.quantity import Quantity
import gen

PROPERTY = "C19"
RULE = ("histories of additions (right, wrong and foreign types), interleaved complete, "
        "partial, nested and concurrent iterations, indexing and slicing, against a list; "
        "distinct by history")
ASSUMPTIONS = []
REQUIRED = ["operations", "iterations", "nested_iterations", "rejections_seen",
            "additions", "slices", "stepped"]


def attitude(rng, n, loc):
    jd = 2459000.5 + np.arange(n) / 1440
    return Attitude(jd, *(rng.uniform(-1, 1, n) for _ in range(3)), u.rad, loc)


def window(rng, cls, loc):
    t = float(rng.uniform(2458000, 2460000))
    a = attitude(rng, int(rng.integers(1, 4)), loc)
    if cls is VisibleTimeWindow:
        return VisibleTimeWindow(t, t + float(rng.uniform(0, .01)), a)
    return ObservationWindow(Quantity(t, u.jd2000), Quantity(float(rng.uniform(1, 99)), u.s),
                             loc, a)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def history(c):
    rng = c.rng
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    first = [VisibleTimeWindow, ObservationWindow][rng.integers(0, 2)]
    other = ObservationWindow if first is VisibleTimeWindow else VisibleTimeWindow
    col, model, ops = WindowCollection(), [], []
    twin = WindowCollection()                  # collections do not share anything
    open_iterators = []                        # (iterator, what it still has to give)
    if rng.random() < .15:                     # long before the history starts
        model = [window(rng, first, loc) for _ in range(int(rng.choice([20, 70, 300])))]
        for w in model:
            col.add_window(w)
    for _ in range(int(rng.integers(5, 60))):
        op = int(rng.integers(0, 13))
        ops.append(op)
        c.event("operations")
        if op <= 2:
            w = window(rng, first, loc)
            col.add_window(w)
            model.append(w)
            c.event("additions")
            open_iterators = []                # a list may be seen growing or not
        elif op == 3 and model:
            w = window(rng, other, loc)
            c.raises(TypeError, lambda: col.add_window(w), "mixed_windows_allowed",
                     first=first.__name__)
        elif op == 4:
            for bad in (None, 5, "window", Quantity(1.0, u.s), (1, 2), VisibleTimeWindow, col):
                c.raises(TypeError, lambda: col.add_window(bad), "foreign_allowed",
                         what=repr(bad)[:60])
        elif op == 5:
            c.event("iterations")
            c.check(same([w for w in col], model), "iteration_wrong", ops=ops)
        elif op == 6:                          # stop in the middle, start again
            k = int(rng.integers(0, len(model) + 1))
            part = list(itertools.islice(col, k))
            c.check(same(part, model[:k]), "partial_iteration_wrong", ops=ops)
            c.event("iterations")
            c.check(same(list(col), model), "iteration_after_break_wrong", ops=ops)
        elif op == 7:                          # nested
            pairs = [(a, b) for a in col for b in col]
            want = [(a, b) for a in model for b in model]
            c.event("nested_iterations")
            c.check(len(pairs) == len(want) and all(
                p[0] is q[0] and p[1] is q[1] for p, q in zip(pairs, want)),
                "nested_iteration_wrong", ops=ops, got=len(pairs), want=len(want))
            zipped = list(zip(col, col))
            c.check(same([a for a, _ in zipped], model) and same([b for _, b in zipped],
                    model), "parallel_iteration_wrong", ops=ops)
        elif op == 8:                          # indexing
            for i in range(-len(model), len(model)):
                c.check(col[i] is model[i], "index_wrong", index=i, ops=ops)
            for i in (len(model), -len(model) - 1):
                c.raises(IndexError, lambda: col[i], "index_allowed", index=i)
        elif op == 9:
            k = [None if rng.random() < .3 else int(rng.integers(-9, 9)) for _ in range(3)]
            k[2] = k[2] or None
            if rng.random() < .15:
                k = [None] * 3
            c.event("slices")
            part = col[slice(*k)]
            c.check(same(list(part), model[slice(*k)]), "slice_wrong", slice=k)
            if isinstance(part, list):         # and is the caller's own
                del part[::2]
                part.append(None)
                c.check(same(list(col), model), "editing_a_slice_edits_the_collection",
                        slice=k, ops=ops)
        elif op == 10:
            if open_iterators and rng.random() < .7:
                it, rest = open_iterators[int(rng.integers(0, len(open_iterators)))]
                got = next(it, None)
                c.check(got is (rest.pop(0) if rest else None), "open_iterator_wrong", ops=ops)
            else:
                open_iterators.append((iter(col), list(model)))
        elif op == 11:                         # stepped through by hand, twice
            for _ in range(2):
                got = []
                for w in iter(lambda: next(col, None), None):
                    got.append(w)
                    if len(got) > len(model):
                        break
                    if rng.random() < .2:
                        c.check(same(list(col), model), "iteration_wrong", ops=ops)
                c.event("stepped")
                c.check(same(got, model), "stepping_wrong", ops=ops, got=len(got),
                        want=len(model))
        else:
            text = str(col) + repr(col)        # describing changes nothing
            c.check(text.count("Window") >= len(model), "text")
            if model:
                c.check((model[0] in col) and (window(rng, first, loc) not in col),
                        "membership_wrong")
        c.check(len(col) == len(model), "length_wrong", got=len(col), want=len(model), ops=ops)
        c.check(len(twin) == 0, "collections_shared", ops=ops)
    c.check(same(list(col), model), "contents_wrong", ops=ops)
    c.state("length", len(model))
    c.note(first=first.__name__, operations=ops)
    c.sig(first.__name__, *ops)


def windows(c):
    """A window keeps what it was made of."""
    rng = c.rng
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    t, s = float(rng.uniform(2400000, 2500000)), float(rng.uniform(0, 1))
    a = attitude(rng, 3, loc)
    c.note(rise=t, set=t + s)
    c.sig("window", t)
    w = VisibleTimeWindow(t, t + s, a)
    c.check(w.rise_time.to(u.jd2000) == t and w.set_time.to(u.jd2000) == t + s and
            w.attitude is a, "visible_window_changed")
    c.check(repr(t) in str(w) and repr(t + s) in str(w), "visible_window_text", text=str(w))
    unit = str(rng.choice(gen.TIMES))
    q = Quantity(float(rng.uniform(1, 100)), gen.unit(unit))
    o = ObservationWindow(Quantity(t, u.jd2000), q, loc, a)
    c.close(o.duration.to(u.s), q.to(u.s), 0, "duration_changed", rtol=1e-12)
    c.check(o.start_time.to(u.jd2000) == t and str(o.location) == str(loc) and
            o.attitude is a, "observation_window_changed")
    c.check(str(loc) in str(o), "observation_window_text", text=str(o))
    c.event("operations", 2)


def empty(c):
    """An empty collection cannot be saved; a used one starts over with any class."""
    col = WindowCollection()
    c.raises(Exception, lambda: col.save_text_file("nothing"), "empty_saved")
    c.check(list(col) == [] and len(col) == 0, "not_empty")
    c.raises(IndexError, lambda: col[0], "empty_index")
    c.event("operations")
    c.sig("empty", c.index)


QUICK = 2            # times as many in the quick tier
SCENARIOS = [("history", history, 600, 25000), ("windows", windows, 100, 3000),
             ("empty", empty, 3, 3)]
