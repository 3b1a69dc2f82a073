"""C24 saved text files read back as what was saved."""
import os
import re
import numpy as np
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.encounter.window_handling import (ObservationWindow, VisibleTimeWindow,
                                              WindowCollection)
from celest.file_save import TextFileWriter
from celest.satellite import Satellite
from celest.units.quantity import Quantity
import gen

PROPERTY = "C24"
RULE = ("frames, satellites and window collections of every size, unit and magnitude, and "
        "layered tables of numbers and text, saved and read back by an independent reader; "
        "distinct by content")
ASSUMPTIONS = ["15 decimals are kept: values are compared to 6e-16 absolute plus a "
               "relative rounding"]
os.environ["P_C24"] = "sub/variable"
REQUIRED = ["files_read", "rows_read", "columns_read", "overwritten_longer_file",
            "multi_layer_files", "single_rows", "rejections_seen"]


def blocks(path):
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    return text, text.split("\n\n")


def heading(c, block, kind="heading"):
    lines = block.split("\n")
    c.require(len(lines) == 2, kind + "_lines", lines=lines[:4])
    c.check(lines[1] == "=" * len(lines[0]), kind + "_underline", lines=lines)
    return lines[0]


def table(c, block, kind="table"):
    """(labels, rows of cells): columns aligned and underlined."""
    lines = block.split("\n")
    c.require(len(lines) >= 2, kind + "_too_short", lines=lines[:3])
    cells = [ln.split("\t") for ln in lines]
    widths = [len(x) for x in cells[0]]
    for row in cells:
        c.check([len(x) for x in row] == widths, kind + "_misaligned", row=row, head=cells[0])
    for x, w in zip(cells[1], widths):
        c.check(x == "-" * w, kind + "_underline", underline=cells[1])
    # no wider than needed
    for k in range(len(widths)):
        need = max(len(row[k].strip()) for n, row in enumerate(cells) if n != 1 and
                   len(row) > k)
        c.check(widths[k] <= max(need, 1) or widths[k] == need, kind + "_too_wide",
                width=widths[k], need=need)
    c.event("columns_read", len(widths))
    c.event("rows_read", len(lines) - 2)
    return [x.strip() for x in cells[0]], [[x.strip() for x in row] for row in cells[2:]]


def columns(c, labels, rows, expected, kind):
    """expected: [(label, unit or None, values)] in order."""
    want = [l if un is None else "%s (%s)" % (l, un) for l, un, _ in expected]
    c.require(labels == want, kind + "_labels", got=labels, want=want)
    n = len(expected[0][2])
    c.require(len(rows) == n, kind + "_rows", got=len(rows), want=n)
    for k, (label, _, values) in enumerate(expected):
        texts = [row[k] for row in rows]
        v = np.asarray(values)
        if v.dtype.kind in "fiu":
            try:
                got = np.array([float(t) for t in texts])
            except ValueError:
                c.fail(kind + "_not_numbers", column=label, texts=texts[:5])
                continue
            c.check(all(DECIMALS.match(t) for t in texts), kind + "_decimals", column=label,
                    texts=[t for t in texts if not DECIMALS.match(t)][:3])
            c.close(got, v.astype(float), 6e-16, kind + "_values", rtol=3e-16, column=label)
        else:
            c.check(texts == [str(x).strip() for x in v], kind + "_texts", column=label)


DECIMALS = re.compile(r"-?(\d+\.\d{15}|nan|inf)$")


def name(rng):
    base = str(rng.choice(["data", "a.b", "file txt", "x.TXT", "ünïcode", "txt", "n.txt.bak",
                           "sub/data", ".hidden", " led", "trailing ", "ends.", "-x", "50%d",
                           "data.csv", "t.txt.txt", "$P_C24", "{x}", "a\\b", "./here",
                           "sub/../up", os.path.abspath("whole"), "x" * 200]))
    ext = bool(rng.integers(0, 2))
    given = base + (".txt" if ext else "")
    return given, given if given.endswith(".txt") else given + ".txt"


def save(c, rng, thing, remember):
    """Save under some name and return the path; saving changes nothing but that file."""
    given, path = name(rng)
    os.makedirs("sub", exist_ok=True)
    c.note(file=given)
    before_files = set(os.listdir(".")) | {"sub/" + f for f in os.listdir("sub")}
    long_ = rng.random() < .3
    if long_:
        with open(path, "w") as f:
            f.write("old\n" * 20000)
    before = remember()
    c.check(thing.save_text_file(given) is None or True, "saved")
    c.require(os.path.exists(path), "no_file", want=path, files=os.listdir("."))
    made = set(os.listdir(".")) | {"sub/" + f for f in os.listdir("sub")}
    c.check(made - before_files <= {os.path.relpath(path)}, "other_files_written", files=sorted(
        made - before_files))
    c.check(gen.same_snapshot(before, remember()), "saving_changed_the_data")
    with open(path, "rb") as f:
        one = f.read()
    if long_:
        c.event("overwritten_longer_file")
        c.check(b"old\nold" not in one, "old_content_left")
    if rng.random() < .3:
        thing.save_text_file(given)
        with open(path, "rb") as f:
            c.check(f.read() == one, "saved_twice_differs")
    c.event("files_read")
    return path


def values(rng, n, kind=None):
    kind = kind or str(rng.choice(["unit", "large", "small", "mixed", "integers", "zero",
                                   "special", "f32", "late"]))
    if kind == "unit":
        return rng.uniform(-1, 1, n)
    if kind == "large":
        return rng.uniform(-1, 1, n) * 10.0 ** rng.integers(3, 15)
    if kind == "small":
        return rng.uniform(-1, 1, n) * 10.0 ** -rng.integers(3, 18)
    if kind == "mixed":
        return rng.normal(size=n) * 10.0 ** rng.integers(-12, 12, n)
    if kind == "integers":
        return rng.integers(-10 ** 6, 10 ** 6, n)
    if kind == "late":                         # the widest comes late in a long table
        v = rng.uniform(0, 9, n)
        v[n - 1 - int(rng.integers(0, max(n // 50, 1) if rng.random() < .5 else n))] = -1.5e12
        return v
    if kind == "zero":
        return np.where(rng.random(n) < .5, 0.0, -0.0)
    if kind == "f32":
        return rng.normal(size=n).astype(np.float32)
    v = rng.normal(size=n)
    v[rng.random(n) < .5] = rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e-300])
    return v


def frames(c):
    rng = c.rng
    n = int(rng.choice([1, 1, 2, 3, 10, 57])) if rng.random() < .96 else \
        int(rng.choice([129, 300, 1500, 1500, 12000, 20001]))
    jd = values(rng, n, "large") if rng.random() < .2 else rng.uniform(2400000, 2500000, n)
    cols = [gen.layout(rng, values(rng, n)) for _ in range(3)]
    which = int(rng.integers(0, 6))
    loc, _ = gen.make_location(rng, *gen.location_deg(rng))
    length, angle = gen.unit(str(rng.choice(list(gen.LENGTH)))), gen.unit(str(rng.choice(
        gen.ANGLES)))
    if which <= 2 and rng.random() < .3:
        length = length / gen.unit(str(rng.choice(gen.TIMES)))
    if which <= 2:
        cls = [GCRS, ITRS, LVLH][which]
        f = cls(jd, *cols, length)
        want = [(l, str(length), v) for l, v in zip(["X", "Y", "Z"], cols)]
        title = cls.__name__
    elif which == 3:
        f = WGS84(jd, *cols, angle, length)
        want = [("Latitude", str(angle), cols[0]), ("Longitude", str(angle), cols[1]),
                ("Height", str(length), cols[2])]
        title = "WGS84"
    elif which == 4:
        f = AzEl(jd, cols[0], cols[1], angle, loc)
        want = [("Azimuth", str(angle), cols[0]), ("Elevation", str(angle), cols[1])]
        title = "Azimuth-Elevation"
    else:
        f = Attitude(jd, *cols, angle, loc)
        want = [(l, str(angle), v) for l, v in zip(["Roll", "Pitch", "Yaw"], cols)]
        title = "Attitude"
    c.note(frame=type(f).__name__, n=n, values=cols, jd=jd)
    c.sig(which, n, *[str(v[0]) for v in cols])
    c.state("frame", title, n == 1, [str(v.dtype.kind) for v in cols])
    c.event("single_rows", int(n == 1))
    want = [("Time", str(u.jd2000), jd)] + want
    path = save(c, rng, f, lambda: gen.snapshot(f))
    text, parts = blocks(path)
    c.check(title in heading(c, parts[0]), "title", got=parts[0][:80], want=title)
    if which >= 4:
        c.require(len(parts) == 3, "parts", got=len(parts))
        c.check(parts[1] == "Location: " + str(loc), "location_line", got=parts[1], want=str(loc))
    else:
        c.require(len(parts) == 2, "parts", got=len(parts))
    columns(c, *table(c, parts[-1]), want, "frame")


def satellites(c):
    rng = c.rng
    jd, r, v, kind = gen.orbit(rng, n=int(rng.choice([1, 2, 5, 30, 1500], p=[.25, .25, .25, .2, .05])), step=60.0)
    sat, frame = gen.satellite(rng, jd, r, v if rng.random() < .7 else None)
    c.note(kind=kind, jd=jd, frame=frame, velocity=sat.velocity is not None)
    c.sig("satellite", jd[0])
    c.event("single_rows", int(len(jd) == 1))
    path = save(c, rng, sat, lambda: gen.snapshot(sat.position, sat.velocity))
    text, parts = blocks(path)
    c.require(len(parts) == 2, "parts", got=len(parts))
    c.check("Satellite" in heading(c, parts[0]), "title", got=parts[0][:80])
    gp = Coordinate(sat.position).convert_to(GCRS)
    want = [("Time", str(sat.position.time.unit), sat.position.time.data)]
    sets = [("Itrs", sat.position, sat.velocity)]
    gv = None
    if sat.velocity is not None:
        gv = Coordinate(sat.velocity).convert_to(GCRS)
    for label, p, w in (("Itrs", sat.position, sat.velocity), ("Gcrs", gp, gv)):
        want += [("%s %s" % (label, a.upper()), str(getattr(p, a).unit), getattr(p, a).data)
                 for a in "xyz"]
        if w is not None:
            want += [("%s V%s" % (label, a.upper()), str(getattr(w, a).unit),
                      getattr(w, a).data) for a in "xyz"]
    columns(c, *table(c, parts[1]), want, "satellite")


def collections_(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 12, 60, 300], p=[.25, .25, .2, .2, .08, .02]))
    col = WindowCollection()
    which = int(rng.integers(0, 2))
    spec = []
    for _ in range(n):
        loc, _ = gen.make_location(rng, *gen.location_deg(rng))
        k = int(rng.integers(1, 4))
        jd = float(rng.uniform(2450000, 2460000)) + np.arange(k) / 1440
        ang = [rng.uniform(-3, 3, k) for _ in range(3)]
        unit = gen.unit(str(rng.choice(gen.ANGLES)))
        a = Attitude(jd, *ang, unit, loc)
        if which == 0:
            col.add_window(VisibleTimeWindow(jd[0], jd[-1], a))
            spec.append((jd[0], jd[-1]))
        else:
            t = str(rng.choice(gen.TIMES))
            s = float(rng.uniform(1, 500))
            col.add_window(ObservationWindow(Quantity(jd[0], u.jd2000), Quantity(
                s / gen.TIME[t], gen.unit(t)), loc, a))
            spec.append((jd[0], s, str(loc)) + tuple(float(q.to(u.deg)[0]) for q in (
                a.roll, a.pitch, a.yaw)))
    c.note(windows=spec)
    c.sig("collection", which, *spec[0])
    c.event("single_rows", int(n == 1))
    kept = list(col)
    path = save(c, rng, col, lambda: gen.snapshot(*[w.attitude for w in col]))
    c.check(len(kept) == len(col) and all(a is b for a, b in zip(kept, col)),
            "collection_changed")
    text, parts = blocks(path)
    c.require(len(parts) == 2, "parts", got=len(parts))
    title = "VisibleTimeWindow" if which == 0 else "ObservationWindow"
    c.check(title in heading(c, parts[0]), "title", got=parts[0][:80])
    labels, rows = table(c, parts[1])
    if which == 0:
        want = [("Rise Time", str(u.jd2000), np.array([s[0] for s in spec])),
                ("Set Time", str(u.jd2000), np.array([s[1] for s in spec]))]
        columns(c, labels, rows, want, "windows")
    else:
        heads = ["Start Time (%s)" % u.jd2000, "Duration (%s)" % u.s, "Location",
                 "Roll (%s)" % u.deg, "Pitch (%s)" % u.deg, "Yaw (%s)" % u.deg]
        c.require(labels == heads and len(rows) == n, "windows_labels", got=labels)
        for row, s in zip(rows, spec):
            c.check(row[2] == s[2], "windows_location", got=row[2], want=s[2])
            for k in (0, 1, 3, 4, 5):
                c.close(float(row[k]), s[k], 1e-14, "windows_values", rtol=1e-12,
                        column=labels[k])


def writer(c):
    """Layers of anything, in the order given."""
    rng = c.rng
    header = [None, "Title", "A longer title, with ünïcode", "X"][rng.integers(0, 4)]
    path = str(rng.choice(["w", "w2.txt"]))
    w = TextFileWriter(path, header)
    layers = []
    for _ in range(int(rng.integers(0 if header else 1, 5))):
        sub = None if rng.random() < .4 else "Section %d" % rng.integers(0, 99)
        par = None if rng.random() < .4 else [
            ["label %d" % i, str(rng.choice(["value", "1.5", "", "43°N", "a: b"]))]
            for i in range(int(rng.integers(1, 4)))]
        data = None
        fmt = str(rng.choice(["%.15f", "%.3f", "%d", "%12.4f", "%.6e", "%g"]))
        n = int(rng.choice([1, 2, 5, 20]))
        if rng.random() < .7 or (sub is None and par is None):
            data = []
            for i in range(int(rng.integers(1, 6))):
                kind = str(rng.choice(["array", "quantity", "text", "int"]))
                label = str(rng.choice(["x", "Label", "A much longer column label", "ü"])) + str(i)
                if kind == "text":
                    v = np.array([str(rng.choice(["a", "some words", "é", "12"]))
                                  for _ in range(n)])
                elif kind == "int":
                    v = rng.integers(-9999, 9999, n)
                else:
                    v = values(rng, n, str(rng.choice(["unit", "large", "integers"])))
                data.append([label, Quantity(v, u.km) if kind == "quantity" else v])
        layers.append((sub, par, data, fmt))
        if fmt == "%.15f" and rng.random() < .5:
            w.add_layer(sub, par, data)
        else:
            w.add_layer(sub, par, data, fmt)
    c.note(header=header, layers=[(s, p, d and [x[0] for x in d], f) for s, p, d, f in layers])
    c.sig("writer", header, *[(s, str(p), f, d and len(d)) for s, p, d, f in layers])
    w.save()
    text, parts = blocks("w.txt" if path == "w" else "w2.txt")
    c.event("files_read")
    c.event("multi_layer_files", int(len(layers) > 1))
    if header is not None:
        c.check(heading(c, parts.pop(0)) == header, "header_text")
    for sub, par, data, fmt in layers:
        if sub is not None:
            c.require(parts and parts.pop(0) == sub, "subheading", want=sub)
        if par is not None:
            got = parts.pop(0) if parts else None
            c.require(got == "\n".join("%s: %s" % (a, b) for a, b in par), "parameters",
                      want=par, got=got)
        if data is not None:
            c.require(bool(parts), "data_missing")
            lines = [ln.split("\t") for ln in parts.pop(0).split("\n")]
            n = len(lines) - 2
            for k, (label, v) in enumerate(data):
                q = isinstance(v, Quantity)
                raw = v.data if q else v
                head = label + (" (%s)" % v.unit if q else "")
                texts = [head] + [x if isinstance(x, str) else fmt % x for x in raw.tolist()]
                width = max(len(x) for x in texts)
                got = [row[k] if k < len(row) else None for row in lines]
                c.event("columns_read")
                c.check(n == len(raw), "row_count", got=n, want=len(raw))
                c.check(got == [texts[0].ljust(width), "-" * width] +
                        [x.ljust(width) for x in texts[1:]], "column", got=got[:4],
                        want=texts[:3], format=fmt)
            c.check(all(len(row) == len(data) for row in lines), "column_count")
    c.check(parts in ([], [""]), "left_over", parts=parts[:2])
    os.remove("w.txt" if path == "w" else "w2.txt")


def refused(c):
    """A file which cannot be written is an error, not silence."""
    rng = c.rng
    c.sig("refused", c.index)
    f = GCRS(*(np.ones(2) for _ in range(4)), u.km)
    c.raises(OSError, lambda: f.save_text_file("no/such/folder/file"), "silently_not_saved")
    c.raises(Exception, lambda: WindowCollection().save_text_file("empty"), "empty_saved")
    c.check(not os.path.exists("empty.txt"), "empty_file_left")


QUICK = 4            # times as many in the quick tier
SCENARIOS = [("frames", frames, 300, 12000), ("satellites", satellites, 40, 1500),
             ("collections", collections_, 80, 3000), ("writer", writer, 150, 6000),
             ("refused", refused, 3, 3)]
