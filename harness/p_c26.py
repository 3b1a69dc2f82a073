"""C26 results depend on the arguments only: no hidden state, no side effects."""
import copy
import decimal
import gc
import json
import locale
import os
import pickle
import random
import resource
import signal
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
import warnings
import numpy as np
from celest import units as u
from celest.coordinates import astronomical_quantities as A
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.encounter import window_generator as WG
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
from celest.file_save import TextFileWriter
from celest.satellite import Satellite
from celest.schedule import Scheduler
from celest.time import Time
from celest.units.quantity import Quantity
import gen
import ref
import sched as S
import p_c18
import p_c20
try:
    import celest.coordinates.nutation_precession_matrices as M
except ImportError:
    M = None

PROPERTY = "C26"
RULE = ("operations of the whole library on shared objects of several look-alike worlds, "
        "in random orders, repeated, and from concurrent threads with preemption every few "
        "microseconds and delays anywhere in the library, and whole schedules in processes with other hash seeds; every answer "
        "compared bit by bit with the one a process gives which has done nothing else; "
        "distinct by order")
ASSUMPTIONS = ["threads share inputs which none of them changes; the scheduler draws from "
               "Python's global random source and is run from one thread"]
REQUIRED = ["operations", "repeats", "thread_operations", "thread_switch_orders",
            "state_checks", "process_runs", "schedules_repeated", "operation_kinds",
            "pristine_processes", "cold_starts", "answers_edited",
            "injected_delays", "shared_answers_edited", "answers_kept",
            "passing_operations", "interruptions", "worlds_copied"]


def freeze(x):
    """Bitwise rendering of an answer."""
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [repr(v) for v in x.ravel()]
        return (str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return (str(x.dtype), x.tobytes())
    if isinstance(x, Quantity):
        return ("Q", freeze(x.data), str(x.unit))
    if isinstance(x, (tuple, list)):
        return [freeze(v) for v in x]
    if isinstance(x, GroundLocation):
        return [freeze(q) for q in (x.latitude, x.longitude, x.height)]
    out = [type(x).__name__]
    for name in ("x", "y", "z", "latitude", "longitude", "height", "azimuth", "elevation",
                 "roll", "pitch", "yaw", "time", "location", "rise_time", "set_time",
                 "start_time", "duration", "attitude"):
        if hasattr(x, name):
            out.append((name, freeze(getattr(x, name))))
    if len(out) == 1 and hasattr(x, "__iter__"):
        out += [freeze(v) for v in x]
    if len(out) == 1:
        out.append(repr(x))
    return out


def saved(save):
    """What one saves, in a file of its own: its text. A name one thread does not share."""
    folder = tempfile.mkdtemp(prefix="celest-c26-")
    try:
        save(os.path.join(folder, "data"))
        with open(os.path.join(folder, "data.txt"), encoding="utf-8", newline="") as f:
            return f.read() + " in " + " ".join(sorted(os.listdir(folder)))
    finally:
        shutil.rmtree(folder)


def layers(w, name):
    writer = TextFileWriter(name, "World")
    writer.add_layer("Place", [["At", str(w.location)]], [["Length", w.length],
                                                         ["Dates", w.jd]])
    writer.add_layer("Angles", None, [["Angle", w.angle], ["Longitude", w.longitude]], "%.3f")
    writer.save()


class World:
    """Objects to work on, made from plain numbers; worlds of one case look alike:
    the same number of samples, and partly the same dates or places."""

    def __init__(self, spec):
        jd, r, v, place, frames, lon = spec
        self.arrays = [np.array(a) for a in (jd, *r.T, *v.T, lon)]
        for a in self.arrays:
            a.flags.writeable = False
        t, x, y, z, vx, vy, vz, lo = self.arrays
        cls = {"gcrs": GCRS, "itrs": ITRS}
        self.position = cls[frames[0]](t, x, y, z, u.km)
        self.velocity = cls[frames[1]](t, vx, vy, vz, u.km / u.s)
        self.satellite = Satellite(self.position, self.velocity)
        own = [np.clip(x / 200, -80, 80), np.abs(y) / 10, np.abs(lo) / 2]
        for a in own:
            a.flags.writeable = False
        self.wgs = WGS84(t, own[0], lo, own[1], u.deg, u.km)
        self.coordinate = Coordinate(self.position)
        self.location = GroundLocation(*place, u.deg, u.km)
        self.time = Time(t)
        self.longitude = lo
        self.jd = Quantity(t, u.jd2000)
        self.length = Quantity(x, u.km)
        self.angle = Quantity(own[2], u.deg)
        self.windows = WindowCollection()
        for a, b in zip(t, t[1:]):
            self.windows.add_window(VisibleTimeWindow(a, b, None))

    def seen(self):
        return freeze([self.position, self.velocity, self.satellite.position,
                       self.satellite.velocity, self.wgs, self.location, self.time.julian,
                       self.jd, self.length, self.angle, self.windows] + self.arrays)


def operations():
    ops = {}

    def op(name):
        def add(f):
            ops[name] = f
            return f
        return add
    for n in ("itrs", "gcrs", "wgs84"):
        cls = {"itrs": ITRS, "gcrs": GCRS, "wgs84": WGS84}[n]
        ops["to_" + n] = lambda w, cls=cls: Coordinate(w.position).convert_to(cls)
        ops["wgs_to_" + n] = lambda w, cls=cls: Coordinate(w.wgs).convert_to(cls)
    ops["to_azel"] = lambda w: Coordinate(w.position).convert_to(AzEl, w.location)
    ops["wgs_to_azel"] = lambda w: Coordinate(w.wgs).convert_to(AzEl, w.location)
    for n in ("attitude", "distance", "look_angle"):
        ops["satellite_" + n] = lambda w, n=n: getattr(w.satellite, n)(w.location)
    for n, cls in (("itrs", ITRS), ("gcrs", GCRS), ("wgs84", WGS84)):
        ops["shared_to_" + n] = lambda w, cls=cls: w.coordinate.convert_to(cls)
    ops["shared_to_azel"] = lambda w: w.coordinate.convert_to(AzEl, w.location)
    ops["altitude"] = lambda w: w.satellite.altitude()
    ops["new_satellite"] = lambda w: [Satellite(w.position, w.velocity).position,
                                      Satellite(w.position, w.velocity).velocity]
    for n in ("ut1", "datetime", "gmst", "gast"):
        ops["time_" + n] = lambda w, n=n: getattr(w.time, n)()
    for n in ("true_solar_time", "mean_solar_time", "true_hour_angle", "mean_hour_angle",
              "lmst", "last"):
        ops["time_" + n] = lambda w, n=n: getattr(w.time, n)(w.longitude)
        ops["time_%s_at" % n] = lambda w, n=n: getattr(w.time, n)(
            float(w.longitude[0]))
    for n in ("earth_rotation_angle", "nutation_angles", "nutation_components",
              "conventional_precession_angles", "mean_obliquity", "apparent_obliquity",
              "from_julian", "day_of_year", "equation_of_time", "equation_of_equinoxes",
              "sun_right_ascension"):
        if hasattr(A, n):
            ops["sky_" + n] = lambda w, n=n: getattr(A, n)(w.jd)
    for n in ("precession_matrix", "nutation_matrix"):
        if hasattr(M, n):
            ops["sky_" + n] = lambda w, n=n: getattr(M, n)(w.jd)
    if hasattr(M, "bias_matrix"):
        ops["sky_bias_matrix"] = lambda w: M.bias_matrix()
    for n in ("latitude", "longitude", "height", "radius", "itrs_x", "itrs_y", "itrs_z"):
        ops["place_" + n] = lambda w, n=n: getattr(w.location, n)
    ops["place_text"] = lambda w: str(w.location) + repr(w.location)
    if hasattr(WG, "_get_sun_gcrs"):
        ops["sky_sun"] = lambda w: WG._get_sun_gcrs(w.jd.data)
    ops["vtws"] = lambda w: generate_vtws(w.satellite, w.location, 10, Lighting.ANYTIME)
    ops["vtws_low"] = lambda w: generate_vtws(w.satellite, w.location, 0, Lighting.ANYTIME)
    ops["vtws_day"] = lambda w: generate_vtws(w.satellite, w.location, 5, Lighting.DAYTIME)
    ops["vtws_night"] = lambda w: generate_vtws(w.satellite, w.location, 5,
                                                Lighting.NIGHTTIME)
    ops["q_add"] = lambda w: w.length + Quantity(3.0, u.mi)
    ops["q_div"] = lambda w: w.length / Quantity(7.0, u.min)
    ops["q_mul"] = lambda w: (w.length * w.length) * w.angle
    ops["q_cmp"] = lambda w: [w.length < Quantity(1.0, u.mi), w.length >= w.length,
                              w.angle != Quantity(3.0, u.rad)]
    ops["q_to"] = lambda w: [w.length.to(u.mm), w.angle.to(u.hourangle), w.jd.to(u.jd2000)]
    ops["q_neg"] = lambda w: [-w.length, 3 - w.length, 2 / w.length]
    ops["unit_text"] = lambda w: [str(x) + str(x.dimension) for x in (
        u.km / u.s, (u.km / u.hr) ** 2, u.N if hasattr(u, "N") else u.deg / u.s, 5 * u.m)]
    ops["unit_scale"] = lambda w: [Quantity(1.0, u.km / u.hr).to(u.m / u.s),
                                   Quantity(2.0, u.km ** 2).to(u.m ** 2)]
    ops["save_frames"] = lambda w: [saved(x.save_text_file) for x in (w.position, w.velocity,
                                                                      w.wgs)]
    ops["save_satellite"] = lambda w: saved(w.satellite.save_text_file)
    ops["save_windows"] = lambda w: saved(w.windows.save_text_file)
    ops["save_table"] = lambda w: saved(lambda name: layers(w, name))
    ops["windows"] = lambda w: [str(w.windows), repr(w.windows), len(w.windows),
                                [[a.rise_time, b.set_time] for a in w.windows[:3]
                                 for b in w.windows[-3:]],
                                [x.rise_time for x in w.windows]]
    ops["table"] = lambda w: [w.position.to_numpy(u.m), w.velocity.to_numpy(u.m / u.s)]
    return ops


OPS = operations()


def inside(place):
    """Nearly the place, where it and its neighbours are places on Earth."""
    return (float(np.clip(place[0], -85, 85)), float(np.clip(place[1], -176, 176)),
            float(place[2]))


def some_worlds(rng, count):
    """Worlds sharing sizes, ends of their dates, places - whatever a cache might key on."""
    n = int(rng.choice([2, 3, 20, 60, 60, 250]))
    jd, r, v, _ = gen.orbit(rng, n=n, step=float(rng.choice([10, 30, 60, 1500])), kind=str(
        rng.choice(["leo", "sso", "meo"])))
    place = (round(float(rng.uniform(-80, 80)), 3), round(float(rng.uniform(-170, 170)), 3),
             round(float(rng.uniform(0, 3)), 3))
    frames = [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)]
    if rng.random() < .7:                          # a place the satellite passes over
        over = r[[n // 2]]
        if frames[0] == "gcrs":
            over = np.einsum("kij,kj->ki", ref.erfa_c2t(jd[[n // 2]]), over)
        place = tuple(round(float(x[0]), 3) for x in ref.ecef_to_geodetic(over)[:2]) + place[2:]
        place = inside(place)
    lon = rng.uniform(-180, 180, n)
    base = [jd, r, v, place, frames, lon]
    out = [tuple(base)]
    while len(out) < count:
        s = list(base)
        what = int(rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]))
        if what == 0:                              # other dates between, or after
            t = jd.copy()
            part = [slice(1, -1), slice(1, None), slice(0, -1)][int(rng.integers(0, 3))]
            t[part] += rng.uniform(0, float(rng.choice([1e-4, 1e-3, 100])), len(t[part]))
            s[0] = np.sort(t)
            if n > 2 and rng.random() < .4:        # the same ends, but crowded at one
                s[0] = jd[0] + (jd[-1] - jd[0]) * np.linspace(0, 1, n) ** 2
                s[0][-1] = jd[-1]
        elif what == 1:                            # other dates altogether
            s[0] = jd + float(rng.choice([1 / 86400, .5, 1, 3652.5]))
        elif what == 2:                            # the same ends, another way between
            q = r.copy()
            q[1:-1] *= 1 + rng.uniform(-.01, .01, (max(n - 2, 0), 1))
            s[1] = q
        elif what == 3:
            s[3] = (place[0] + float(rng.choice([1e-7, .001, 1])), place[1], place[2])
        elif what == 4:
            s[3] = (place[0], place[1], place[2] + float(rng.choice([1e-6, 1])))
        elif what == 5:
            s[2] = v * np.array([1, -1, .5])
        elif what == 7:                            # another satellite
            s[1] = r * rng.choice([-1., 1.2, .98], 3)
        else:
            s[4] = ["itrs" if f == "gcrs" else "gcrs" for f in frames]
        out.append(tuple(s))
    return out


def umask():
    now = os.umask(0o22)
    os.umask(now)
    return now


class Globals:
    """Process-wide state which no operation has any business changing."""

    def __init__(self):
        self.now = self.read()

    @staticmethod
    def read():
        return {"python random": hash(random.getstate()),
                "numpy random": freeze(np.random.get_state()[1]),
                "numpy errors": sorted(np.geterr().items()),
                "numpy printing": repr(sorted(np.get_printoptions().items())),
                "directory": os.getcwd(), "environment": hash(frozenset(os.environ.items())),
                "recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(),
                "warnings": repr(warnings.filters), "locale": locale.setlocale(locale.LC_ALL),
                "decimal": repr(decimal.getcontext()), "path": list(sys.path),
                "time zone": time.tzname, "trace": (sys.gettrace(), sys.getprofile()),
                "streams": (sys.stdout, sys.stderr), "collector": gc.isenabled(),
                "numpy buffer": np.getbufsize(), "umask": umask(),
                "signals": [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM,
                                                          signal.SIGALRM)],
                "files": sorted(os.listdir(".")), "threads": threading.active_count(),
                "descriptors": len(os.listdir("/proc/self/fd")),
                "stack": threading.stack_size(), "hooks": (sys.excepthook, sys.displayhook),
                "printing": (np.get_printoptions()["precision"],
                             np.get_printoptions()["threshold"]),
                "collector thresholds": gc.get_threshold(), "limits": [
                    resource.getrlimit(x) for x in (resource.RLIMIT_STACK,
                                                    resource.RLIMIT_NOFILE)],
                "units": [str(x) + repr(x) + str(x.dimension) + repr(Quantity(1.0, x).to(y))
                          for x, y in ((u.km, u.m), (u.hr, u.s), (u.arcsec, u.rad),
                                       (u.mi, u.km))]}

    def check(self, c, label, allowed=()):
        c.event("state_checks")
        now = self.read()
        changed = [k for k in now if now[k] != self.now[k] and k not in allowed]
        c.check(not changed, "global_state_changed", what=changed, by=label)
        c.check(not NUMPY_CHANGED, "numpy_error_handling_changed", by=NUMPY_CHANGED[:5])
        del NUMPY_CHANGED[:]
        self.now = now


NUMPY_CHANGED = []            # operations which left numpy's error handling changed


def answer(op, world):
    with np.errstate(divide="warn", invalid="warn", over="warn", under="ignore"):
        keep = np.geterr()
        out = freeze(OPS[op](world))
        if np.geterr() != keep:
            NUMPY_CHANGED.append(op)
        return out


class Pristine:
    """Answers from processes which have done nothing else.

    A helper process is forked before this one performs any operation; for every
    question it forks a child, which answers and ends. No memory of earlier
    questions, in whatever form the library might keep it, reaches the answer."""

    def __init__(self):
        ask, self.questions = os.pipe()
        self.answers, tell = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(ask)
            os.close(tell)
            return
        try:
            os.close(self.questions)
            os.close(self.answers)
            while True:
                data = self.take(ask)
                if data is None:
                    break
                r, w = os.pipe()
                child = os.fork()
                if not child:
                    try:
                        os.close(r)
                        function, args = pickle.loads(data)
                        with p_c18.patched():
                            out = (True, function(*args))
                    except BaseException as e:
                        out = (False, repr(e)[:500])
                    self.put(w, pickle.dumps(out))
                    os._exit(0)
                os.close(w)
                got = self.take(r)
                os.close(r)
                os.waitpid(child, 0)
                self.put(tell, got or pickle.dumps((False, "the process died")))
        finally:
            os._exit(0)

    @staticmethod
    def put(fd, data):
        data = struct.pack("<q", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    @staticmethod
    def take(fd):
        def exactly(n):
            out = b""
            while len(out) < n:
                b = os.read(fd, min(n - len(out), 1 << 20))
                if not b:
                    return None
                out += b
            return out
        head = exactly(8)
        return head and exactly(struct.unpack("<q", head)[0])

    def __call__(self, function, *args):
        self.put(self.questions, pickle.dumps((function, args)))
        ok, out = pickle.loads(self.take(self.answers))
        if not ok:
            raise RuntimeError("in a fresh process: " + str(out))
        return out


PRISTINE = None


def pristine(c, function, *args):
    global PRISTINE
    if PRISTINE is None:
        PRISTINE = Pristine()
    c.event("pristine_processes")
    return PRISTINE(function, *args)


def alone(op, spec):
    return answer(op, World(spec))


def orders(c):
    pristine(c, len, ())                 # the helper starts out before anything else
    rng = c.rng
    specs = some_worlds(rng, int(rng.integers(2, 5)))
    names = list(OPS)
    c.run.states["operation"].update(names)
    c.run.events["operation_kinds"] = len(names)
    with p_c18.patched():
        plan = [(str(rng.choice(names)), int(rng.integers(0, len(specs))))
                for _ in range(int(rng.choice([20, 60])))]
        # what fresh objects answer, one operation each, in another order
        fresh = {}
        todo = sorted(set(plan))
        for i in rng.permutation(len(todo)):
            o, k = todo[i]
            fresh[o, k] = pristine(c, alone, o, specs[k])
        shared = [World(s) for s in specs]
        before = [w.seen() for w in shared]
        g = Globals()
        c.note(specs=[(s[0][0], s[3], s[4]) for s in specs], plan=plan)
        c.sig(*plan, specs[0][0][0])
        done, kept = set(), []
        edits = rng.random() < .5            # the owners of some answers edit them
        for o, k in plan:
            if rng.random() < .05:               # a copy of the objects serves as well
                w = shared[k]
                shared[k] = (copy.deepcopy(w) if rng.random() < .5 else
                             pickle.loads(pickle.dumps(w)))
                lock(shared[k])                  # still not to be written to
                c.event("worlds_copied")
            for _ in range(2 if rng.random() < .2 else 1):
                with np.errstate(divide="warn", invalid="warn", over="warn", under="ignore"):
                    raw = OPS[o](shared[k])
                    got = freeze(raw)
                c.event("operations")
                c.check(got == fresh[o, k], "answer_depends_on_history", operation=o, world=k,
                        plan=plan)
                c.event("repeats", int((o, k) in done))
                done.add((o, k))
                if edits and rng.random() < .5:
                    for a in mine(raw):
                        if a.dtype.kind in "fiu":
                            a[...] = 77
                            c.event("shared_answers_edited")
                elif len(kept) < 40:
                    kept.append((o, k, raw, got))
            if rng.random() < .25:
                g.check(c, o)
        g.check(c, "the operations")
        for k, w in enumerate(shared):
            c.check(w.seen() == before[k], "shared_objects_changed", world=k, plan=plan)
        for o, k, raw, got in kept:
            c.event("answers_kept")
            c.check(freeze(raw) == got, "earlier_answer_changed", operation=o, world=k,
                    plan=plan)


def passing(c):
    """Arguments come and go, and their memory is used again for others."""
    pristine(c, len, ())
    rng = c.rng
    specs = some_worlds(rng, 4)
    if c.index % 3 == 0:                          # many samples
        n = int(rng.choice([400, 1100, 1500]))
        jd, r, v, _ = gen.orbit(rng, n=n, step=10.0)
        specs = [(jd, r, v, s[3], s[4], rng.uniform(-180, 180, n)) for s in specs[:2]]
        specs.append((jd + 1, r * 1.01, v, specs[0][3], ["gcrs", "itrs"][::int(
            rng.choice([-1, 1]))], specs[0][5]))
    names = list(OPS)
    few = [str(x) for x in rng.choice(names, 3)] + [str(x) for x in rng.choice(
        [o for o in names if "_to_" in o or o.startswith("to_")], 2)]
    plan = []
    for _ in range(24):
        s = specs[rng.integers(0, len(specs))]
        what = str(rng.choice(["world", "place", "longitude"]))
        plan.append((str(rng.choice(few if rng.random() < .6 else names)), what, s))
    c.note(plan=[p[:2] for p in plan], jd=specs[0][0], place=specs[0][3])
    c.sig("passing", *[p[:2] for p in plan], specs[0][0][0])
    places = [tuple(np.round(specs[0][3], 3) + rng.choice([0, .25, -1.5], 3))
              for _ in range(4)]
    with p_c18.patched():
        w, now = World(specs[0]), list(specs[0])
        kept, keeping = [], c.index % 2 == 0       # answers may hold arguments
        for o, what, s in plan:
            if what == "world":
                w = None
                w, now = World(s), list(s)
            elif what == "place":
                now[3] = places[rng.integers(0, 4)]
                w.location = None
                w.location = GroundLocation(*now[3], u.deg, u.km)
            else:
                now[5] = s[5] * float(rng.choice([1, .5, -1])) if len(s[5]) == len(now[5]) \
                    else now[5]
                w.longitude = w.angle = None
                w.longitude = now[5].copy()
                w.angle = Quantity(np.abs(now[5]) / 2, u.deg)
            if o.startswith("wgs") or o == "save_frames":       # holds longitudes of its own
                w, now = World(tuple(now)), now
            want = pristine(c, alone, o, tuple(now))
            raw = OPS[o](w)
            c.event("passing_operations")
            c.check(freeze(raw) == want, "answer_for_an_argument_gone", operation=o,
                    changed=what)
            for k in kept:
                c.check(freeze(k[1]) == k[2], "earlier_answer_changed", operation=k[0], by=o)
            if keeping and len(kept) < 12:
                kept.append((o, raw, want))
            raw = None


def mine(x, seen=None):
    """The arrays of an answer which its owner may edit."""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            yield x
    elif isinstance(x, Quantity):
        yield from mine(x.data, seen)
    elif isinstance(x, (tuple, list)):
        for v in x:
            yield from mine(v, seen)
    elif not isinstance(x, (str, bytes, int, float, np.generic, type(None))):
        for name in ("x", "y", "z", "latitude", "longitude", "height", "azimuth",
                     "elevation", "roll", "pitch", "yaw", "time", "rise_time", "set_time",
                     "attitude"):
            if hasattr(x, name):
                yield from mine(getattr(x, name), seen)
        if hasattr(x, "__iter__"):
            for v in x:
                yield from mine(v, seen)


def lock(x, seen=None):
    """Keep all arrays an object is made of from being written to."""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, (tuple, list)):
        for v in x:
            lock(v, seen)
    else:
        for v in (x if isinstance(x, dict) else getattr(x, "__dict__", {})).values():
            lock(v, seen)


def edited(c):
    """Who edits what was answered edits nothing of what will be answered to others."""
    pristine(c, len, ())
    rng = c.rng
    spec = some_worlds(rng, 1)[0]
    names = [str(x) for x in rng.permutation(list(OPS))[:12]]
    c.note(jd=spec[0], place=spec[3], frames=spec[4], operations=names)
    c.sig("edited", *names, spec[0][0])
    with p_c18.patched():
        for o in names:
            fresh = pristine(c, alone, o, spec)
            count = 0
            for a in mine(OPS[o](World(spec))):
                if a.dtype.kind in "fiu":
                    a[...] = 77
                    count += 1
            c.event("answers_edited", count)
            got = answer(o, World(spec))
            c.check(got == fresh, "edited_answer_came_back", operation=o)
        after = {o: pristine(c, alone, o, spec) for o in names[:3]}
        for o in after:
            c.check(answer(o, World(spec)) == after[o], "answers_edited_elsewhere",
                    operation=o)


def threads(c):
    """Concurrent use of shared objects."""
    rng = c.rng
    specs = some_worlds(rng, 3)
    names = [o for o in OPS]
    count = 6
    plans = [[(str(rng.choice(names)), int(rng.integers(0, 3))) for _ in range(15)]
             for _ in range(count)]
    hot = [(str(rng.choice(names)), int(rng.integers(0, 3))) for _ in range(3)]
    for p in plans:                       # the same operations at the same time
        for _ in range(6):
            p.insert(int(rng.integers(0, len(p))), hot[int(rng.integers(0, 3))])
    c.note(specs=[(s[0][0], s[3], s[4]) for s in specs], plans=plans)
    c.sig("threads", *[tuple(p) for p in plans])
    fresh = {ok: pristine(c, alone, ok[0], specs[ok[1]]) for ok in
             sorted({x for p in plans for x in p})}
    # in a process in which nothing has been called yet, or in this one
    cold = c.index % 2 == 0
    c.note(process="new" if cold else "used")
    if cold:
        got, order, held, changed = pristine(c, together, specs, plans)
    else:
        with p_c18.patched():
            got, order, held, changed = together(specs, plans)
    c.event("thread_operations", sum(len(p) for p in plans))
    running, overlapped = set(), 0        # operations begun while another one runs
    for x in order:
        if x >= 0:
            overlapped += bool(running)
            running.add(x)
        else:
            running.discard(-x - 1)
    c.event("thread_switch_orders", int(overlapped > 0))
    c.event("overlapping_operations", overlapped)
    c.event("cold_starts", int(cold))
    c.event("injected_delays", held)
    c.state("interleaving", tuple(order))
    wrong = [(i, o, k, "another answer" if e is None else e) for i, o, k, v, e in got
             if e is not None or v != fresh[o, k]]
    c.check(len(got) == sum(len(p) for p in plans), "operations_lost", got=len(got))
    c.check(not wrong, "concurrent_use", wrong=wrong[:5])
    c.check(not changed, "shared_objects_changed_by_threads", worlds=changed)


def together(specs, plans):
    """The plans run by one thread each on shared worlds; preempted every 5 us."""
    shared = [World(s) for s in specs]
    before = [w.seen() for w in shared]
    got, order, held, barrier = [], [], [], threading.Barrier(len(plans))

    def work(i):
        source = random.Random(i)

        def line(frame, event, arg):        # a thread is held up anywhere in the library
            if event == "line" and source.random() < .04:
                held.append(i)
                time.sleep(source.choice((0, 1e-6, 2e-4)))
            return line

        def call(frame, event, arg):
            return line if "/celest/" in frame.f_code.co_filename else None
        barrier.wait()
        sys.settrace(call)
        for o, k in plans[i]:
            order.append(i)
            try:
                got.append((i, o, k, answer(o, shared[k]), None))
            except Exception as e:
                got.append((i, o, k, None, repr(e)[:300]))
            order.append(-i - 1)
        sys.settrace(None)
    keep = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(plans))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(keep)
    return got, order, len(held), [k for k, w in enumerate(shared) if w.seen() != before[k]]


def view(rng, spec):
    """Another place, or other longitudes, to be used with the other objects of a world."""
    s = list(spec)
    if rng.random() < .7:
        s[3] = inside(np.round(spec[3] + rng.choice([0, .25, -1.5, 3], 3), 3))
        return tuple(s), "place"
    s[5] = spec[5] * float(rng.choice([.5, -1, .9]))
    return tuple(s), "longitude"


def seen_through(world, spec, what):
    other = copy.copy(world)
    if what == "place":
        other.location = GroundLocation(*spec[3], u.deg, u.km)
    elif what == "longitude":      # "same": the very same objects
        other.longitude = np.array(spec[5])
    return other


def interruptions(spec, first, visitors, visits):
    """One operation, with others run from another thread at lines of the library.

    visitors: (operation, its numbers, "place" or "longitude" when it shares all else with
    the first one's, or "world"); lines are interrupted when first reached, and on the
    visits given: all of those near the call, and of those farther down as many as take
    a few seconds, by chance. Returns the answers, the visitors' different answers and where each was
    first had, and the number of lines interrupted."""
    world = World(spec)
    guests = [World(s) if what == "world" else seen_through(world, s, what)
              for _, s, what in visitors]
    found, answers, places, late, box = {}, [{} for _ in visitors], [], [], []
    source, spent = random.Random(len(repr(visitors))), [0.0]

    def visit(i, at):
        try:
            a = answer(visitors[i][0], guests[i])
        except Exception as e:
            a = repr(e)[:300]
        answers[i].setdefault(repr(a), (at, a))

    def line(frame, event, arg):
        if event == "line":
            at = (frame.f_code.co_filename, frame.f_lineno)
            found[at] = n = found.get(at, 0) + 1
            if n in visits and len(late) < 2:
                up = frame.f_back                # a function the first one calls, or nearer
                if up is not None and "/celest/" in up.f_code.co_filename:
                    up = up.f_back
                if up is not None and "/celest/" in up.f_code.co_filename and \
                        source.random() * spent[0] > .002 * len(places):
                    return line
                i, began = len(places) % len(visitors), time.time()
                places.append((os.path.basename(at[0]), at[1], n))
                t = threading.Thread(target=visit, args=(i, places[-1]))
                t.start()
                t.join(.5)           # it may wait for a lock the first one holds
                if t.is_alive():
                    late.append(t)
                spent[0] += time.time() - began
        return line

    def run():
        sys.settrace(lambda frame, event, arg:
                     line if "/celest/" in frame.f_code.co_filename else None)
        try:
            box.append(answer(first, world))
        except Exception as e:
            box.append(repr(e)[:300])
        finally:
            sys.settrace(None)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    for x in late:
        x.join(20)
    return box[0], [list(a.values()) for a in answers], places


def interrupted(c):
    """An operation stopped at each of its lines while another one runs from start to end."""
    pristine(c, len, ())
    rng = c.rng
    specs = some_worlds(rng, 3)
    while len(specs[0][0]) > 60:
        specs = some_worlds(rng, 3)
    names = list(OPS)
    first = names[c.index % len(names)]
    c.state("interrupted_operation", first)
    with p_c18.patched():
        want = pristine(c, alone, first, specs[0])
        for cold in (False, True):
            visitors = []
            for o in (first, first if rng.random() < .5 else str(rng.choice(names))):
                s, what = specs[rng.integers(1, 3)], "world"
                if rng.random() < .6:
                    s, what = view(rng, specs[0])
                    if what == "longitude" and not o.startswith("time_"):
                        s, what = specs[0], "same"
                visitors.append((o, s, what))
            visits = {1, int(rng.choice([2, 3, 4, 6, 10, 30]))}
            f = (lambda *a: pristine(c, interruptions, *a)) if cold else interruptions
            got, answers, places = f(specs[0], first, visitors, visits)
            c.event("interruptions", len(places))
            c.sig("interrupted", first, cold, *[v[0] for v in visitors], len(places))
            for p in places:
                c.state("interrupted_at", p[:2])
            c.note(first=first, visitors=[(v[0], v[2]) for v in visitors], cold=cold)
            c.check(got == want, "another_operation_changes_the_answer", operation=first,
                    by=[v[0] for v in visitors], cold=cold)
            for (o, s, what), found in zip(visitors, answers):
                if found:
                    mine = pristine(c, alone, o, s)
                    wrong = [at for at, a in found if a != mine]
                    c.check(not wrong, "answer_within_another_operation", operation=o,
                            within=first, at=wrong, shared=what, cold=cold)


def make_schedule(rng, seed, reqs, noise):
    s = Scheduler(p_c20.some_satellite(), 10)
    S.fill(rng, s.request_handler, reqs)
    noise()
    random.seed(seed)
    got = s.generate(6, .8, .5)
    return [(S.key(w.location), float(w.start_time.data).hex(),
             float(w.duration.to(u.s)).hex(), freeze(w.attitude)) for w in got]


def make_schedule_afresh(fixed, seed, reqs):
    return make_schedule(np.random.default_rng(fixed), seed, reqs, lambda: None)


def schedules(c):
    """The same requests and seed give the same schedule."""
    rng = c.rng
    reqs, mode = S.draw(rng, n=int(rng.integers(3, 10)), mode=str(rng.choice(
        ["shared", "crowded", "nested"])))
    seed = int(rng.integers(0, 2 ** 31))
    c.note(mode=mode, seed=seed, requests=[r.describe() for r in reqs])
    c.sig("schedules", mode, seed)
    fixed = int(rng.integers(0, 2 ** 31))
    results = []
    for k in range(3):
        other, _ = S.draw(np.random.default_rng(fixed + k), n=3)

        def noise():
            if k:
                x = Scheduler(p_c20.some_satellite(), 10)
                S.fill(np.random.default_rng(1), x.request_handler, other)
                x.generate(3, .5, .5)
        g = Globals()
        results.append(make_schedule(np.random.default_rng(fixed), seed, reqs, noise))
        g.check(c, "a schedule", {"python random"})
        c.event("schedules_repeated")
    results.append(pristine(c, make_schedule_afresh, fixed, seed, reqs))
    c.check(all(x == results[0] for x in results), "same_seed_another_schedule",
            schedules=[[x[:2] for x in r] for r in results])


WORKER = """
import sys, random, hashlib, json
sys.path.insert(0, %(harness)r)
import numpy as np
import core, p_c26 as M, p_c18, p_c20, sched as S
rng = np.random.default_rng(%(seed)d)
out = {}
specs = M.some_worlds(rng, 2)
with p_c18.patched():
    for k, s in enumerate(specs):
        w = M.World(s)
        for o in M.OPS:
            out["%%s %%d" %% (o, k)] = hashlib.sha256(repr(M.answer(o, w)).encode()).hexdigest()
for k in range(3):
    reqs, mode = S.draw(rng, n=6, mode="crowded")
    got = M.make_schedule(np.random.default_rng(%(seed)d), 7, reqs, lambda: None)
    out["schedule %%d" %% k] = hashlib.sha256(repr(got).encode()).hexdigest()
print(json.dumps(out))
"""


def processes(c):
    """Nothing depends on the hash seed, or on which process computes it."""
    seed = int(c.rng.integers(0, 2 ** 31))
    c.note(seed=seed)
    c.sig("processes", seed)
    code = WORKER % {"harness": os.path.dirname(os.path.abspath(__file__)), "seed": seed}
    runs = []
    for h in ("0", "1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env,
                           capture_output=True, text=True, timeout=300)
        c.require(p.returncode == 0, "process_failed", error=p.stderr[-1500:])
        runs.append(json.loads(p.stdout.strip().split("\n")[-1]))
        c.event("process_runs")
    differ = [k for k in runs[0] if any(r.get(k) != runs[0][k] for r in runs)]
    c.check(not differ, "depends_on_the_process", operations=differ[:10])


HISTORY = True        # a replay repeats the cases before

SCENARIOS = [("orders", orders, 70, 4000), ("passing", passing, 30, 1000),
             ("edited", edited, 40, 1000),
             ("threads", threads, 20, 1200), ("interrupted", interrupted, 80, 1500),
             ("schedules", schedules, 12, 500), ("processes", processes, 3, 60)]
