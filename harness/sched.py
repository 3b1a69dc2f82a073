"""Shared workload and oracle for scheduling: imaging requests with their windows.

The oracle works on what was requested (Req), never on the scheduler's own state."""
import itertools
import numpy as np
from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.ground_location import GroundLocation
from celest.encounter.window_handling import VisibleTimeWindow
from celest.units.quantity import Quantity

EPS = 2e-9                    # days: two or three roundings of a Julian date
DAY = 86400.0


class Window:
    def __init__(self, jd, roll, pitch, yaw):
        self.jd, self.roll, self.pitch, self.yaw = jd, roll, pitch, yaw
        self.rise, self.set = float(jd[0]), float(jd[-1])

    @property
    def middle(self):
        return (self.rise + self.set) / 2

    def quality(self, start):
        """10 in the middle, 1 at the ends, linear; before rounding down."""
        return 10 - 9 * abs(start - self.middle) / ((self.set - self.rise) / 2)


class Req:
    def __init__(self, location, deadline, seconds, priority, quality, look, windows,
                 unit="s", vtws=None, exact=False):
        self.location, self.deadline, self.seconds = location, deadline, seconds
        self.priority, self.quality, self.look = priority, quality, look
        self.windows, self.unit, self.vtws = windows, unit, vtws
        self.exact = exact              # attitudes in degrees: no rounding of angles

    @property
    def days(self):
        return self.seconds / DAY

    @property
    def ident(self):
        return ident(self.location, self.seconds)

    def describe(self):
        return dict(location=str(self.location), deadline=self.deadline,
                    seconds=self.seconds, priority=self.priority, quality=self.quality,
                    look=self.look, windows=[(w.rise, w.set) for w in self.windows])

    # the oracle
    def faults(self, start, slack=EPS):
        """Why an observation from `start` would be wrong; None when it is right."""
        best = None
        for w in self.windows:
            f = []
            if start < w.rise - slack or start + self.days > w.set + slack:
                f.append("outside_window")
                if best is None:
                    best = f
                continue
            if np.floor(w.quality(start) + 1e-6) < self.quality:
                f.append("quality")
            if self.look is not None and not self.crosses(w, start):
                f.append("look_angle")
            if best is None or len(f) < len(best) or "outside_window" in best:
                best = f
        best = list(best if best is not None else ["no_window"])
        if start + self.days > self.deadline + slack:
            best.append("deadline")
        return best or None

    def crosses(self, w, start):
        """The desired look angle lies between this sample's and the next one's."""
        i = int(np.argmin(np.abs(w.jd - start)))
        if abs(w.jd[i] - start) > EPS:
            return False
        p = w.pitch[max(i - 1, 0):i + 2] - self.look
        return bool(np.min(p) <= 1e-9 and np.max(p) >= -1e-9)

    def candidates(self):
        return [(lo, hi) for lo, hi, _ in self.placed_candidates()]

    def placed_candidates(self):
        """(earliest, latest start, window) of every surely possible observation: those
        around the middle of a window, or at the one crossing of the look angle."""
        out = []
        for w in self.windows:
            if self.look is None:
                lo, hi = w.middle - self.days / 2, w.middle + self.days / 2
            else:
                d = np.sign(w.pitch - self.look)
                k = np.flatnonzero(d[:-1] * d[1:] < 0)
                z = np.flatnonzero(d == 0)
                if self.exact and len(z) == 1 and not len(k) and 0 < z[0] < len(d) - 1 and \
                        d[z[0] - 1] * d[z[0] + 1] < 0:      # met by a sample
                    lo, hi = w.jd[z[0] - 1], w.jd[z[0]]
                elif len(z) or len(k) != 1 or np.any(np.abs(w.pitch - self.look) < 1e-9):
                    continue
                else:
                    lo, hi = w.jd[k[0]], w.jd[k[0] + 1]
            sure = lo > w.rise + EPS and hi + self.days < w.set - EPS and \
                hi + self.days < self.deadline - EPS
            sure = sure and all(np.floor(w.quality(s) - 1e-6) >= self.quality
                                for s in (lo, hi))
            if sure:
                out.append((lo, hi, (w.rise, w.set)))
        return out


def track(rng, start, seconds, step, exact=False):
    """The samples of one pass, with an attitude that sweeps over the target."""
    n = max(int(round(seconds / step)) + 1, 1)
    jd = start + np.arange(n) * (step / DAY)
    if n > 3 and rng.random() < .2:                     # data is not always regular
        jd[1:-1] = jd[0] + np.sort(rng.uniform(.001, .999, n - 2)) ** float(
            rng.choice([1, 3])) * (jd[-1] - jd[0])
        if np.min(np.diff(jd)) < 1e-8:                  # times must differ
            jd = start + np.arange(n) * (step / DAY)
    x = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
    a = float(rng.uniform(5, 70)) * float(rng.choice([-1, 1]))
    pitch = a * x
    if rng.random() < .2:                               # not monotonic
        pitch = pitch + rng.normal(0, abs(a) / 4, n)
    if rng.random() < .15:
        pitch = np.abs(pitch)
    if rng.random() < .3:
        pitch = pitch + float(rng.uniform(-30, 30))
    return Window(jd, rng.uniform(-40, 40) * (1 - x * x), pitch, rng.uniform(-5, 5, n))


def place(rng):
    lat, lon = float(rng.uniform(-89, 89)), float(rng.uniform(-179, 179))
    return GroundLocation(lat, lon, float(rng.uniform(-.1, 5)), u.deg, u.km)


def again(rng, location):
    """The same place: the same object, an equal one, or one above or below it."""
    kind = int(rng.integers(0, 4))
    if kind == 0:
        return location
    unit = [u.km, u.m][int(rng.integers(0, 2))]
    height = location.height.to(unit)
    if kind == 1:
        height = height + float(rng.choice([-.3, .004, 6, 70])) * (1 if unit is u.km else 1000)
    return GroundLocation(location.latitude.to(u.deg), location.longitude.to(u.deg), height,
                          u.deg, unit)


def draw(rng, n=None, mode=None, look=None, integer=True):
    """A list of requests; mode is how their windows compete."""
    n = int(n or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]))
    mode = mode or str(rng.choice(["shared", "crowded", "crowded", "loose", "apart",
                                   "nested", "exact", "mixed", "epochs", "epochs"]))
    t0 = float(rng.uniform(2455000, 2462000))
    if mode == "exact":
        t0 = float(np.floor(t0))
    span = {"shared": .004, "crowded": .02, "loose": 1.0, "apart": 3.0, "nested": .01,
            "exact": 1 / 32, "mixed": .3, "epochs": .006}[mode]
    # crowds far from each other in time, listed in any order
    apart = float(np.exp(rng.uniform(np.log(.1), np.log(400))))
    if mode == "epochs":
        n = max(n, 5)
    reqs = []
    shared = [track(rng, t0 + .001 + k * .02, float(rng.uniform(300, 900)), 10)
              for k in range(3)]
    for i in range(n):
        windows = []
        k = int(rng.choice([0, 1, 1, 2, 2, 3, 3, 5])) if mode != "apart" else int(rng.choice([1, 2]))
        long = mode in ("loose", "mixed", "apart") and rng.random() < .12
        if long:
            k = int(rng.choice([2, 3, 4]))
        if mode in ("loose", "mixed", "exact", "crowded") and rng.random() < .05:
            k = int(rng.choice([9, 14, 25]))
        if mode == "shared":
            windows = [shared[j] for j in sorted(rng.permutation(3)[:k])]
        elif mode == "nested":
            for j in range(k):
                m, half = t0 + .01 + .02 * j, float(rng.choice([120, 180, 300, 600]))
                windows.append(track(rng, m - half / DAY, 2 * half, 10))
        elif mode == "exact":
            # dyadic dates: observations can touch each other exactly
            for j in sorted(rng.permutation(32)[:k]):
                windows.append(track(rng, t0 + int(j) / 512, DAY / 512 * int(rng.integers(1, 4)),
                                     DAY / 8192))
        else:
            base = t0 if mode != "apart" else t0 + 4.0 * i
            for j in range(k):
                if mode == "epochs":
                    base = t0 + apart * int(rng.integers(0, 3))
                    if rng.random() < .7:           # the same passes for several
                        windows.append(track(rng, base + .002 * int(rng.integers(0, 2)),
                                             float(rng.choice([600, 900])), 10))
                        continue
                step = float(rng.choice([1, 5, 10, 30, 60]))
                windows.append(track(rng, base + float(rng.uniform(0, span)),
                                     float(rng.choice([20, 60, 120, 300, 600, 900])), step))
                if long:                              # or finely sampled
                    windows[-1] = track(rng, base + float(rng.uniform(0, span)), *[
                        (4000.0, 20.0), (20000.0, 50.0), (900.0, .25)][
                            int(rng.choice([0, 1, 2], p=[.4, .5, .1]))])
        ends = [w.set for w in windows] or [t0]
        deadline = float(rng.choice([t0 - 1, ends[-1] + 1] + [t0 + 1000] * 7 + [
                                     float(rng.choice(ends)) - float(rng.choice(
                                         [0, 1e-4, 1e-3, .01]))]))
        if windows and rng.random() < .15:              # just around one candidate
            w = windows[int(rng.integers(0, len(windows)))]
            deadline = w.middle + float(rng.choice([-1, 0, 1, 2])) * float(rng.uniform(0, 90)) / DAY
        seconds = float(rng.choice([1, 5, 10, 30, 30, 60, 60, 120, 240]))
        if rng.random() < .2:
            seconds = float(rng.choice([.25, .9, 7.3, 33.33, 59.5]))
        if long:
            seconds = float(rng.choice([700, 1500]))
        if mode == "exact":
            seconds = DAY / 1024 * int(rng.integers(1, 3))
        if mode == "epochs" and rng.random() < .5:
            seconds = float(rng.choice([120, 240]))
        priority = int(rng.choice([1, 1, 2, 3, 4, 5, 7, 10]))
        if rng.random() < .1:
            priority = float(rng.choice([.5, 1.25, 2.5]))
        if not integer and rng.random() < .1:
            priority = 0
        quality = int(rng.choice([1, 1, 1, 1, 1, 2, 2, 5, 8, 9, 10]))
        la, exact = None, False
        if (rng.random() < .3 if look is None else look):
            la = float(rng.choice([0, 5, -5, 10, -10, 20, -30, 45]))
            if windows and rng.random() < .3:          # just missed, or just reached
                w = windows[int(rng.integers(0, len(windows)))]
                la = float(rng.choice([w.pitch.min(), w.pitch.max()])) + \
                    float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(-3, .3))
                if rng.random() < .6:
                    seconds = float(rng.choice([1, 5]))
            if windows and rng.random() < .25:         # met by a sample exactly
                w = windows[int(rng.integers(0, len(windows)))]
                la, exact = float(w.pitch[int(rng.integers(0, len(w.pitch)))]), True
                seconds = float(rng.choice([1, 5]))
        if len(windows) > 1 and rng.random() < .4:      # given in any order
            windows = [windows[j] for j in rng.permutation(len(windows))]
        where = place(rng)
        if reqs and rng.random() < .2:                  # once more from the same place
            where = again(rng, reqs[int(rng.integers(0, len(reqs)))].location)
            taken = {r.ident for r in reqs}
            if rng.random() < .5 and mode != "apart" and not exact:    # in its windows
                windows = list([r for r in reqs if key(r.location)[:2] == key(where)[:2]][
                    0].windows)
            while ident(where, seconds) in taken:
                seconds += DAY / 1024 if mode == "exact" else 1.0
        r = Req(where, deadline, seconds, priority, quality, la, windows,
                unit=str(rng.choice(["s", "s", "s", "min", "hr"])), exact=exact)
        reqs.append(r)
    return reqs, mode


def vtws(rng, r, known=None):
    """The windows of a request as the library's visible time windows."""
    out = []
    known = {} if known is None else known
    for w in r.windows:
        same = known.get((id(w), key(r.location), r.exact))
        if same is not None and rng.random() < .7:      # one object for several requests
            out.append(same)
            continue
        unit = "deg" if r.exact else str(rng.choice(["deg", "rad", "arcmin"]))
        f = {"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0}[unit]
        pad = int(rng.choice([0, 0, 0, 3]))             # attitude beyond the window
        step = (w.jd[1] - w.jd[0]) if len(w.jd) > 1 else 1e-4
        jd = np.concatenate([w.jd[0] - step * np.arange(pad, 0, -1), w.jd,
                             w.jd[-1] + step * np.arange(1, pad + 1)])
        ang = [np.concatenate([np.full(pad, 77.0), x, np.full(pad, 66.0)]) * f
               for x in (w.roll, w.pitch, w.yaw)]
        out.append(VisibleTimeWindow(w.rise, w.set, Attitude(
            jd, *ang, getattr(u, unit), r.location)))
        known[id(w), key(r.location), r.exact] = out[-1]
    return out


def fill(rng, handler, reqs):
    known = {}
    for r in reqs:
        d = {"s": 1.0, "min": 60.0, "hr": 3600.0}[r.unit]
        r.vtws = vtws(rng, r, known)
        handler.add_request(r.location, Quantity(r.deadline, u.jd2000),
                            Quantity(r.seconds / d, getattr(u, r.unit)), r.priority,
                            r.quality,
                            None if r.look is None else Quantity(r.look, u.deg), r.vtws)


def key(location):
    return (round(float(location.latitude.to(u.deg)), 10),
            round(float(location.longitude.to(u.deg)), 10),
            round(float(location.height.to(u.km)), 6))


def ident(location, seconds):
    """What tells a request from the others: where, and for how long."""
    return key(location) + (round(float(seconds), 3),)


def as_given(c, handler, location, deadline, seconds, priority, quality, look):
    """The request just added is there as it was asked for."""
    from celest.schedule.request_handler import RequestIndices as R
    mine = [r for r in handler
            if ident(r[R.location], r[R.duration].to(u.s)) == ident(location, seconds)]
    c.event("requests_as_given")
    if c.check(len(mine) == 1, "request_not_kept", got=len(mine)):
        r = mine[0]
        got = (float(r[R.deadline].to(u.jd2000)), float(r[R.duration].to(u.s)),
               float(r[R.priority]), float(r[R.quality]),
               None if r[R.look_angle] is None else float(r[R.look_angle].to(u.deg)))
        c.check(got == (float(deadline), float(seconds), float(priority), float(quality),
                        None if look is None else float(look)), "request_not_as_given",
                got=got, want=(deadline, seconds, priority, quality, look))
        c.check(not r[R.is_scheduled], "request_added_as_scheduled")


def observations(c, windows, reqs, kind="observation"):
    """[(request number, start jd, days)] of a returned collection."""
    where = {}
    for i, r in enumerate(reqs):
        where[r.ident] = i
    assert len(where) == len(reqs)
    c.event("observations_of_one_place", len(reqs) - len({key(r.location) for r in reqs}))
    out = []
    for w in windows:
        k = ident(w.location, w.duration.to(u.s))
        c.require(k in where, kind + "_of_no_request", location=str(w.location),
                  duration=k[-1])
        t = w.start_time.to(u.jd2000)
        c.require(np.ndim(t) == 0 and np.isfinite(t), kind + "_start_not_a_date", start=repr(t))
        out.append((where[k], float(t), float(w.duration.to(u.s)) / DAY))
    return out


def judge(c, obs, reqs, kind="observation"):
    """Every observation is right, and no two overlap."""
    c.check(len(set(i for i, _, _ in obs)) == len(obs), kind + "_repeated",
            requests=[i for i, _, _ in obs])
    for i, start, days in obs:
        r = reqs[i]
        c.event("observations_judged")
        c.check(abs(days - r.days) < 1e-12 + 1e-9 * r.days, kind + "_duration",
                got=days * DAY, want=r.seconds)
        f = r.faults(start)
        c.check(f is None, kind + "_" + "+".join(f or []), request=r.describe(),
                start=start)
    spans = sorted((s, s + d, i) for i, s, d in obs)
    for a, b in itertools.combinations(spans, 2):
        c.check(b[0] >= a[1] - EPS, kind + "_overlap", first=a, second=b)
        if abs(b[0] - a[1]) <= EPS:
            c.event("touching_observations")


def maximal(c, obs, reqs, kind="left_out"):
    """No request left out could simply have been added."""
    done = {i for i, _, _ in obs}
    for i, r in enumerate(reqs):
        if i in done:
            continue
        for lo, hi in r.candidates():
            free = all(hi + r.days < s - EPS or lo > s + d + EPS for _, s, d in obs)
            c.event("left_out_judged")
            c.check(not free, kind, request=r.describe(), candidate=(lo, hi),
                    scheduled=obs)
