"""C23 the schedule handed out is the solution that was found."""
import random
import numpy as np
from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import ObservationWindow, WindowCollection
from celest.schedule import Scheduler
from celest.schedule.request_handler import RequestIndices as R
import gen
import sched as S
import p_c09
import p_c20

PROPERTY = "C23"
RULE = ("schedules of drawn request sets and of simulated passes, each observation window "
        "compared with the solution the search returned and with the request's own track; "
        "distinct by request set")
ASSUMPTIONS = ["a start exactly between two attitude samples may take either"]
REQUIRED = ["windows_compared", "attitudes_compared", "between_samples", "pass_windows",
            "files_read", "second_generations"]


class Seen(Scheduler):
    def solve(self, *a, **k):
        out = super().solve(*a, **k)
        self.solution = [(S.ident(r[R.location], r[R.duration].to(u.s)),
                          float(r[R.scheduled_start_time].to(u.jd2000)),
                          float(r[R.scheduled_duration].to(u.s)))
                         for r in out if r[R.is_scheduled]]
        return out


def snapshot(handler):
    """Requests as given (not their places in the list)."""
    out = []
    for r in handler:
        out.append((S.ident(r[R.location], r[R.duration].to(u.s)), float(r[R.deadline].data), float(r[R.duration].data),
                    r[R.priority], r[R.quality], repr(r[R.look_angle]),
                    sorted((float(w.rise_time.data), float(w.set_time.data))
                           for w in r[R.vtw_list])))
    return sorted(out)


def tracks(r):
    """(jd, roll, pitch, yaw in degrees) of each window of a request, as the library gives
    them, with the window's ends."""
    out = []
    for w in r.vtws:
        a = w.attitude
        out.append((float(w.rise_time.data), float(w.set_time.data),
                    np.asarray(a.time.to(u.jd2000)),
                    [np.asarray(q.to(u.deg)) for q in (a.roll, a.pitch, a.yaw)]))
    return out


def attitude_of(c, window, r, start):
    a = window.attitude
    c.require(isinstance(a, Attitude), "no_attitude", got=type(a).__name__)
    got = [np.asarray(q.to(u.deg), float) for q in (a.roll, a.pitch, a.yaw)]
    t = np.asarray(a.time.to(u.jd2000))
    c.require(t.shape == (1,) and all(g.shape == (1,) for g in got), "attitude_shape",
              shape=t.shape)
    c.check(S.key(a.location) == S.key(r.location), "attitude_of_another_location")
    fits, near = False, []
    for rise, set_, jd, ang in tracks(r):
        if not rise - S.EPS <= start <= set_ + S.EPS:
            continue
        d = np.abs(jd - start)
        for i in np.flatnonzero(d <= d.min() + S.EPS):
            near.append((jd[i], [float(x[i]) for x in ang]))
            if abs(t[0] - jd[i]) <= 1e-12 * jd[i] and all(
                    abs(g[0] - x[i]) < 1e-9 * (1 + abs(x[i])) for g, x in zip(got, ang)):
                fits = True
        c.event("between_samples", int(d.min() > 1e-9))
    c.event("attitudes_compared")
    c.check(fits, "attitude_not_at_the_start", start=start, got=(t[0], [g[0] for g in got]),
            nearest=near[:4])


def compare(c, s, got, reqs):
    c.require(isinstance(got, WindowCollection), "not_a_collection")
    where = {r.ident: r for r in reqs}
    listed = []
    for w in got:
        c.require(isinstance(w, ObservationWindow), "not_an_observation")
        k = S.ident(w.location, w.duration.to(u.s))
        c.require(k in where, "unknown_location", location=str(w.location))
        r = where[k]
        start, dur = float(w.start_time.to(u.jd2000)), float(w.duration.to(u.s))
        listed.append((k, start, dur))
        c.check(abs(w.location.height.to(u.km) - r.location.height.to(u.km)) < 1e-12 and
                str(w.location) == str(r.location), "location_changed")
        attitude_of(c, w, r, start)
        c.event("windows_compared")
    if not hasattr(s, "solution"):
        return
    same = len(listed) == len(s.solution) and all(
        a[0] == b[0] and abs(a[1] - b[1]) <= 1e-12 * abs(b[1]) and abs(a[2] - b[2]) < 1e-9 * b[2]
        for a, b in zip(sorted(listed), sorted(s.solution)))
    c.check(same, "not_the_solution", windows=sorted(listed), solution=sorted(s.solution))


def saved(c, got):
    """Saved schedules list the same observations."""
    if not len(got):
        return
    got.save_text_file("schedule")
    with open("schedule.txt", encoding="utf-8") as f:
        lines = f.read().split("\n")
    body = [ln.split("\t") for ln in lines[5:] if ln.strip()]
    c.check(len(body) == len(got), "saved_rows", got=len(body), want=len(got))
    for w, row in zip(got, body):
        c.check(row[2].strip() == str(w.location), "saved_location", row=row)
        c.close([float(row[0]), float(row[1]), float(row[3]), float(row[4]), float(row[5])],
                [w.start_time.to(u.jd2000), w.duration.to(u.s), w.attitude.roll.to(u.deg)[0],
                 w.attitude.pitch.to(u.deg)[0], w.attitude.yaw.to(u.deg)[0]], 1e-14,
                "saved_values", rtol=1e-12)
    c.event("files_read")


def go(c, s, rng):
    random.seed(int(rng.integers(0, 2 ** 31)))
    return s.generate(int(rng.choice([0, 1, 3, 10])), float(rng.choice([0, .5, .9])),
                      float(rng.choice([0, .5, 1])))


def drawn(c):
    rng = c.rng
    reqs, mode = S.draw(rng, integer=False)
    c.note(mode=mode, requests=[r.describe() for r in reqs])
    c.sig(mode, *[(r.deadline, r.seconds, r.priority) for r in reqs])
    c.state("mode", mode)
    s = Seen(p_c20.some_satellite(), 10)
    first = int(rng.integers(1, len(reqs) + 1)) if rng.random() < .4 else len(reqs)
    S.fill(rng, s.request_handler, reqs[:first])
    kept = snapshot(s.request_handler)
    got = go(c, s, rng)
    compare(c, s, got, reqs[:first])
    c.check(snapshot(s.request_handler) == kept, "requests_changed")
    if first < len(reqs):                    # more requests, and once again
        S.fill(rng, s.request_handler, reqs[first:])
        kept = snapshot(s.request_handler)
        before = [(S.key(w.location), float(w.start_time.data)) for w in got]
        again = go(c, s, rng)
        compare(c, s, again, reqs)
        obs = S.observations(c, again, reqs)
        S.judge(c, obs, reqs)
        S.maximal(c, obs, reqs)
        c.check(snapshot(s.request_handler) == kept, "requests_changed")
        c.check(before == [(S.key(w.location), float(w.start_time.data)) for w in got],
                "earlier_schedule_changed")
        c.event("second_generations")
    saved(c, got)


def passes(c):
    rng = c.rng
    jd, r, v, kind = gen.orbit(rng, n=int(rng.choice([300, 800, 2600], p=[.4, .4, .2])),
                               step=float(rng.choice([10, 30])), kind=str(rng.choice(
                                   ["leo", "sso"])))
    if rng.random() < .4:                        # not every sample was received
        some = np.sort(rng.permutation(len(jd))[:int(len(jd) * rng.uniform(.6, .95))])
        jd, r, v = jd[some], r[some], v[some]
    sat = p_c09.build(rng, jd, r, v, [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)])
    s = Seen(sat, 5)
    reqs = []
    for k in range(int(rng.integers(1, 5))):
        lat, lon, h = p_c09.near(rng, r, jd)
        loc, _ = gen.make_location(rng, lat, lon, h, ("deg", "km"))
        if reqs and rng.random() < .35:             # another one at the same place
            loc = S.again(rng, reqs[int(rng.integers(0, len(reqs)))].location)
        deadline, seconds = float(jd[-1] + 1), float(rng.choice([5, 20, 45]))
        while S.ident(loc, seconds) in {q.ident for q in reqs}:
            seconds += 1
        look = None if rng.random() < .6 else float(rng.choice([0, 10, -20]))
        priority = int(rng.integers(1, 11))
        s.add_request(loc, deadline, seconds, priority, 1, look, Lighting.ANYTIME)
        S.as_given(c, s.request_handler, loc, deadline, seconds, priority, 1, look)
        q = S.Req(loc, deadline, seconds, 1, 1, look, [])
        q.vtws = list(generate_vtws(sat, loc, 5, Lighting.ANYTIME))
        # the attitude the satellite has towards the location, at the sample
        whole = sat.attitude(loc)
        for w in q.vtws:
            i = np.flatnonzero((jd >= w.rise_time.data) & (jd <= w.set_time.data))
            t = np.asarray(w.attitude.time.to(u.jd2000))
            j = np.array([int(np.flatnonzero(t == jd[k])[0]) for k in i if jd[k] in t])
            c.check(len(j) == len(i), "attitude_samples_missing", want=len(i), got=len(j))
            if len(j) == len(i):
                for name in ("roll", "pitch", "yaw"):
                    c.close(np.asarray(getattr(w.attitude, name).to(u.rad))[j],
                            np.asarray(getattr(whole, name).to(u.rad))[i], 1e-9,
                            "window_" + name)
        reqs.append(q)
    c.note(kind=kind, jd=jd, locations=[str(q.location) for q in reqs])
    c.sig("passes", jd[0])
    got = go(c, s, rng)
    compare(c, s, got, reqs)
    c.event("pass_windows", len(got))
    saved(c, got)


QUICK = 2            # times as many in the quick tier
SCENARIOS = [("drawn", drawn, 160, 6000), ("passes", passes, 25, 700)]
