"""C20 schedules are feasible."""
import random
import numpy as np
from celest import units as u
from celest.coordinates.ground_location import GroundLocation
from celest.encounter.window_generator import Lighting
from celest.encounter.window_handling import ObservationWindow, WindowCollection
from celest.satellite import Satellite
from celest.schedule import Scheduler
import gen
import ref
import sched as S
import p_c09
import p_c18

PROPERTY = "C20"
RULE = ("sets of 1-12 requests competing for shared, crowded, nested, exactly touching and "
        "separate windows with deadlines, quality floors and look angles, and requests made "
        "from simulated passes; the returned observations are judged against the requests; "
        "distinct by request set")
ASSUMPTIONS = ["2e-9 days of rounding in Julian dates", "priorities are not negative"]
REQUIRED = ["observations_judged", "left_out_judged", "look_angle_observations",
            "touching_observations", "everything_scheduled", "something_left_out",
            "sampled_during_observation", "night_observations", "rejections_seen",
            "exactly_touching"]


def some_satellite():
    from celest.coordinates.frames.itrs import ITRS
    jd = 2459000.5 + np.arange(3) / 1440
    one = np.ones(3)
    return Satellite(ITRS(jd, 7000 * one, 0 * one, 0 * one, u.km),
                     ITRS(jd, 0 * one, 7.5 * one, 0 * one, u.km / u.s))


def solve(c, s, rng):
    iterations = int(rng.choice([0, 1, 2, 5, 15]))
    coeff, react = float(rng.choice([0, .5, .8, 1])), float(rng.choice([0, .3, .5, 1]))
    seed = int(rng.integers(0, 2 ** 31))
    random.seed(seed)
    np.random.seed(seed % 2 ** 31)
    c.note(iterations=iterations, annealing=coeff, reaction=react, seed=seed)
    got = s.generate(iterations, coeff, react)
    c.require(isinstance(got, WindowCollection), "not_a_collection")
    for w in got:
        c.require(isinstance(w, ObservationWindow), "not_an_observation")
    return got


def worth(c, obs, reqs):
    total = sum(reqs[i].priority for i, _, _ in obs)
    alone = [r.priority for r in reqs if r.candidates()]
    if alone:
        c.check(total >= max(alone) - 1e-9, "worth_less_than_one_request",
                total=total, one=max(alone))


def drawn(c):
    rng = c.rng
    reqs, mode = S.draw(rng, integer=False)
    c.note(mode=mode, requests=[r.describe() for r in reqs])
    c.sig(mode, *[(r.deadline, r.seconds, r.priority, len(r.windows)) for r in reqs])
    c.state("mode", mode, len(reqs))
    s = Scheduler(some_satellite(), 10)
    S.fill(rng, s.request_handler, reqs)
    for again in range(int(rng.choice([1, 1, 1, 2]))):
        got = solve(c, s, rng)
        obs = S.observations(c, got, reqs)
        S.judge(c, obs, reqs)
        S.maximal(c, obs, reqs)
        worth(c, obs, reqs)
    c.event("look_angle_observations", sum(reqs[i].look is not None for i, _, _ in obs))
    c.event("everything_scheduled", int(len(obs) == len(reqs)))
    c.event("something_left_out", int(0 < len(obs) < len(reqs)))


def apart(c):
    """Requests which do not compete are all scheduled when possible."""
    rng = c.rng
    reqs, mode = S.draw(rng, mode="apart")
    c.note(requests=[r.describe() for r in reqs])
    c.sig("apart", *[(r.deadline, r.seconds, r.priority) for r in reqs])
    s = Scheduler(some_satellite(), 10)
    S.fill(rng, s.request_handler, reqs)
    obs = S.observations(c, solve(c, s, rng), reqs)
    S.judge(c, obs, reqs)
    done = {i for i, _, _ in obs}
    for i, r in enumerate(reqs):
        if r.candidates():
            c.event("left_out_judged")
            c.check(i in done, "possible_request_left_out", request=r.describe())


def touching(c):
    """Binary dates, so that rounding plays no part: where a request goes when it is
    alone, it goes when nothing scheduled overlaps, though it may touch."""
    rng = c.rng
    t0 = float(np.floor(rng.uniform(2455000, 2462000)))
    slot = S.DAY / 1024                              # seconds of a slot
    reqs = []
    for i in range(int(rng.integers(2, 7))):
        middle = t0 + int(rng.integers(8, 20)) / 1024
        if rng.random() < .3:                        # overlaps and gaps of milliseconds
            middle += int(rng.integers(-40, 41)) / 2 ** 28
        half = int(rng.integers(2, 6))
        w = S.track(rng, middle - half / 1024, 2 * half * slot, slot / 8)
        reqs.append(S.Req(S.place(rng), t0 + 100, slot * int(rng.integers(1, 3)),
                          int(rng.integers(1, 9)), 1, None, [w]))
    c.note(requests=[r.describe() for r in reqs])
    c.sig("touching", *[(r.windows[0].rise, r.windows[0].set, r.seconds, r.priority)
                        for r in reqs])
    places = []
    for r in reqs:
        s = Scheduler(some_satellite(), 10)
        S.fill(rng, s.request_handler, [r])
        alone = S.observations(c, s.generate(0, .5, .5), [r])
        places.append(alone[0][1] if alone else None)
    s = Scheduler(some_satellite(), 10)
    S.fill(rng, s.request_handler, reqs)
    obs = S.observations(c, solve(c, s, rng), reqs)
    S.judge(c, obs, reqs)
    done = {i: (start, start + reqs[i].days) for i, start, _ in obs}
    for i, r in enumerate(reqs):
        if places[i] is None:
            continue
        a, b = places[i], places[i] + r.days
        if i in done:
            c.check(done[i][0] == a, "moved", alone=a, together=done[i][0])
            continue
        c.event("left_out_judged")
        free = all(b <= x or a >= y for x, y in done.values())
        c.check(not free, "left_out_of_a_free_place", request=r.describe(), place=(a, b),
                scheduled=sorted(done.values()))
    ends = {y for _, y in done.values()}
    c.event("exactly_touching", sum(x in ends for x, _ in done.values()))


def passes(c):
    """Requests from simulated passes, judged by geometry at the sampled times."""
    rng = c.rng
    kind = str(rng.choice(["leo", "sso", "retro"]))
    n = int(rng.choice([400, 1000, 1600]))
    jd, r, v, kind = gen.orbit(rng, n=n, step=float(rng.choice([10, 20, 30])), kind=kind)
    names = [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)]
    threshold = [0, 5, 10, 10.0, 30][rng.integers(0, 5)]
    sat = p_c09.build(rng, jd, r, v, names)
    s = Scheduler(sat, threshold)
    reqs, spec = [], []
    base = None
    sun_at = p_c18.sun_itrs(jd)
    with p_c18.patched():
        for k in range(int(rng.integers(1, 6))):
            if base is None or rng.random() < .4:
                base = p_c09.near(rng, r, jd)
            lat = float(np.clip(base[0] + rng.uniform(-3, 3), -89.9, 89.9))
            lon = float((base[1] + rng.uniform(-3, 3) + 180) % 360 - 180)
            h = float(rng.uniform(0, 2))
            loc, _ = gen.make_location(rng, lat, lon, h, ("deg", "km"))
            if reqs and rng.random() < .35:    # the same place, in another light
                lat, lon, h = spec[int(rng.integers(0, len(spec)))][:3]
                loc = S.again(rng, GroundLocation(lat, lon, h, u.deg, u.km))
                if rng.random() < .3:          # high above it, or deep below
                    loc = GroundLocation(lat, lon, h + float(rng.uniform(-30, 100)), u.deg,
                                         u.km)
                h = float(loc.height.to(u.km))
            light = [Lighting.ANYTIME, Lighting.DAYTIME, Lighting.NIGHTTIME][rng.integers(0, 3)]
            same = [x[3] for x in spec if x[:2] == (lat, lon)]
            if same and rng.random() < .5:     # or in the same
                light = same[0]
            seconds = float(rng.choice([10, 30, 60, .5, 12.75]))
            _, el, _, _ = ref.azel(r, lat, lon, h)
            if rng.random() < .35:             # about until it goes out of sight
                seen = np.flatnonzero(np.diff(np.concatenate([[0], el > threshold, [0]])))
                if len(seen):
                    a, b = seen.reshape(-1, 2)[int(rng.integers(0, len(seen) // 2))]
                    seconds = max(round((jd[b - 1] - jd[a]) * S.DAY *
                                        float(rng.uniform(.22, .34)), 1), .5)
            while S.ident(loc, seconds) in {q.ident for q in reqs}:
                seconds += 1
            look = None if rng.random() < .6 else float(rng.choice([0, 5, -10, 20]))
            quality = int(rng.choice([1, 1, 3, 8]))
            deadline = float(rng.choice([jd[-1] + 1, rng.uniform(jd[0], jd[-1])]))
            priority = int(rng.integers(1, 11))
            if rng.random() < .4:              # pressing: about when it is in sight
                deadline = float(jd[int(np.argmax(el))] + rng.uniform(-.004, .008))
            if light is Lighting.DAYTIME and rng.random() < .5:
                s.add_request(loc, deadline, seconds, priority, quality, look)
            else:
                s.add_request(loc, deadline, seconds, priority, quality, look, light)
            S.as_given(c, s.request_handler, loc, deadline, seconds, priority, quality, look)
            sun = p_c18.sun_elevation(jd, lat, lon, h, sun_at)
            up = el > threshold
            if light is Lighting.DAYTIME:
                up = up & (sun > 0)
            elif light is Lighting.NIGHTTIME:
                up = up & (sun < 0)
            # windows: maximal runs of usable samples
            pitch = np.degrees(np.asarray(sat.attitude(loc).pitch.to(u.rad)))
            runs, i = [], 0
            while i < n:
                if up[i]:
                    j = i
                    while j + 1 < n and up[j + 1]:
                        j += 1
                    q = slice(i, j + 1)
                    runs.append(S.Window(jd[q], None, pitch[q], None))
                    i = j + 1
                else:
                    i += 1
            reqs.append(S.Req(loc, deadline, seconds, priority, quality, look, runs))
            spec.append((lat, lon, h, light, el, sun))
        c.note(kind=kind, threshold=threshold, requests=[q.describe() for q in reqs])
        c.sig("passes", jd[0], len(reqs))
        got = solve(c, s, rng)
    # a sample within the oracle's uncertainty could move a window's end
    unclear = [np.any(np.abs(e - threshold) < 2e-5) or (lt is not Lighting.ANYTIME and
               np.any((np.abs(sn) < .02) & (e > threshold - 1)))
               for _, _, _, lt, e, sn in spec]
    obs = S.observations(c, got, reqs)
    sure = [o for o in obs if not unclear[o[0]]]
    S.judge(c, sure, reqs)
    for i, start, days in sure:
        lat, lon, h, light, el, sun = spec[i]
        inside = (jd >= start - S.EPS) & (jd <= start + days + S.EPS)
        c.event("sampled_during_observation", int(inside.sum()))
        c.check(np.all(el[inside] > threshold - 1e-5), "observed_below_threshold",
                elevations=el[inside], threshold=threshold)
        if light is Lighting.DAYTIME:
            c.check(np.all(sun[inside] > -.01), "day_observation_at_night", sun=sun[inside])
        if light is Lighting.NIGHTTIME:
            c.event("night_observations")
            c.check(np.all(sun[inside] < .01), "night_observation_by_day", sun=sun[inside])
    if not any(unclear):
        S.maximal(c, obs, reqs)
        worth(c, obs, reqs)


def rejected(c):
    """What cannot be scheduled is refused."""
    rng = c.rng
    c.sig("rejected", c.index)
    good = some_satellite()
    for bad in (None, 3, "satellite", good.position, Satellite):
        c.raises(TypeError, lambda: Scheduler(bad, 10), "satellite_allowed", what=repr(bad)[:50])
    for bad in (None, "10", [10], (1,), good):
        c.raises(TypeError, lambda: Scheduler(good, bad), "threshold_allowed",
                 what=repr(bad)[:50])
    for ok in (0, 10, 10.5, np.float64(12)):
        Scheduler(good, ok)
    s = Scheduler(good, 10)
    c.raises(Exception, lambda: s.generate(5, .5, .5), "nothing_scheduled")
    # requests which are all impossible give an empty schedule
    reqs, _ = S.draw(rng, n=3)
    for r in reqs:
        r.windows = []
    S.fill(rng, s.request_handler, reqs)
    got = s.generate(3, .5, .5)
    c.check(isinstance(got, WindowCollection) and len(got) == 0, "scheduled_the_impossible")


SCENARIOS = [("drawn", drawn, 400, 12000), ("touching", touching, 100, 2500),
             ("apart", apart, 40, 1500),
             ("passes", passes, 120, 1500), ("rejected", rejected, 4, 20)]
