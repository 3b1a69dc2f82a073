"""C22 request bookkeeping and the operators on it, checked after every step of a history."""
import copy
import random
import numpy as np
from celest import units as u
from celest.schedule.insertion_operators import (
    greedy_insertion, minimum_conflict_insertion, minimum_opportunity_insertion)
from celest.schedule.removal_operators import (
    conflict_removal, opportunity_removal, priority_removal, random_removal)
from celest.schedule.request_handler import RequestHandler, RequestIndices as R
from celest.schedule.scheduling_utils import cost, initialize_solution, is_complete
from celest.units.quantity import Quantity
import sched as S

PROPERTY = "C22"
RULE = ("histories of adding, scheduling, unscheduling, sorting, inserting and removing over "
        "competing request sets; all bookkeeping compared with the requests after each step; "
        "distinct by history")
ASSUMPTIONS = ["conflict degree of a window: mean overlap with the windows it meets, its "
               "own included"]
REQUIRED = ["operations", "insertions", "removals", "sorts", "inserted", "removed",
            "scheduled_kept", "order_checks", "preference_checks", "partial_insertions"]


def rows(h):
    return [row for row in h]


class State:
    """What can be seen of a handler, keyed by the requests' locations."""

    def __init__(self, c, h, reqs, label):
        where = {r.ident: i for i, r in enumerate(reqs)}
        self.order, self.scheduled, self.windows = [], {}, {}
        seen = rows(h)
        c.require(len(h) == len(seen) == h.number_of_requests == len(reqs),
                  "requests_lost_or_gained", got=(len(h), len(seen), h.number_of_requests),
                  want=len(reqs), after=label)
        for n, row in enumerate(seen):
            i = where.get(S.ident(row[R.location], row[R.duration].to(u.s)))
            c.require(i is not None and i not in self.windows, "request_replaced", after=label)
            r = reqs[i]
            c.check(h[n] is row, "indexing_differs_from_iterating")
            self.order.append(i)
            c.check(row[R.deadline].to(u.jd2000) == r.deadline and
                    abs(row[R.duration].to(u.s) - r.seconds) < 1e-9 * r.seconds and
                    row[R.priority] == r.priority and row[R.quality] == r.quality and
                    (row[R.look_angle] is None) == (r.look is None) and
                    (r.look is None or abs(row[R.look_angle].to(u.deg) - r.look) < 1e-9),
                    "request_changed", after=label, request=r.describe())
            c.check(h.priority(n) == row[R.priority] and h.deadline(n) is row[R.deadline] and
                    h.duration(n) is row[R.duration] and h.vtw_list(n) is row[R.vtw_list] and
                    h.image_quality(n) == row[R.quality] and
                    h.look_angle(n) is row[R.look_angle] and
                    h.is_request_scheduled(n) == row[R.is_scheduled] and
                    h.vtw_index(n) == row[R.vtw_index] and
                    h.start_time(n) is row[R.scheduled_start_time] and
                    h.scheduled_duration(n) is row[R.scheduled_duration],
                    "accessors_differ", after=label)
            own = sorted((w.rise_time.data, w.set_time.data) for w in row[R.vtw_list])
            c.check(own == sorted((w.rise, w.set) for w in r.windows),
                    "windows_of_request_changed", after=label)
            self.windows[i] = [(float(w.rise_time.data), float(w.set_time.data))
                               for w in row[R.vtw_list]]
            if row[R.is_scheduled]:
                k = row[R.vtw_index]
                c.require(0 <= k < len(row[R.vtw_list]), "window_index_outside", after=label)
                self.scheduled[i] = (self.windows[i][k],
                                     float(row[R.scheduled_start_time].to(u.jd2000)),
                                     float(row[R.scheduled_duration].to(u.s)))
            else:
                c.check(row[R.vtw_index] is None and row[R.scheduled_start_time] is None and
                        row[R.scheduled_duration] is None, "unscheduled_keeps_times",
                        after=label)
        c.check(h.number_of_scheduled_requests == len(self.scheduled), "scheduled_count",
                got=h.number_of_scheduled_requests, want=len(self.scheduled), after=label)
        total = sum(reqs[i].priority for i in self.scheduled)
        c.close(cost(h), -total, 1e-9, "cost", after=label)
        c.check(bool(is_complete(h)) == (len(self.scheduled) == len(reqs)), "complete",
                after=label)

    def kept(self, c, before, label, removed=(), added=()):
        for i, s in before.scheduled.items():
            if i in removed:
                continue
            c.event("scheduled_kept")
            c.check(self.scheduled.get(i) == s, "scheduled_request_moved", after=label,
                    before=s, now=self.scheduled.get(i))


def degree(w, windows):
    total, n = 0.0, 0
    for a, b in windows:
        if not (w[1] < a or b < w[0]):
            total += max(min(w[1], b) - max(w[0], a), 0)
            n += 1
    return total / n


def all_windows(reqs):
    return [(w.rise, w.set) for r in reqs for w in r.windows]


def ordered(c, values, kind, decreasing, label):
    c.event("order_checks")
    v = list(values)
    for a, b in zip(v, v[1:]):
        c.check(a >= b - 1e-12 if decreasing else a <= b + 1e-12, kind, values=v[:12],
                after=label)


def free(r, lo, hi, state, reqs, but=()):
    return all(hi + r.days < s - S.EPS or lo > s + sec / S.DAY + S.EPS
               for j, (_, s, sec) in state.scheduled.items() if j not in but)


def insertion(c, h, reqs, name, k, before):
    f = {"greedy": greedy_insertion, "opportunity": minimum_opportunity_insertion,
         "conflict": minimum_conflict_insertion, "initial": None}[name]
    label = "%s insertion of %d" % (name, k)
    if f:
        f(h, k)
    else:
        initialize_solution(h)
        k = len(reqs)
    now = State(c, h, reqs, label)
    now.kept(c, before, label)
    new = [i for i in now.scheduled if i not in before.scheduled]
    c.event("insertions")
    c.event("inserted", len(new))
    c.check(len(new) <= k, "inserted_too_many", got=len(new), want=k, after=label)
    for i in new:
        win, start, sec = now.scheduled[i]
        r = reqs[i]
        c.check(abs(sec - r.seconds) < 1e-6, "inserted_duration", got=sec, want=r.seconds)
        c.check(r.faults(start) is None, "inserted_" + "+".join(r.faults(start) or []),
                request=r.describe(), start=start)
        c.check(win[0] - S.EPS <= start and start + r.days <= win[1] + S.EPS,
                "inserted_outside_its_window", window=win, start=start)
        for j, (_, s, d) in now.scheduled.items():
            c.check(j == i or s >= start + r.days - S.EPS or start >= s + d / S.DAY - S.EPS,
                    "inserted_over_another", request=r.describe(), start=start, other=(s, d))
    W = all_windows(reqs)
    rank = {"greedy": lambda i: -reqs[i].priority, "initial": lambda i: -reqs[i].priority,
            "opportunity": lambda i: len(reqs[i].windows),
            "conflict": lambda i: 0}[name]
    for i in range(len(reqs)):
        if i in now.scheduled:
            continue
        r = reqs[i]
        for lo, hi in r.candidates():
            if free(r, lo, hi, now, reqs):
                c.event("partial_insertions")
                c.check(len(new) >= k, "stopped_inserting", inserted=len(new), wanted=k,
                        request=r.describe(), after=label)
                c.event("preference_checks")
                c.check(all(rank(j) <= rank(i) for j in new), "inserted_in_wrong_order",
                        after=label, left_out=r.describe(),
                        inserted=[reqs[j].describe() for j in new])
    # the window chosen: the first possible one in the operator's order
    for i in new:
        r = reqs[i]
        for lo, hi, w in r.placed_candidates():
            if w == now.scheduled[i][0]:
                continue
            if free(r, lo, hi, now, reqs, but=(i,)):
                c.event("preference_checks")
                if name == "initial":
                    c.check(now.scheduled[i][0][0] <= w[0], "not_the_first_window",
                            request=r.describe(), chosen=now.scheduled[i][0])
                if name == "conflict":
                    c.check(degree(now.scheduled[i][0], W) <= degree(w, W) + 1e-10,
                            "not_the_least_conflicting_window", request=r.describe(),
                            chosen=now.scheduled[i][0], better=w)
    return now


def removal(c, h, reqs, name, k, before):
    f = {"random": random_removal, "priority": priority_removal,
         "opportunity": opportunity_removal, "conflict": conflict_removal}[name]
    label = "%s removal of %d" % (name, k)
    f(h, k)
    now = State(c, h, reqs, label)
    gone = [i for i in before.scheduled if i not in now.scheduled]
    c.event("removals")
    c.event("removed", len(gone))
    c.check(not [i for i in now.scheduled if i not in before.scheduled],
            "removal_scheduled_something", after=label)
    c.check(len(gone) == min(k, len(before.scheduled)), "removed_wrong_number",
            got=len(gone), want=min(k, len(before.scheduled)), after=label)
    now.kept(c, before, label, removed=gone)
    W = all_windows(reqs)
    rank = {"priority": lambda i: reqs[i].priority,
            "opportunity": lambda i: len(reqs[i].windows),
            "conflict": lambda i: degree(before.scheduled[i][0], W), "random": None}[name]
    if rank:
        c.event("preference_checks")
        left = [rank(i) for i in now.scheduled]
        out = [rank(i) for i in gone]
        if left and out:
            c.check(min(out) >= max(left) - 1e-10, "removed_the_wrong_ones", after=label,
                    removed=out, left=left)
    return now


def history(c):
    rng = c.rng
    n = int(rng.integers(1, 9) if rng.random() < .94 else rng.choice([12, 20, 30, 45, 60]))
    reqs, mode = S.draw(rng, n=n, integer=False, mode=str(rng.choice(
        ["shared", "crowded", "nested", "exact", "mixed", "epochs"])))
    for r in reqs:
        if rng.random() < .6:                     # most of them possible
            r.quality, r.deadline = 1, r.deadline + 2000
    c.note(mode=mode, requests=[r.describe() for r in reqs])
    h = RequestHandler()
    known = reqs[:int(rng.integers(1, len(reqs) + 1))]
    rest = reqs[len(known):]
    S.fill(rng, h, known)
    known = list(known)
    state = State(c, h, known, "start")
    seed = int(rng.integers(0, 2 ** 31))
    random.seed(seed)
    ops = []
    for _ in range(int(rng.integers(3, 14))):
        c.event("operations")
        op = str(rng.choice(["insert", "insert", "remove", "remove", "sort", "add",
                             "unschedule", "reschedule", "clear", "copy"],
                            p=[.2, .12, .2, .1, .16, .08, .05, .04, .02, .03]))
        k = int(rng.choice([0, 1, 1, 2, 3, len(known), len(known) + 3]))
        if op == "insert":
            name = str(rng.choice(["greedy", "opportunity", "conflict", "initial"]))
            ops.append((op, name, k))
            state = insertion(c, h, known, name, k, state)
        elif op == "remove":
            name = str(rng.choice(["random", "priority", "opportunity", "conflict"]))
            ops.append((op, name, k))
            state = removal(c, h, known, name, k, state)
        elif op == "sort":
            before = state
            which = int(rng.integers(0, 6))
            ops.append((op, which))
            c.event("sorts")
            f = [h.sort_by_decreasing_priority, h.sort_by_decreasing_opportunity,
                 h.sort_by_increasing_opportunity, h.sort_by_decreasing_conflict_degree,
                 h.sort_vtws_by_increasing_conflict_degree,
                 h.sort_vtws_by_increasing_rise_time][which]
            f()
            label = "sort %d" % which
            state = State(c, h, known, label)
            c.check(set(state.scheduled) == set(before.scheduled), "sort_scheduled", after=label)
            state.kept(c, before, label)
            W = all_windows(known)
            if which == 0:
                ordered(c, [known[i].priority for i in state.order], "not_by_priority", True, label)
            elif which in (1, 2):
                ordered(c, [len(known[i].windows) for i in state.order], "not_by_opportunity",
                        which == 1, label)
            elif which == 3:
                ordered(c, [degree(state.scheduled[i][0], W) if i in state.scheduled else 0
                            for i in state.order], "not_by_conflict", True, label)
            elif which == 4:
                for i in state.order:
                    ordered(c, [degree(w, W) for w in state.windows[i]],
                            "windows_not_by_conflict", False, label)
            else:
                for i in state.order:
                    ordered(c, [w[0] for w in state.windows[i]], "windows_not_by_rise", False,
                            label)
        elif op == "add" and rest:
            ops.append((op,))
            r = rest.pop(0)
            S.fill(rng, h, [r])
            known.append(r)
            before = state
            state = State(c, h, known, "adding a request")
            state.kept(c, before, "adding a request")
            c.check(set(state.scheduled) == set(before.scheduled), "added_as_scheduled")
        elif op == "unschedule":
            n = int(rng.integers(0, len(known)))
            ops.append((op, n))
            before = state
            h.unschedule_request(n)
            state = State(c, h, known, "unscheduling")
            gone = before.order[n]
            c.check(set(state.scheduled) == set(before.scheduled) - {gone},
                    "unscheduled_the_wrong_one")
            state.kept(c, before, "unscheduling", removed=(gone,))
        elif op == "reschedule":
            # a request with a window, put at some other time in it (twice in a row)
            n = int(rng.integers(0, len(known)))
            i = state.order[n]
            if not known[i].windows or i in state.scheduled and rng.random() < .5:
                continue
            ops.append((op, n))
            w = int(rng.integers(0, len(known[i].windows)))
            ww = state.windows[i][w]
            far = ww[0] + (ww[1] - ww[0]) * float(rng.random()) * .5
            before = state
            if rng.random() < .5:                     # for another time, first
                other = Quantity(known[i].seconds * 2 + 3, u.s)
                h.schedule_request(n, w, Quantity(ww[0], u.jd2000), other)
                c.check(h.scheduled_duration(n).to(u.s) == other.to(u.s) and
                        h.start_time(n).to(u.jd2000) == ww[0] and h.vtw_index(n) == w,
                        "scheduled_otherwise")
            for _ in range(2):
                h.schedule_request(n, w, Quantity(far, u.jd2000), Quantity(
                    known[i].seconds, u.s))
            state = State(c, h, known, "rescheduling")
            c.check(state.scheduled.get(i, (None,))[0] == ww, "not_scheduled")
            state.kept(c, before, "rescheduling", removed=(i,))
        elif op == "clear":
            ops.append((op,))
            h.unschedule_all_requests()
            state = State(c, h, known, "unscheduling all")
            c.check(not state.scheduled, "still_scheduled")
        elif op == "copy":
            # a search works on copies: changing one leaves the other alone
            ops.append((op,))
            twin = copy.deepcopy(h)
            twin.unschedule_all_requests()
            twin.sort_by_decreasing_priority()
            twin.sort_vtws_by_increasing_rise_time()
            before = state
            state = State(c, h, known, "changing a copy")
            c.check(state.order == before.order and state.windows == before.windows,
                    "copy_shares_requests")
            state.kept(c, before, "changing a copy")
    c.note(operations=ops, seed=seed)
    c.sig(mode, *ops)
    c.state("kinds", *sorted({o[:2] if o[0] in ("insert", "remove", "sort") else o[:1]
                              for o in ops}, key=repr))


def given(c):
    """Requests made of a scheduler are kept as made, those before them too."""
    from celest.encounter.window_generator import Lighting, generate_vtws
    from celest.schedule import Scheduler
    import gen
    import p_c09
    import p_c18
    rng = c.rng
    jd, r, v, _ = gen.orbit(rng, n=int(rng.choice([40, 150])), step=40.0, kind="leo")
    sat = p_c09.build(rng, jd, r, v, [str(rng.choice(["gcrs", "itrs"])) for _ in range(2)])
    threshold = [0, 5, 10.0][rng.integers(0, 3)]
    s = Scheduler(sat, threshold)
    asked, lights = [], []
    for _ in range(int(rng.integers(1, 9))):
        lat, lon, h = p_c09.near(rng, r, jd)
        loc, _ = gen.make_location(rng, lat, lon, h, ("deg", "km"))
        if asked and rng.random() < .35:            # another one at the same place
            loc = S.again(rng, asked[int(rng.integers(0, len(asked)))][0])
        ask = (loc, [float(jd[-1] + 1), int(jd[0]) + 2, float(rng.uniform(jd[0], jd[-1])),
                     float(jd[0] - 5)][rng.integers(0, 4)],
               [int(rng.integers(1, 400)), float(rng.uniform(.01, 400)), 86400.0][
                   rng.integers(0, 3)], [int(rng.integers(1, 11)), float(rng.uniform(0, 10))][
                   rng.integers(0, 2)], int(rng.integers(1, 11)),
               [None, 0, float(rng.uniform(-90, 90)), -5][rng.integers(0, 4)])
        while S.ident(loc, ask[2]) in {S.ident(a[0], a[2]) for a in asked}:
            ask = ask[:2] + (ask[2] + 1,) + ask[3:]
        light = [Lighting.ANYTIME, Lighting.ANYTIME, Lighting.DAYTIME, Lighting.NIGHTTIME][
            rng.integers(0, 4)]
        with p_c18.patched():
            if rng.random() < .3:
                s.add_request(location=ask[0], deadline=ask[1], duration=ask[2],
                              priority=ask[3], quality=ask[4], look_ang=ask[5],
                              lighting=light)
            else:
                s.add_request(*ask, light)
        asked.append(ask)
        lights.append(light)
        for a in asked:
            S.as_given(c, s.request_handler, *a)
    c.check(len(s.request_handler) == len(asked), "requests_lost")
    for row, a, light in zip(s.request_handler, asked, lights):
        c.check(S.key(row[R.location]) == S.key(a[0]), "requests_out_of_order")
        with p_c18.patched():
            fresh = generate_vtws(sat, a[0], threshold, light)
        want = [(float(w.rise_time.data), float(w.set_time.data)) for w in fresh]
        got = [(float(w.rise_time.data), float(w.set_time.data)) for w in row[R.vtw_list]]
        c.check(got == want, "other_windows", got=got[:3], want=want[:3])
        for w, f in zip(row[R.vtw_list], fresh):
            i = int(np.argmin(np.abs(np.asarray(w.attitude.time.to(u.jd2000)) - got[0][0])))
            j = int(np.argmin(np.abs(np.asarray(f.attitude.time.to(u.jd2000)) - got[0][0])))
            c.check(S.key(w.attitude.location) == S.key(a[0]), "windows_of_another_place")
            for name in ("roll", "pitch", "yaw"):
                c.close(getattr(w.attitude, name).to(u.rad)[i],
                        getattr(f.attitude, name).to(u.rad)[j], 1e-9, "window_" + name)
    c.note(requests=[(str(a[0]),) + a[1:] for a in asked])
    c.sig("given", *[a[1:] for a in asked])


def fair(c):
    """Random removal may remove any scheduled requests, each set about as often."""
    rng = c.rng
    n = int(rng.integers(2, 6) if rng.random() < .5 else rng.integers(6, 14))
    reqs, _ = S.draw(rng, n=n, mode="apart", look=False)
    for r in reqs:
        r.quality, r.deadline, r.seconds = 1, 1e7, 1.0
    h = RequestHandler()
    S.fill(rng, h, reqs)
    # some stay unscheduled, or none
    idle = set(rng.permutation(n)[:int(rng.choice([0, 0, 1, n // 2]))].tolist())
    busy = [i for i in range(n) if i not in idle]
    m = len(busy)
    if m < 2:
        return
    k = int(rng.integers(1, m))
    c.note(requests=n, idle=sorted(idle), removed=k)
    c.sig("fair", n, sorted(idle), k, reqs[0].deadline)
    random.seed(int(rng.integers(0, 2 ** 31)))
    count, pairs = np.zeros(n, int), np.zeros((n, n), int)
    trials = 12000 if c.index % 8 == 0 else 500
    for _ in range(trials):
        for i in busy:
            h.schedule_request(i, 0, Quantity(float(i), u.jd2000), Quantity(1.0, u.s))
        random_removal(h, k)
        gone = np.array([not h.is_request_scheduled(i) for i in range(n)], int)
        gone[list(idle)] = 0
        count += gone
        pairs += np.outer(gone, gone)
    c.event("removals", trials)
    p, q = k / m, k * (k - 1) / (m * (m - 1))

    def near(got, chance):
        return abs(got - trials * chance) <= 7 * np.sqrt(trials * chance * (1 - chance)) + 2
    for i in busy:
        c.check(near(count[i], p), "removal_unfair", count=count, expected=trials * p)
        for j in busy:
            if j > i:
                c.check(near(pairs[i, j], q), "removal_unfair_to_pairs", pair=(i, j),
                        count=int(pairs[i, j]), expected=trials * q)


SCENARIOS = [("history", history, 1000, 25000), ("fair", fair, 24, 300),
             ("given", given, 60, 1500)]
