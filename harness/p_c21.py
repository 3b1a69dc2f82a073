"""C21 the adaptive search, judged from a trace of its operators."""
import copy
import inspect
import random
import numpy as np
from celest.schedule import Scheduler
from celest.schedule.alns import ALNS
from celest.schedule.request_handler import RequestIndices as R
import sched as S
import p_c20

PROPERTY = "C21"
RULE = ("searches over token histories whose costs are scripted (ties, improvements, "
        "worsenings, zero and positive costs) or random, with traced operators, and over "
        "real request sets; distinct by trace")
ASSUMPTIONS = ["operators change the solution in place, as the scheduler's do",
               "acceptance of worse solutions is judged for costs of one sign"]
REQUIRED = ["iterations", "accepted_worse", "rejected_worse", "accepted_ties", "new_bests",
            "completed_early", "complete_but_not_the_best", "weights_compared", "weighted_draws",
            "frozen_rejections", "starved_operator_runs", "forsaken_runs",
            "searchers_used_again"]


class Trace:
    """Every call of an operator, with the solution's content before and after."""

    def __init__(self, content, value):
        self.content, self.value = content, value
        self.rows = []               # one per iteration
        self.stray = []

    def destroy(self, index, function):
        def traced(solution, number, *a, **k):
            self.rows.append({"d": index, "object": solution, "q": number,
                              "entry": self.content(solution),
                              "entry_cost": self.value(solution)})
            return function(solution, number, *a, **k)
        return traced

    def repair(self, index, function):
        def traced(solution, number, *a, **k):
            row = self.rows[-1] if self.rows else None
            if row is None or "r" in row or row["object"] is not solution:
                self.stray.append((index, len(self.rows)))
                return function(solution, number, *a, **k)
            row["between"] = self.content(solution)
            out = function(solution, number, *a, **k)
            row.update(r=index, a=number, exit=self.content(solution),
                       exit_cost=self.value(solution))
            return out
        return traced


def judge(c, trace, initial, initial_cost, result, result_cost, limit, remove, add,
          complete, cold=None):
    """The rules of the search over one trace. `cold`: iteration from which nothing worse
    may be accepted. Returns (scores, best iteration)."""
    rows = trace.rows
    c.check(not trace.stray, "repair_without_destroy", at=trace.stray)
    c.check(len(rows) <= limit, "too_many_iterations", got=len(rows), limit=limit)
    current, cost = initial, initial_cost
    best, best_cost, best_contents = initial, initial_cost, [initial]
    done = maybe = complete(initial)
    scores = []
    for k, row in enumerate(rows):
        c.event("iterations")
        c.require("r" in row, "destroyed_not_repaired", iteration=k)
        c.check(row["q"] == remove and row["a"] == add, "wrong_numbers",
                got=(row["q"], row["a"]), want=(remove, add))
        c.require(not done, "went_on_when_complete", iteration=k)
        if k:
            last = rows[k - 1]
            same, moved = row["entry"] == last["entry"], row["entry"] == last["exit"]
            c.require(same or moved, "iteration_from_another_solution", iteration=k)
            delta = last["exit_cost"] - last["entry_cost"]
            if delta < 0:
                c.check(moved, "improvement_refused", iteration=k, delta=delta)
            elif delta == 0:
                c.event("accepted_ties", int(moved))
                c.check(moved, "equal_refused", iteration=k)
            else:
                if moved and not same:
                    c.event("accepted_worse")
                    c.check(cold is None or k - 1 < cold, "worse_accepted_when_cold",
                            iteration=k, delta=delta)
                elif same and not moved:
                    c.event("rejected_worse")
                    if cold is not None and k - 1 >= cold:
                        c.event("frozen_rejections")
        else:
            c.require(row["entry"] == initial, "started_elsewhere")
        if row["exit_cost"] < best_cost:
            best_cost, best, best_contents = row["exit_cost"], row["exit"], [row["exit"]]
            c.event("new_bests")
            scores.append(3)
        else:
            if row["exit_cost"] == best_cost:
                best_contents.append(row["exit"])
            if row["exit_cost"] < row["entry_cost"]:
                scores.append(2)
            elif row["exit_cost"] == row["entry_cost"]:
                scores.append(1)
            elif k + 1 < len(rows):
                scores.append(1 if rows[k + 1]["entry"] == row["exit"] else 0)
            else:
                scores.append(None)                 # not seen
        # equally good ones are all the best
        states = [bool(complete(b)) for b in best_contents]
        done, maybe = done or all(states), maybe or any(states)
        c.event("complete_but_not_the_best", int(not maybe and complete(row["exit"])))
    if len(rows) < limit:
        c.check(maybe, "stopped_early", iterations=len(rows), limit=limit)
        c.event("completed_early")
    c.check(result_cost == best_cost, "not_the_best", got=result_cost, best=best_cost)
    c.check(result in best_contents, "not_a_solution_seen", cost=result_cost)
    c.check(result_cost <= initial_cost, "worse_than_the_start")
    return scores


def weights(c, alns, name, indices, scores, count, l, complete):
    got = getattr(alns, name, None)
    if got is None or len(got) != count or None in scores[:-1]:
        return
    options = [scores] if scores and scores[-1] is not None else \
        [scores[:-1] + [x] for x in (0, 1)] if scores else [scores]
    if complete:
        options = options + [scores[:-1]]           # the last one is not needed any more
    fits = False
    for o in options:
        w = [1.0] * count
        for i, s in zip(indices, o):
            w[i] = (1 - l) * w[i] + l * s / 6
        fits = fits or bool(np.allclose(w, np.asarray(got, float), rtol=1e-9, atol=1e-12))
    c.event("weights_compared")
    c.check(fits, "operator_weights", got=list(got), want=w, scores=scores[-8:],
            operators=list(indices)[-8:], reaction=l, which=name)


class Tokens(list):
    """A solution: its whole history of tokens, so that mixing solutions shows."""


def toy(c, rng, kind=None):
    """(initial, cost, destroys, repairs)"""
    kind = kind or str(rng.choice(["walk", "scripted", "greedy", "ties", "positive",
                                   "zero", "plateau"]))
    n0 = int(rng.integers(1, 6))
    counter = [1000]
    base = {"positive": 60.0, "zero": 0.0}.get(kind, -60.0)
    if kind == "zero" and rng.random() < .5:
        n0 = 0
    values = [float(rng.integers(1, 12)) for _ in range(400)]
    fine = float(rng.choice([1, 1, 1, 1e-9, 1e7]))     # costs of any size

    def token(v):
        counter[0] += 1
        return [counter[0], v]
    initial = Tokens(token(base / n0 if n0 else 0.0) for _ in range(n0))

    def cost(s):
        return float(sum(t[1] for t in s)) * fine

    def pop_last(s, q):
        for _ in range(min(q, len(s))):
            s.pop()

    def pop_first(s, q):
        for _ in range(min(q, len(s))):
            s.pop(0)

    def pop_random(s, q):
        for _ in range(min(q, len(s))):
            s.pop(random.randrange(len(s)))

    def shuffle(s, q):
        s.reverse()

    def touch(s, q):                       # in-place change of shared inner objects
        for t in s[:q]:
            t[1] = t[1] - 1 if kind == "greedy" else t[1]
            t[0] += 100000

    def change(s, q, scale):
        for _ in range(q):
            d = {"walk": random.choice([-3, -1, 0, 1, 3]) + base / max(n0, 1),
                 "greedy": -float(random.randint(0, 5)) + base / max(n0, 1),
                 "ties": base / max(n0, 1), "plateau": base / max(n0, 1) +
                 random.choice([0, 0, 0, -1, 1]),
                 "positive": base / max(n0, 1) + random.choice([-2, 0, 2, 5]),
                 "zero": float(random.choice([-2, -1, 0, 0, 1])),
                 "scripted": values[counter[0] % 400] - 66}[kind]
            s.append(token(d * scale))

    def small(s, q):
        change(s, q, 1.0)

    def noop(s, q):
        pass

    def large(s, q):
        change(s, min(q, 1), 1.0)
    D = [pop_last, pop_first, pop_random, shuffle, touch]
    P = [small, large, noop]
    D = [D[i] for i in rng.permutation(5)[:int(rng.integers(1, 6))]]
    P = [P[i] for i in rng.permutation(3)[:int(rng.integers(1, 4))]]
    return kind, initial, cost, D, P, fine


def content(s):
    return tuple((t[0], t[1]) for t in s)


def search(c):
    rng = c.rng
    kind, initial, cost, D, P, fine = toy(c, rng)
    limit = int(rng.choice([0, 1, 2, 3, 10, 40, 120]))
    p = float(rng.choice([0, .5, .8, .95, 1]))
    l = float(rng.choice([0, .1, .5, .8, 1]))
    remove, add = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    goal = float(rng.choice([-1e18, cost(initial) - 20 * fine, cost(initial) - 4 * fine,
                             cost(initial)]))

    when = str(rng.choice(["cost", "cost", "length", "few", "odd"]))
    length = int(rng.integers(0, 9))

    def done(s):
        if when == "length":
            return len(s) >= length + len(initial)
        if when == "few":
            return len(s) <= length // 3
        if when == "odd":
            return len(s) > 0 and s[-1][1] % 4 == length % 4 and [s[-1][1]] != start
        return float(sum(t[1] for t in s)) * fine <= goal
    start = [t[1] for t in initial[-1:]]
    seed = int(rng.integers(0, 2 ** 31))
    c.note(kind=kind, fine=fine, limit=limit, p=p, l=l, remove=remove, add=add, goal=goal,
           when=when, length=length, seed=seed, initial=[list(t) for t in initial], destroy=[f.__name__ for f in D],
           repair=[f.__name__ for f in P])
    given = content(initial)
    first = None
    for turn in range(3):
        if turn < 2:
            trace = Trace(content, cost)
            alns = ALNS(initial)
            alns.add_cost_function(cost)
            alns.add_destroy_functions([trace.destroy(i, f) for i, f in enumerate(D)])
            alns.add_repair_functions([trace.repair(i, f) for i, f in enumerate(P)])
            alns.add_completeness_function(done)
        else:                              # the same searcher once more
            trace.rows, trace.stray = [], []
            c.event("searchers_used_again")
        random.seed(seed)
        result = alns.solve(limit, p, l, remove, add)
        c.check(content(initial) == given, "initial_solution_modified")
        c.require(isinstance(result, Tokens), "result_type", got=type(result).__name__)
        shared = {id(t) for t in initial} & {id(t) for t in result}
        c.check(result is not initial and not shared, "result_shares_the_input")
        scores = judge(c, trace, given, cost(initial), content(result), cost(result), limit,
                       remove, add, lambda s: done(s), cold=1 if p == 0 else
                       (0 if cost(initial) == 0 else None))
        complete = done(result)
        weights(c, alns, "destroy_weights", [r["d"] for r in trace.rows], scores, len(D), l,
                complete)
        weights(c, alns, "repair_weights", [r["r"] for r in trace.rows], scores, len(P), l,
                complete)
        # token numbers go on counting: compare the runs by what was done
        done_ = [(r["d"], r["r"], len(r["exit"])) for r in trace.rows]
        if kind != "scripted":
            done_.append(cost(result))
            if first is None:
                first = done_
            else:
                c.check(first == done_, "same_seed_another_search", first=first[-5:],
                        second=done_[-5:])
    c.sig(kind, *[(r["d"], r["r"], r["exit_cost"]) for r in trace.rows])
    c.state("kind", kind, len(D), len(P))


def starved(c):
    """With full reaction, an operator whose solutions were refused is not used again
    while another one does well."""
    rng = c.rng
    seed = int(rng.integers(0, 2 ** 31))
    c.note(seed=seed)
    c.sig("starved", seed)
    sol = [0]
    side = str(rng.choice(["destroy", "repair"]))
    state = {"n": 0}

    def good(s, q):
        s[0] -= 1

    def bad(s, q):
        s[0] += 10 ** 6

    def nothing(s, q):
        pass
    trace = Trace(lambda s: s[0], lambda s: s[0] - 1e-3)
    ops = [good, bad, bad, bad]
    ops = [ops[i] for i in rng.permutation(4)]
    alns = ALNS(sol)
    alns.add_cost_function(lambda s: s[0] - 1e-3)      # cold start: almost no cost
    if side == "destroy":
        D, P = ops, [nothing]
    else:
        D, P = [nothing], ops
    alns.add_destroy_functions([trace.destroy(i, f) for i, f in enumerate(D)])
    alns.add_repair_functions([trace.repair(i, f) for i, f in enumerate(P)])
    alns.add_completeness_function(lambda s: False)
    random.seed(seed)
    result = alns.solve(60, .5, 1.0, 1, 1)
    used = [ops[r["d" if side == "destroy" else "r"]].__name__ +
            str(r["d" if side == "destroy" else "r"]) for r in trace.rows]
    refused = [u for u in used if u.startswith("bad")]
    c.event("starved_operator_runs")
    good_runs = [u for u in used if u.startswith("good")]
    if good_runs:
        c.check(len(refused) == len(set(refused)), "refused_operator_used_again",
                used=used[:20])
    c.check(result[0] == -len(good_runs), "best_lost", got=result[0], want=-len(good_runs))
    c.state("starved", side, len(refused))


def forsaken(c):
    """Once no operator has any weight left, all are drawn alike."""
    rng = c.rng
    seed = int(rng.integers(0, 2 ** 31))
    k = int(rng.integers(2, 5))
    c.note(seed=seed, operators=k)
    c.sig("forsaken", seed, k)

    def bad(s, q):
        s[0] += 10 ** 6

    def nothing(s, q):
        pass
    trace = Trace(lambda s: s[0], lambda s: s[0] - 1e-3)
    alns = ALNS([0])
    alns.add_cost_function(lambda s: s[0] - 1e-3)
    alns.add_destroy_functions([trace.destroy(i, nothing) for i in range(k)])
    alns.add_repair_functions([trace.repair(i, bad) for i in range(k)])
    alns.add_completeness_function(lambda s: False)
    random.seed(seed)
    n = 60 * k
    alns.solve(n, .5, 1.0, 1, 1)
    c.check(len(trace.rows) == n, "stopped_early", rows=len(trace.rows))
    for side in ("d", "r"):
        used = [r[side] for r in trace.rows]
        c.check(sorted(used[:k]) == list(range(k)), "refused_operator_used_before_others",
                side=side, used=used[:k])
        # each of at least 50 k draws misses an operator with chance 1 - 1 / k
        c.check(set(used[k:]) == set(range(k)), "operator_never_drawn", side=side,
                used=sorted(set(used[k:])))
    c.event("forsaken_runs")


def by_weight(c):
    """Operators are drawn with odds as their weights, however small those have become."""
    rng = c.rng
    seed = int(rng.integers(0, 2 ** 31))
    l = float(rng.choice([.3, .5, .9, .99]))
    fade = c.index % 2 == 0                  # all refused, or some doing well
    k = int(rng.integers(2, 5))
    n = min(400, int(k * 80 / -np.log10(1 - l)))
    c.note(seed=seed, reaction=l, operators=k, fading=fade)
    c.sig("by_weight", seed, l, k, fade)

    def bad(s, q):
        s[0] += 10 ** 6

    def good(s, q):
        s[0] -= 1

    def nothing(s, q):
        pass
    ops = [bad] * k if fade else [[bad, nothing, good, nothing][i] for i in
                                  rng.permutation(4)[:k]]
    trace = Trace(lambda s: s[0], lambda s: s[0] - 1e-3)
    alns = ALNS([0])
    alns.add_cost_function(lambda s: s[0] - 1e-3)
    side = str(rng.choice(["d", "r"]))
    D, P = (ops, [nothing]) if side == "d" else ([nothing], ops)
    alns.add_destroy_functions([trace.destroy(i, f) for i, f in enumerate(D)])
    alns.add_repair_functions([trace.repair(i, f) for i, f in enumerate(P)])
    alns.add_completeness_function(lambda s: False)
    random.seed(seed)
    alns.solve(n, 0.0, l, 1, 1)
    c.check(len(trace.rows) == n, "stopped_early", rows=len(trace.rows))
    w = np.ones(k)
    surplus, spread = np.zeros(k), np.zeros(k)
    for row in trace.rows:
        i = row[side]
        odds = w / w.sum()
        top = np.arange(k) == int(np.argmax(w))
        surplus += np.where(top, (np.arange(k) == i) - odds, 0)
        spread += np.where(top, odds * (1 - odds), 0)
        w[i] = (1 - l) * w[i] + l * {"bad": 0, "nothing": 1, "good": 3}[ops[i].__name__] / 6
    c.event("weighted_draws", n)
    c.check(abs(surplus.sum()) <= 6.5 * np.sqrt(spread.sum()) + 4, "not_drawn_by_weight",
            heaviest_drawn_too_often_by=float(surplus.sum()),
            deviation=float(np.sqrt(spread.sum())), draws=n, reaction=l)


def annealing(c):
    """Chances of accepting something worse: smaller when worse, smaller when later."""
    rng = c.rng
    c0 = [-100.0, -1e-5, 3e4, -100.0, 100.0, -2e-3][c.index % 6]
    scale = c0 * c0 / 2000                            # even odds for this much worse
    p = float(rng.choice([.5, .7, .9]))
    trials = 700
    deltas = [2e-7 * scale, .2 * scale, scale, 4 * scale]
    refused = bool(rng.integers(0, 2))                # what came before was taken, or refused
    limit = [5000, 0, 50][c.index % 3]                # iterations allowed, not taken
    late = 6
    seed = int(rng.integers(0, 2 ** 31))
    random.seed(seed)
    c.note(p=p, seed=seed, cost=c0, refused=refused)
    c.sig("annealing", seed)
    kept = {}
    for when in (1, late):
        for d in deltas:
            n = 0
            for _ in range(trials):
                step = [0]

                def repair(s, q):
                    step[0] += 1
                    if step[0] == when:
                        s[0] = c0 + d
                    elif step[0] > when:              # enough was seen
                        s[0] = c0 - abs(c0)
                    elif refused:
                        s[0] = c0 + 1e9 * abs(c0)
                seen = []

                def destroy(s, q):
                    seen.append(s[0])
                alns = ALNS([c0])
                alns.add_cost_function(lambda s: s[0])
                alns.add_destroy_functions([destroy])
                alns.add_repair_functions([repair])
                alns.add_completeness_function(lambda s: s[0] < c0)
                alns.solve(max(limit, when + 1), p, .5, 1, 1)
                n += seen[-1] != c0
            kept[when, d] = n
            c.event("acceptance_trials", trials)
    band = 6 * np.sqrt(trials / 2)
    for when in (1, late):
        for a, b in zip(deltas, deltas[1:]):
            c.check(kept[when, b] <= kept[when, a] + band, "worse_is_likelier",
                    kept={str(k): v for k, v in kept.items()}, p=p)
    for (when, d), n in kept.items():
        # even odds for the scale at first, and colder by p with each iteration
        chance = .5 ** (d / scale / p ** (when - 1))
        spread = 7 * np.sqrt(trials * chance * (1 - chance)) + 2
        c.check(abs(n - trials * chance) <= spread, "odds", when=when, delta=d, p=p,
                got=n / trials, want=chance)
    c.check(kept[1, deltas[1]] > trials * .5, "nothing_worse_accepted_at_first",
            kept={str(k): v for k, v in kept.items()}, p=p)
    c.check(kept[1, deltas[3]] < kept[1, deltas[1]], "size_of_worsening_ignored",
            kept={str(k): v for k, v in kept.items()}, p=p)
    c.check(kept[late, deltas[2]] < kept[1, deltas[2]], "no_cooling",
            kept={str(k): v for k, v in kept.items()}, p=p)
    c.event("accepted_worse", sum(kept.values()))


def handler_content(h):
    out = []
    for r in h:
        if r[R.is_scheduled]:
            w = r[R.vtw_list][r[R.vtw_index]]
            out.append((S.key(r[R.location]), float(r[R.scheduled_start_time].data),
                        float(w.rise_time.data), float(r[R.scheduled_duration].data)))
    return tuple(sorted(out))


def handler_cost(h):
    return -sum(r[R.priority] for r in h if r[R.is_scheduled])


def scheduler(c):
    """The same rules in the scheduler's own searches."""
    rng = c.rng
    reqs, mode = S.draw(rng, n=int(rng.integers(2, 9)), mode=str(rng.choice(
        ["shared", "crowded", "nested", "mixed", "epochs"])))
    c.note(mode=mode, requests=[r.describe() for r in reqs])
    trace = Trace(handler_content, handler_cost)
    seen = {}

    kept = {k: ALNS.__dict__[k] for k in ("add_destroy_functions", "add_repair_functions",
                                          "solve")}

    def add_destroy(self, functions):
        kept["add_destroy_functions"](self, [trace.destroy(i, f)
                                             for i, f in enumerate(functions)])

    def add_repair(self, functions):
        kept["add_repair_functions"](self, [trace.repair(i, f)
                                            for i, f in enumerate(functions)])

    def solve(self, *a, **k):
        seen["initial"] = copy.deepcopy(self.initial_solution)
        seen["arguments"] = inspect.signature(kept["solve"]).bind(self, *a, **k).arguments
        out = kept["solve"](self, *a, **k)
        seen["result"] = out
        return out
    s = Scheduler(p_c20.some_satellite(), 10)
    S.fill(rng, s.request_handler, reqs)
    limit = int(rng.choice([1, 3, 8, 20]))
    p, l = float(rng.choice([0, .5, .9])), float(rng.choice([0, .5, 1]))
    random.seed(int(rng.integers(0, 2 ** 31)))
    ALNS.add_destroy_functions, ALNS.add_repair_functions, ALNS.solve = (
        add_destroy, add_repair, solve)
    try:
        windows = s.generate(limit, p, l)
    finally:
        for name, value in kept.items():
            setattr(ALNS, name, value)
    if "result" not in seen:                  # another search: C20 and C23 judge it
        return
    asked = list(seen["arguments"].values())[1:]
    c.check(asked[:3] == [limit, p, l], "search_settings_changed", got=asked,
            want=[limit, p, l])
    rows = trace.rows
    c.event("scheduler_iterations", len(rows))
    n = len(reqs)
    initial = handler_content(seen["initial"])
    cost0 = handler_cost(seen["initial"])
    judge(c, trace, initial, cost0, handler_content(seen["result"]),
          handler_cost(seen["result"]), limit, -(-n // 4), n,
          lambda state: len(state) == n, cold=1 if p == 0 else (0 if cost0 == 0 else None))
    c.check(len(windows) == len(handler_content(seen["result"])), "result_not_used")
    c.sig("scheduler", mode, limit, *[(r["d"], r["r"], r["exit_cost"]) for r in rows])


QUICK = 3            # times as many in the quick tier
SCENARIOS = [("search", search, 700, 20000), ("starved", starved, 60, 2000),
             ("forsaken", forsaken, 20, 500), ("by_weight", by_weight, 60, 2000),
             ("annealing", annealing, 6, 60), ("scheduler", scheduler, 40, 1500)]
