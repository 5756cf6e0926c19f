"""The phase timer accounts every phase's elapsed time exactly once."""

import datetime

from sim import env
from sim.core import Violation
from sim.sched import Interrupter

SETTINGS = {
    "quick": {"runs": 6000, "cap_s": 120},
    "thorough": {"runs": 150000, "cap_s": 700},
    "rule": "a run drives one or two timers on a virtual clock through a history of up to 20 operations "
    "(starting and ending phases, scoped phases nested up to three deep whose bodies start other "
    "phases, raise or end the phase themselves, reading the report) with decided time between them, "
    "from nothing to days; the report is compared with a model after each step, and an exception is "
    "raised at a decided line of the timer in some runs; non-trivial: at least two phases were "
    "entered and one of them repeatedly or scoped",
    "states": "digests of (recent operations, number of phases, scope depth)",
    "real": ["hatchet.util.timer.Timer"],
    "stub": ["datetime and time (virtual clock)"],
    "assumptions": ["the clock is not set while a phase is active", "phase names are not empty"],
}

NAMES = ["read", "graph construction", "dataframe", "x", "a rather long phase name: with colon", "%s", "0"]


class Boom(Exception):
    pass


ERRORS = [Boom, KeyboardInterrupt, StopIteration, GeneratorExit, SystemExit, MemoryError]


class Model:
    def __init__(self):
        self.times, self.active, self.since = {}, None, None

    def close(self, now):
        if self.active is not None:
            self.times[self.active] = self.times.get(self.active, 0.0) + now - self.since
        self.active = None

    def start(self, name, now):
        d = None if self.active is None else now - self.since
        self.close(now)
        self.active, self.since = name, now
        return d


def report(timer):
    """[(phase, seconds)] from the text a user sees"""
    out = []
    for line in str(timer).split("\n"):
        if line.startswith("    ") and line.endswith("s"):
            name, value = line[4:-1].rsplit(":", 1)
            out.append((name, float(value)))
    return out


def check(timer, model, what):
    got = report(timer)
    if len(dict(got)) != len(got):
        raise Violation("phase-repeated", "%s: %r" % (what, got))
    got = dict(got)
    for p in sorted(set(got) | set(model.times)):
        if p not in got:
            raise Violation("phase-missing", "%s: %r, expected %r" % (what, got, model.times))
        if p not in model.times:
            raise Violation("phase-unexpected", "%s: %r, expected %r" % (what, got, model.times))
        if abs(got[p] - model.times[p]) > 0.006:
            raise Violation("time-differs", "%s: phase %r has %r s, expected %r s" % (
                what, p, got[p], model.times[p]))


def scenario(sim):
    from hatchet.util.timer import Timer

    clock = env.clock(sim, start=1.6e9 + sim.choose(86400 * 365, "epoch"))
    t0 = clock.mono
    timers = [Timer() for _ in range(1 + sim.choose(2, "timers"))]
    models = [Model() for _ in timers]
    entered, scoped = [], [0]
    broken = [False]
    recent = []

    def now():
        return clock.mono - t0

    def wait():
        k = sim.choose(6, "wait")
        dt = [0.0, 0.25, 0.25 * sim.choose(40, "quarters"), 0.5, 60.0 * sim.choose(100, "minutes"),
              86400.0 * sim.choose(4, "days") + 0.75][k]
        clock.advance(dt)

    def delta_ok(got, want, what):
        if want is None:
            if got is not None:
                raise Violation("delta-differs", "%s returned %r without an active phase" % (what, got))
        elif not isinstance(got, datetime.timedelta) or abs(got.total_seconds() - want) > 1e-3:
            raise Violation("delta-differs", "%s returned %r, expected %r s" % (what, got, want))

    def step(depth):
        i = sim.choose(len(timers), "timer")
        t, m = timers[i], models[i]
        op = sim.weighted([(4, "start"), (3, "end"), (3, "scope"), (1, "report")] if depth < 3 else
                          [(4, "start"), (3, "end")], "op")
        recent.append((op, i))
        what = "%s%s of timer %d" % ("  " * depth, op, i)
        if op == "start":
            name = sim.pick(NAMES, "phase")
            sim.note("%s: %r at %s" % (what, name, now()))
            entered.append(name)
            d = m.start(name, now())
            delta_ok(t.start_phase(name), d, what)
        elif op == "end":
            sim.note("%s at %s" % (what, now()))
            if m.active is None:
                try:
                    t.end_phase()
                except Exception:
                    pass
                else:
                    raise Violation("end-without-phase", what)
            else:
                m.close(now())
                t.end_phase()
        elif op == "report":
            check(t, m, what)
        else:
            name = sim.pick(NAMES, "phase")
            err = sim.pick([None, None] + ERRORS, "error")
            err = err("raised in the body") if err else None
            sim.note("%s: %r at %s%s" % (what, name, now(), ", raising %r" % err if err else ""))
            entered.append(name)
            scoped[0] += 1
            inner = None
            try:
                m.start(name, now())
                with t.phase(name):
                    wait()
                    for _ in range(sim.choose(3, "body")):
                        step(depth + 1)
                        wait()
                    inner = m.active
                    m.close(now())
                    if err:
                        raise err
            except Violation:
                raise
            except BaseException as e:
                if inner is None and isinstance(e, AssertionError):
                    pass  # the body ended the phase itself
                elif e is not err:
                    raise
            else:
                if err is not None:
                    raise Violation("exception-swallowed", "%s: %r" % (what, err))
            # what the body left active was closed with the scope
        sim.state((recent[-3:], len(m.times), depth))
        for k, (t, m) in enumerate(zip(timers, models)):
            check(t, m, "after %s, timer %d" % (what, k))

    for _ in range(1 + sim.choose(20, "steps")):
        wait()
        step(0)
    wait()
    if sim.chance(1, 4, "interrupt"):
        # an exception inside the timer never discards time recorded earlier
        t, m = timers[0], models[0]
        before = dict(m.times)
        name = sim.pick(NAMES, "phase")
        i = Interrupter(1 + sim.choose(12, "line"), MemoryError("injected"))
        try:
            with i:
                if sim.choose(2, "end") and m.active:
                    t.end_phase()
                else:
                    t.start_phase(name)
        except MemoryError:
            sim.fault("exception inside the timer")
            elapsed = now() - m.since if m.active else 0.0
            got = dict(report(t))
            for p, v in before.items():
                extra = elapsed if p == m.active else 0.0
                if p not in got or got[p] < v - 0.006 or got[p] > v + extra + 0.006:
                    raise Violation("time-discarded", "%r after an exception at %s, was %r" % (
                        got, i.fired, before))
    if len(entered) > 1 and (len(set(entered)) < len(entered) or scoped[0]):
        sim.nontrivial()
