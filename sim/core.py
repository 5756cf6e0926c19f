"""Core of the simulator: recorded choices, event log, fault counters, violations.

One run = one forked process executing ``scenario(sim)``.  Every decision the
scenario or a seam takes goes through ``sim.choose``; the list of the chosen
integers together with PYTHONHASHSEED reproduces the run exactly.  By
convention 0 is always the simplest alternative (no fault, no switch, smallest
size), so that minimising the list minimises workload, schedule and faults.
"""

import hashlib
import os
import random
import shutil


class Violation(Exception):
    """The property does not hold."""

    def __init__(self, signature, message=""):
        Exception.__init__(self, "%s: %s" % (signature, message))
        self.signature = signature
        self.message = message


class HarnessError(Exception):
    """The simulator cannot model what the code under test did."""


class SimDeadlock(BaseException):
    """Nothing can run any more while somebody waits without a deadline."""


class Discard(BaseException):
    """The generated case is outside the property; not counted."""


_current = None


def current():
    return _current


def set_current(sim):
    global _current
    _current = sim


class Sim:
    def __init__(self, seed=None, choices=None, log=False, scratch=None, tier="quick",
                 variant=0):
        self.seed = seed
        self.variant = variant
        self.tier = tier
        self._rng = random.Random(seed) if choices is None else None
        self._replay = choices
        self.choices = []
        self.want_log = log
        self.events = []  # only kept if want_log
        self._h = hashlib.sha256()
        self._sched = hashlib.sha256()
        self.counters = {}
        self.faults = {}
        self.states = set()
        self.now = 0.0
        self.steps = 0
        self.is_nontrivial = False
        self.observed = []
        self.sample = []
        self._scratch_root = scratch
        self._ntmp = 0
        self.known = []

    # -- choices ---------------------------------------------------------
    def choose(self, n, label=None):
        """An integer in range(n); 0 is the simplest alternative."""
        if n <= 1:
            return 0
        if self._replay is not None:
            i = len(self.choices)
            v = self._replay[i] if i < len(self._replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self._rng.randrange(n)
        self.choices.append(v)
        self.ev("choose", label, v)
        return v

    def chance(self, num, den, label=None):
        """True with probability num/den; False is the simplest."""
        return self.choose(den, label) >= den - num

    def pick(self, seq, label=None):
        return seq[self.choose(len(seq), label)]

    def weighted(self, pairs, label=None):
        """pick from [(weight, item)]; first item is the simplest."""
        v = self.choose(sum(w for w, _ in pairs), label)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def skewed(self, hi, label=None):
        """0..hi, small values more likely, all possible"""
        k = self.choose(4, label)
        if k == 0:
            return self.choose(min(hi, 2) + 1, label)
        if k == 1:
            return self.choose(min(hi, 6) + 1, label)
        if k == 2:
            return self.choose(min(hi, 25) + 1, label)
        return self.choose(hi + 1, label)

    def shuffle(self, seq, label=None):
        """A permuted copy; all-zero choices give the identity."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.choose(len(seq) - i, label)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, label=None):
        return [x for x in seq if self.choose(2, label)]

    # -- log -------------------------------------------------------------
    def ev(self, *what):
        s = repr(what)
        self._h.update(s.encode("utf-8", "surrogatepass"))
        if self.want_log:
            self.events.append(s if len(s) < 400 else s[:400] + "...")

    def sched(self, *what):
        """A scheduling decision: counts towards the interleaving digest."""
        self._sched.update(repr(what).encode())
        self.ev("sched", *what)
        self.steps += 1

    def state(self, s):
        self.states.add(hashlib.sha256(repr(s).encode("utf-8", "surrogatepass")).hexdigest()[:12])

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.is_nontrivial = True
        self._sched.update(("fault:" + kind).encode())
        self.ev("fault", kind)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self):
        self.is_nontrivial = True

    def note(self, text):
        """one line of a human-readable description of this case"""
        text = str(text)
        self.sample.append(text if len(text) < 300 else text[:300] + "...")
        self.ev("note", text)

    def observe(self, key, value):
        """Record a value that must be the same for every variant of this run."""
        self.observed.append([key, value])

    # -- scratch ---------------------------------------------------------
    def tmp(self, name=None):
        self._ntmp += 1
        p = os.path.join(self._scratch_root, name or ("d%d" % self._ntmp))
        os.makedirs(p, exist_ok=True)
        return p

    # -- result ----------------------------------------------------------
    def result(self):
        return {
            "choices": self.choices,
            "digest": self._h.hexdigest()[:24],
            "sched": self._sched.hexdigest()[:16],
            "counters": self.counters,
            "faults": self.faults,
            "states": sorted(self.states)[:400],
            "now": self.now,
            "steps": self.steps,
            "nontrivial": self.is_nontrivial,
            "observed": self.observed,
            "sample": self.sample[:40],
            "events": self.events[-3000:] if self.want_log else [],
            "known": self.known,
        }


def sha(obj):
    return hashlib.sha256(repr(obj).encode("utf-8", "surrogatepass")).hexdigest()[:24]


def rmtree(path):
    assert path.startswith("/tmp/vsim.") and ".." not in path
    shutil.rmtree(path, ignore_errors=True)
