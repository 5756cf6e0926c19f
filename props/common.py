"""Pieces shared by the scenarios."""

from sim import core, gen, model, mp
from sim.core import Violation


class Pred:
    """A row predicate that pickles; selects by a column's value."""

    def __init__(self, kind, arg, boom=None, boom_exc="ValueError", exit_code=None):
        self.kind, self.arg = kind, arg
        self.boom = boom  # raises on rows whose name is this
        self.boom_exc = boom_exc
        self.exit_code = exit_code

    def __call__(self, row):
        if self.boom is not None and row["name"] == self.boom:
            if self.boom_exc == "kill":
                import os
                import signal

                if mp._child is None:
                    raise ValueError("would kill the caller")
                os.kill(os.getpid(), signal.SIGKILL)
            if self.boom_exc == "exit":
                if mp._child is None:
                    raise ValueError("would end the caller")
                import os

                os._exit(0)
            if self.boom_exc == "unpicklable":
                raise Unpicklable(lambda: 0)
            if self.boom_exc == "SystemExit":
                raise SystemExit(0)
            raise {"ValueError": ValueError, "KeyError": KeyError, "MemoryError": MemoryError}[
                self.boom_exc
            ]("boom")
        k = self.kind
        if k == "all":
            return True
        if k == "ge":
            return row["time"] >= self.arg
        if k == "lt":
            return bool(row["time"] < self.arg)
        if k == "name":
            return row["name"] == self.arg
        if k == "notname":
            return row["name"] != self.arg
        if k == "rank":
            return row["rank"] == self.arg if "rank" in row.index else row["time"] > 1
        if k == "node":
            return row["node"]._hatchet_nid % 2 == self.arg
        if k == "none":
            return False
        raise AssertionError(k)

    def __str__(self):
        return "%s(%s)%s" % (
            self.kind, self.arg,
            "" if self.boom is None else ", %s on %s" % (self.boom_exc, self.boom))


class Unpicklable(Exception):
    def __reduce__(self):
        raise TypeError("this exception cannot be pickled")


def gen_pred(sim, s, empties=True):
    kinds = [(3, "all"), (4, "ge"), (2, "lt"), (3, "name"), (3, "notname"), (1, "rank"), (3, "node")]
    if empties:
        kinds.append((1, "none"))
    k = sim.weighted(kinds, "pred")
    arg = None
    if k in ("ge", "lt"):
        arg = sim.choose(65, "pred-arg") / 8.0
    elif k in ("name", "notname"):
        arg = sim.pick(sorted({v["name"] for _, v in s.rows}), "pred-name")
    elif k == "rank":
        arg = sim.choose(2, "pred-rank")
    elif k == "node":
        arg = sim.choose(2, "pred-parity")
    return Pred(k, arg)


def outcome(f):
    """('ok', value) or ('raised', exception)"""
    try:
        return "ok", f()
    except (core.Violation, core.HarnessError):
        raise
    except Exception as e:
        return "raised", e
