"""The notebook page's side of the bridge: the real roundtrip.js in node (sim/page.js)."""

import json
import os
import shutil
import subprocess

from .core import HarnessError

_real_popen = subprocess.Popen
_here = os.path.dirname(os.path.abspath(__file__))


class Page:
    def __init__(self, n_cells):
        node = shutil.which("node")
        if node is None:
            raise HarnessError("node is not installed")
        self.p = _real_popen([node, os.path.join(_here, "page.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.n_cells = n_cells
        self.callbacks = self.timers = 0
        self.on_execute = self.on_rerun = None
        self.page_errors = []
        self.tags = []  # what made each waiting callback
        self.call("cells", n=n_cells)

    def call(self, op, tag=None, **args):
        """(error or None, value) of one step of the page"""
        self.p.stdin.write((json.dumps(dict(args, op=op)) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("the simulated page died")
        r = json.loads(line)
        self.callbacks, self.timers = r["callbacks"], r["timers"]
        self.tags += [tag] * (self.callbacks - len(self.tags))
        self.page_errors.extend(r["errors"])
        for code in r["executes"]:
            self.on_execute(code)
        for ids in r["reruns"]:
            self.on_rerun(ids)
        return r.get("error"), r.get("value")

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        self.p.stdout.close()
