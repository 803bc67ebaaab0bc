"""Shared bits of the property modules."""


import json
import mmap
import os
import signal

_note = None


def note(case):
    """Remember the case about to be executed, for the driver to read if the process
    dies of it."""
    global _note
    path = os.environ.get("MC_NOTE")
    if not path:
        return
    if _note is None:
        with open(path, "r+b") as f:
            _note = mmap.mmap(f.fileno(), 4096)
    b = json.dumps(case, default=str).encode()[:4094] + b"\n"
    _note[:len(b)] = b


def limit(case, seconds=60):
    """note(case), and end the process if the case is not over after so many seconds,
    which the driver takes for a case that never ends."""
    note(case)
    signal.alarm(seconds)


class Res:
    """What one task covered."""

    def __init__(self):
        self.d = dict(states=0, transitions=0, traces=0, evals=0, distinct=0)
        self.violations = []
        self.samples = []
        self.notes = []

    def bad(self, case, msg, key=None):
        if len(self.violations) < 40:
            self.violations.append(dict(case=case, msg=str(msg)[:2000],
                                        key=key or str(msg)[:160]))

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(str(s)[:500])

    def out(self):
        d = dict(self.d)
        d.update(violations=self.violations, samples=self.samples, notes=self.notes)
        return d
