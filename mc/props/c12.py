"""C12: a failing hardware random instruction is never silently used.

The RDRAND extension is built with a stand-in for the instruction whose failures
follow a script. Every call history x failure script x retry setting in the bounds
is run on the real class, and each call is judged from the stand-in's log of the
executions it made."""
import ctypes
import glob
import io
import itertools
import json
import os
import sys

import numpy as np
import randomgen as rg
from numpy.random import Generator
from randomgen import ExtendedGenerator

from mc.core import Res

META = dict(
    level="model_checking",
    bounds=dict(
        quick="histories of length <= 2 over 14 calls (and 3 over 7), one or two bursts "
              "of 1, retries, retries+1, retries+2 or endless failures before any of "
              "18 word positions around the refill boundaries, retries in 0, 1, 2, 10 "
              "(and -1 through the state)",
        thorough="histories of length <= 3 over 14 calls, every word position 0..515 "
                 "for single bursts, all pairs of 12 positions"),
    assumptions=["the instruction is only reached through _rdrand64_step"],
)
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
PHI = 11400714819323198485
INV = 1.0 / 9007199254740992.0


class Script(ctypes.Structure):
    _fields_ = [("nfail", ctypes.c_int64), ("at", ctypes.c_int64 * 8),
                ("count", ctypes.c_int64 * 8), ("delivered", ctypes.c_int64),
                ("attempts", ctypes.c_int64), ("run", ctypes.c_int64),
                ("nlog", ctypes.c_int64), ("log", ctypes.c_int32 * 65536),
                ("salt", ctypes.c_uint64)]


_script = None


def script():
    global _script
    if _script is None:
        d = os.path.dirname(rg.__file__)
        lib = ctypes.CDLL(glob.glob(os.path.join(d, "rdrand.*.so"))[0])
        _script = Script.in_dll(lib, "mc_rdrand")
    return _script


def word(i):
    z = (i + 1) * 0x9E3779B97F4A7C55 & M64
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return z ^ z >> 31


WORDS = [word(i) for i in range(6000)]
INDEX = {w: i for i, w in enumerate(WORDS)}
_phi = {(k * PHI) & M64 for k in range(3000)}


def derived(v):
    """Is v what the generator may hand out after a reported failure?"""
    if v in INDEX or v in _phi:
        return True
    for k in range(1, 600):
        if (v - k * PHI) & M64 in INDEX:
            return True
    return False


# name -> (number of words, how)
CALLS = {
    "raw": 1, "raw3": 3, "raw300": 300, "raw-o": 1, "raw-o5": 5, "rawt": 4, "raw0": 0,
    "u64": 1, "u64x255": 255, "u64x257": 257, "u32": 1, "u32x4": 4, "dbl": 1,
    "dblx3": 3, "npdbl": 2, "npraw": 2, "norm": None, "cplx": None,
}
SMALL = ["raw", "raw3", "raw-o5", "u64", "u64x255", "u64x257", "dblx3"]


class Run:
    """One generator, its script and what it must hand out next."""

    def __init__(self, retries, bursts):
        s = self.s = script()
        s.nfail = len(bursts)
        for i, (at, n) in enumerate(bursts):
            s.at[i], s.count[i] = at, n
        s.delivered = s.attempts = s.nlog = 0
        s.salt = 0
        self.retries = retries
        self.reported = False
        self.pending = []
        self.other = False
        if retries < 0:
            self.bg = rg.RDRAND()
            st = self.bg.state
            st["retries"] = retries
            self.bg.state = st
        else:
            self.bg = rg.RDRAND(retries=retries)
        self.eg, self.gen = ExtendedGenerator(self.bg), Generator(self.bg)
        if s.attempts:
            raise AssertionError("construction used the instruction")

    def call(self, name):
        b, e, g = self.bg, self.eg, self.gen
        n = CALLS.get(name)
        if name in ("raw",):
            return [b.random_raw()]
        if name == "rawt":
            return b.random_raw((2, 2)).ravel().tolist()
        if name == "raw-o":
            return b.random_raw(output=False)
        if name.startswith("raw-o"):
            return b.random_raw((n,), output=False)
        if name.startswith("raw"):
            return b.random_raw(n).tolist()
        if name == "u64":
            return [int(e.uintegers())]
        if name.startswith("u64"):
            return e.uintegers(n).tolist()
        if name == "u32":
            return [int(e.uintegers(bits=32))]
        if name.startswith("u32"):
            return e.uintegers(n, bits=32).tolist()
        if name == "dbl":
            return [e.random()]
        if name.startswith("dbl"):
            return e.random(n).tolist()
        if name == "npdbl":
            return g.random(n).tolist()
        if name == "npraw":
            return g.integers(0, 2**64, n, dtype=np.uint64).tolist()
        if name == "norm":
            return g.standard_normal(4).tolist()
        if name == "cplx":
            return e.complex_normal(size=2).tolist()
        raise KeyError(name)

    def step(self, name):
        """What is wrong with this call, or None."""
        s = self.s
        if name.startswith("retries="):
            self.retries = int(name[8:])
            st = self.bg.state
            st["retries"] = self.retries
            self.bg.state = st
            return None
        if name == "reset":
            if self.reported:
                self.pending = []
                self.reported = False
            self.bg._reset()
            return None if self.bg.success else "success is False after a reset"
        if name == "jumped":
            self.bg.jumped()
            return None
        s.nlog = 0
        d0 = s.delivered
        raised = None
        try:
            v = self.call(name)
        except RuntimeError as x:
            raised, v = x, None
        log = s.log[: s.nlog]
        # was there a word for which every allowed attempt failed?
        failed, run = self.retries < 0 and s.nlog == 0, 0
        for ok in log:
            run = 0 if ok else run + 1
            if run > max(self.retries, -1):
                failed = True
        n = CALLS[name]
        if self.retries < 0:
            failed = n != 0 and not (self.pending and not name.startswith("raw")
                                     and n is not None and n <= len(self.pending))
        if not self.bg.lock.acquire(False):
            return "the lock is still held"
        self.bg.lock.release()
        if self.reported:
            # a failure was reported before: anything derived is allowed
            if self.bg.success:
                return "success is True again after a failure"
            if v and name.startswith(("u64", "raw", "npraw")):
                for x in v:
                    if not derived(x):
                        return f"a value from outside the buffer: {x:#x}"
            return None
        if failed:
            if raised is None:
                return "the instruction failed and the call returned " + str(v)[:120]
            if self.bg.success:
                return "the call raised but success is True"
            self.reported = True
            return None
        if raised is not None:
            return f"raised although no word failed {self.retries + 1} times: {raised}"[:160]
        if not self.bg.success:
            return "success is False without a failure"
        new = list(range(d0, s.delivered))
        if name.startswith("raw"):
            if len(new) != n:
                return f"used {len(new)} words for {n} values"
            want = new
            if name.startswith("raw-o"):
                return None if v is None else "output=False returned something"
        else:
            self.pending += new
            if n is None:
                # a rejection sampler: it used some; drop what is gone
                left = self.bg.state
                k = len(left["buffer"]) - left["buffer_loc"]
                self.pending = self.pending[len(self.pending) - k:]
                return None
            want, self.pending = self.pending[:n], self.pending[n:]
        w = [WORDS[i] for i in want]
        if name.startswith("u32"):
            w = [x & M32 for x in w]
        elif "dbl" in name:
            w = [(x >> 11) * INV for x in w]
        if v != w:
            return f"gave {str(v)[:100]}, not the delivered words {str(w)[:100]}"
        return None


def trace(retries, bursts, hist):
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        r = Run(retries, bursts)
        for i, h in enumerate(hist):
            m = r.step(h)
            if m:
                return f"call {i + 1} ({h}): {m}"
    finally:
        sys.stdout = out
    return None


def bursts_for(retries, tier, pairs):
    pos = [0, 1, 2, 3, 4, 5, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 559]
    if tier == "thorough" and not pairs:
        pos = list(range(0, 516))
    lens = sorted({1, retries, retries + 1, retries + 2} - {0, -1}) + [-1]
    if not pairs:
        yield ()
        for p in pos:
            for n in lens:
                yield ((p, n),)
        return
    few = [0, 1, 3, 255, 256, 258] if tier == "quick" else \
        [0, 1, 2, 3, 4, 254, 255, 256, 257, 258, 511, 512]
    for a, b in itertools.combinations(few, 2):
        for n in lens[:-1]:
            for m in lens:
                yield ((a, n), (b, m))
    # a long burst: several words in a row fail
    for a in few:
        for k in (2, 3):
            yield ((a, k * (retries + 1)),)


SET = ["raw", "raw3", "raw-o", "raw-o5", "rawt", "u64", "u64x255", "u64x257", "u32x4",
       "dbl", "npdbl", "npraw", "norm", "cplx"]


def tasks(tier):
    out = []
    for r in (0, 1, 2, 10):
        for f in SET:
            out.append(dict(retries=r, first=f, names=SET, depth=2, pairs=False, tier=tier))
            out.append(dict(retries=r, first=f, names=SET, depth=2, pairs=True, tier=tier))
            if tier == "thorough" and r < 3:
                out.append(dict(retries=r, first=f, names=SET, depth=3, pairs=False,
                                tier="quick"))
                out.append(dict(retries=r, first=f, names=SET, depth=3, pairs=True,
                                tier="quick"))
        for f in SMALL:
            if tier == "quick" and r in (0, 1, 2):
                out.append(dict(retries=r, first=f, names=SMALL, depth=3, pairs=False,
                                tier=tier))
        ctl = ["raw", "u64", "u64x257", "u32", "raw0", "raw300", "reset", "jumped",
               "retries=-1", "retries=0", "retries=3"]
        for f in ctl:
            out.append(dict(retries=r, first=f, names=ctl, depth=3 if tier == "quick" else 4,
                            pairs=None, tier=tier))
    out.append(dict(retries=-1, first="raw", names=SET, depth=2, pairs=None, tier=tier))
    for f in SET:
        out.append(dict(retries=-1, first=f, names=SET, depth=2, pairs=None, tier=tier))
    out.sort(key=lambda t: -t["depth"])
    return out


def run(task):
    res = Res()
    if task["pairs"] is None:
        r = task["retries"]
        bs = [(), ((0, -1),), ((1, r + 1),), ((0, r + 1),), ((256, r + 1),), ((2, -1),),
              ((255, max(r, 1)), (256, r + 1))]
        bs = [b for b in bs if all(n for _, n in b)]
    else:
        bs = list(bursts_for(task["retries"], task["tier"], task["pairs"]))
    hs = [(task["first"],) + t for k in range(task["depth"])
          for t in itertools.product(task["names"], repeat=k)]
    if task["depth"] > 2 and task["tier"] == "quick" and task["pairs"] is False:
        hs = [h for h in hs if len(h) == 3]
        bs = [b for b in bs if not b or b[0][0] in (0, 1, 3, 5, 255, 256, 258, 511, 513)]
    for b in bs:
        for h in hs:
            m = trace(task["retries"], b, h)
            res.d["states"] += 1
            res.d["transitions"] += len(h)
            res.d["traces"] += 1
            if m:
                res.bad(dict(retries=task["retries"], bursts=b, hist=h),
                        f"retries={task['retries']}, failures (before word, times) {b}, "
                        f"calls {h}: {m}", key=m.split(":", 1)[1][:40])
    res.sample(f"retries={task['retries']} failures {bs[-1]} calls {hs[-1]}")
    return res.out()


def replay(case):
    m = trace(case["retries"], [tuple(b) for b in case["bursts"]], case["hist"])
    return [m] if m else []
