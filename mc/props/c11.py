"""C11: concurrent use of one generator is equivalent to some sequential order.

A controlled scheduler runs real threads over the real code: the generator's lock is
replaced by one the scheduler owns, and a UserBitGenerator hands control to it at every
draw, so the scheduler decides every step between lock operations and draws. All
schedules of every program in the bounds are explored, and the results of each are
compared with those of every serial order of its calls."""
import contextlib
import copy
import ctypes
import io
import itertools
import json
import os
import pickle
import queue
import subprocess
import sys
import threading
import time

import numpy as np
import randomgen as rg
from numpy.random import Generator, RandomState
from randomgen import ExtendedGenerator, UserBitGenerator

from mc import gens
from mc.core import Res

META = dict(
    level="model_checking",
    bounds=dict(
        quick="every unordered pair of 46 calls on two threads, every program of two "
              "threads of two calls over 6 calls, every triple of 12 calls on three "
              "threads, each under every schedule of lock operations and draws, for "
              "shared and for separate wrappers; every pair of 6 calls on every real "
              "generator; lock discipline of every call on every real generator after "
              "every one of 6 operations, also for calls of 70001 values; every call under a lock that fails",
        thorough="two threads of two calls over 12 calls, two threads of three calls over "
                 "3, every triple of 20 calls, two against one"),
    assumptions=["a thread is only preempted at lock operations and at draws; between "
                 "two of them the code touches only its own memory",
                 "reading or changing the state during a draw of another thread is not "
                 "part of the property"],
)
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
STUCK = 3.0
FINE = 6  # words drawn by programs in which every draw is a step


# ------------------------------------------------------------------ scheduler
class Abort(BaseException):
    pass


class Sched:
    """Runs threads one at a time; every choice is made by a given prefix, then by
    taking the first enabled thread."""

    def __init__(self, prefix, fine=True):
        self.prefix, self.trace, self.fine = prefix, [], fine
        self.q = queue.SimpleQueue()
        self.go, self.wait_lock, self.ids = {}, {}, {}
        self.abort = False

    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self, lock=None):
        t = self.me()
        if t is None:
            return
        self.wait_lock[t] = lock
        self.q.put((t, "ready"))
        self.go[t].acquire()
        if self.abort:
            raise Abort()

    def run(self, bodies):
        n = len(bodies)
        res = [None] * n

        def body(t):
            self.ids[threading.get_ident()] = t
            try:
                if self.fine:
                    self.point()
                else:
                    order[t].acquire()
                res[t] = bodies[t]()
            except Abort:
                pass
            except BaseException as e:
                res[t] = ["died", repr(e)]
            self.q.put((t, "done"))

        for t in range(n):
            self.go[t] = threading.Semaphore(0)
        order = [threading.Semaphore(0) for _ in range(n)]
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for t in ths:
            t.start()
        ready, running, err = set(), set(range(n)), None
        if not self.fine:
            # each thread runs to its first scheduling point, one after the other
            running = set()
            for t in range(n):
                order[t].release()
                try:
                    k, what = self.q.get(timeout=STUCK)
                    if what == "ready":
                        ready.add(k)
                except queue.Empty:
                    running.add(t)
        while True:
            while running:
                try:
                    t, what = self.q.get(timeout=STUCK)
                except queue.Empty:
                    break
                running.discard(t)
                if what == "ready":
                    ready.add(t)
            if not ready and not running:
                break
            en = sorted(t for t in ready
                        if self.wait_lock[t] is None or self.wait_lock[t].owner is None)
            if not en:
                err = "the lock is never released"
                break
            i = len(self.trace)
            c = self.prefix[i] if i < len(self.prefix) else 0
            c = min(c, len(en) - 1)
            self.trace.append((c, len(en)))
            t = en[c]
            ready.discard(t)
            running.add(t)
            lock = self.wait_lock[t]
            if lock is not None:
                lock.owner = t
            self.go[t].release()
        if err:
            self.abort = True
            for t in ready:
                self.go[t].release()
        for t in ths:
            t.join(STUCK)
        return err, res


class SLock:
    """A lock owned by the scheduler. Outside its threads it is an ordinary lock
    that records what happens."""

    def __init__(self):
        self.sched = None
        self.owner = None
        self.count = 0
        self.fail = None
        self.on_enter = self.on_exit = None

    def acquire(self, blocking=True, timeout=-1):
        if self.fail == "enter":
            raise ZeroDivisionError("enter")
        if self.on_enter:
            self.on_enter()
        s = self.sched
        if s is not None and s.me() is not None:
            s.point(self)
        else:
            if self.owner is not None:
                raise AssertionError("acquired twice")
            self.owner = "main"
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise AssertionError("released without being held")
        if self.on_exit:
            self.on_exit()
        self.owner = None
        s = self.sched
        if s is not None and s.me() is not None and not s.abort:
            s.point()
        if self.fail == "exit":
            raise ZeroDivisionError("exit")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


def setlock(bg, lock):
    """The attribute is read-only from Python: write its slot in the object."""
    old = bg.lock
    base = next(t for t in type(bg).__mro__ if t.__name__ == "BitGenerator"
                and t.__module__.startswith("numpy"))
    n = base.__basicsize__ // 8
    mem = (ctypes.c_size_t * n).from_address(id(bg))
    slots = [i for i in range(2, n) if mem[i] == id(old)]
    if len(slots) != 1:
        raise AssertionError("the lock's slot was not found")
    ctypes.pythonapi.Py_IncRef(ctypes.py_object(lock))
    mem[slots[0]] = id(lock)
    if bg.lock is not lock:
        raise AssertionError("the lock was not replaced")
    return old  # its reference is kept for good


# -------------------------------------------------------------------- subjects
def tape(bits, n=4000):
    return [((i + 1) * 0x9E3779B97F4A7C15 ^ (i * i * 0xD6E8FEB86659FD93) & M64)
            & (M64 if bits == 64 else M32) for i in range(n)]


TAPES = {32: tape(32), 64: tape(64)}
LO, GA, RE = np.array([1.0, 2j]), np.eye(2) * 2, np.array([[0.5, 0.1], [0.1, 0.3]])
COV = np.array([[2.0, 0.5], [0.5, 1.0]])
COVS = np.stack([COV, np.eye(2)])


class User:
    """A UserBitGenerator over a tape whose draws are scheduling points."""

    def __init__(self, bits, fine=True):
        self.tape, self.pos, self.log, self.lock = TAPES[bits], 0, [], SLock()
        self.unlocked = 0

        def f(_):
            s = self.lock.sched
            # a draw without the lock is always a scheduling point (and reported);
            # one made under it only where every step is explored
            if s is not None and (fine or self.lock.owner is None):
                s.point()
            if self.lock.owner is None:
                self.unlocked += 1
            # read, then write: a preemption between the two loses a word
            p = self.pos
            if s is not None and self.lock.owner is None:
                s.point()
            self.pos = p + 1
            self.log.append((s.me() if s is not None else None, p))
            return self.tape[p]
        self.bg = UserBitGenerator(f, bits)
        setlock(self.bg, self.lock)


class RealSub:
    def __init__(self, key):
        c = gens.BYKEY[key]
        self.bg = c.make(11)
        self.lock = SLock()
        setlock(self.bg, self.lock)
        self.log = None


class Wrap:
    def __init__(self, sub):
        self.bg = sub.bg
        self.lock = sub.lock
        self.eg, self.g, self.rs = None, None, None

    def e(self):
        if self.eg is None:
            self.eg = ExtendedGenerator(self.bg)
        return self.eg

    def n(self):
        if self.g is None:
            self.g = Generator(self.bg)
        return self.g

    def r(self):
        if self.rs is None:
            self.rs = RandomState(self.bg)
        return self.rs


def _out(n, dt):
    return np.zeros(n, dt)


def _ct(w, k):
    with w.lock:
        c = w.bg.ctypes
        return [c.next_uint64(c.state_address) for _ in range(k)]


OPS = {
    "raw": lambda w: w.bg.random_raw(),
    "raw3": lambda w: w.bg.random_raw(3),
    "raw-o": lambda w: w.bg.random_raw(output=False),
    "raw2-o": lambda w: w.bg.random_raw((2, 1), output=False),
    "bench": lambda w: w.bg._benchmark(2),
    "benchd": lambda w: w.bg._benchmark(1, "double"),
    "u64": lambda w: w.e().uintegers(),
    "u64x2": lambda w: w.e().uintegers(2),
    "u32": lambda w: w.e().uintegers(bits=32),
    "u32x3": lambda w: w.e().uintegers(3, bits=32),
    "dbl": lambda w: w.e().random(),
    "dblx2": lambda w: w.e().random(2),
    "dblo": lambda w: w.e().random(out=_out(2, np.float64)),
    "flt": lambda w: w.e().random(dtype=np.float32),
    "fltx3": lambda w: w.e().random(3, dtype=np.float32),
    "flto": lambda w: w.e().random(out=_out(2, np.float32), dtype=np.float32),
    "ldbl": lambda w: w.e().random(dtype=np.longdouble),
    "ldblx2": lambda w: w.e().random(2, dtype=np.longdouble),
    "cn": lambda w: w.e().complex_normal(),
    "cn2": lambda w: w.e().complex_normal(1j, 2.0, 0.5, size=2),
    "cna": lambda w: w.e().complex_normal([0, 1j], 1.0),
    "cna2": lambda w: w.e().complex_normal([0, 1j], 1.0, size=(2, 2)),
    "mvn": lambda w: w.e().multivariate_normal([0, 1], COV, method="cholesky"),
    "mvn2": lambda w: w.e().multivariate_normal([0, 1], COVS, size=(2, 2)),
    "mvcn": lambda w: w.e().multivariate_complex_normal(LO, GA, RE),
    "mvcn2": lambda w: w.e().multivariate_complex_normal(LO, GA, RE, size=2),
    "sw": lambda w: w.e().standard_wishart(3, 2),
    "sw2": lambda w: w.e().standard_wishart(3, 2, size=2),
    "sws": lambda w: w.e().standard_wishart(1, 2),
    "wi": lambda w: w.e().wishart(3, COV),
    "wi2": lambda w: w.e().wishart(3, COV, size=2),
    "wis": lambda w: w.e().wishart(1, COV),
    "wia": lambda w: w.e().wishart([3, 4], COV),
    "wiam": lambda w: w.e().wishart([1, 3], COV),
    "wiac": lambda w: w.e().wishart([1, 1], COVS),
    "wia2": lambda w: w.e().wishart([3, 2], COVS, size=(2, 2)),
    "np": lambda w: w.n().random(),
    "np2": lambda w: w.n().standard_normal(2),
    "npi": lambda w: w.n().integers(0, 2**40, 2),
    "rs": lambda w: w.r().random_sample(2),
    "new": lambda w: ExtendedGenerator(w.bg).random(2),
    "ct": lambda w: _ct(w, 2),
    # refused
    "x-raw": lambda w: w.bg.random_raw(-1),
    "x-big": lambda w: w.e().uintegers(2**62),
    "x-bits": lambda w: w.e().uintegers(2, bits=8),
    "x-out": lambda w: w.e().random(out=_out(3, np.float32)),
}
MORE = {  # refused calls, explored alone
    "x-raw-huge": lambda w: w.bg.random_raw((2**40, 2**40)),
    "x-raw-str": lambda w: w.bg.random_raw("a"),
    "x-rawo": lambda w: w.bg.random_raw("a", output=False),
    "x-bench": lambda w: w.bg._benchmark(1, "nothing"),
    "x-u32": lambda w: w.e().uintegers(-2, bits=32),
    "x-u32huge": lambda w: w.e().uintegers(2**62, bits=32),
    "x-dbl": lambda w: w.e().random(-1),
    "x-dblhuge": lambda w: w.e().random(2**62),
    "x-dtype": lambda w: w.e().random(3, dtype=np.int8),
    "x-out2": lambda w: w.e().random(out=[1.0]),
    "x-out3": lambda w: w.e().random(2, out=np.zeros(3)),
    "x-out4": lambda w: w.e().random(out=np.zeros((4, 4))[::2]),
    "x-fltout": lambda w: w.e().random(dtype=np.float32, out=np.zeros(2)),
    "x-ldout": lambda w: w.e().random(dtype=np.longdouble, out=np.zeros(2)),
    "x-ldbl": lambda w: w.e().random(-3, dtype=np.longdouble),
    "x-cn": lambda w: w.e().complex_normal(0, -1.0),
    "x-cn2": lambda w: w.e().complex_normal(0, 1.0, 2.0, size=3),
    "x-cn3": lambda w: w.e().complex_normal([0, 1], 1.0, size=3),
    "x-cn4": lambda w: w.e().complex_normal(size=-1),
    "x-mvn": lambda w: w.e().multivariate_normal([0, 1, 2], COV),
    "x-mvn2": lambda w: w.e().multivariate_normal([0, 1], -COV, check_valid="raise"),
    "x-mvn3": lambda w: w.e().multivariate_normal([0, 1], COVS, size=3),
    "x-mvn4": lambda w: w.e().multivariate_normal([0, 1], -COV, method="cholesky"),
    "x-mvcn": lambda w: w.e().multivariate_complex_normal(LO, GA, 5 * GA,
                                                          check_valid="raise"),
    "x-sw": lambda w: w.e().standard_wishart(3, 2, size=-1),
    "x-sw2": lambda w: w.e().standard_wishart(-1, 2),
    "x-wi": lambda w: w.e().wishart(0, COV),
    "x-wi2": lambda w: w.e().wishart(3, -COV, method="cholesky"),
    "x-wi3": lambda w: w.e().wishart([3, 4], COV, size=3),
    "x-wi4": lambda w: w.e().wishart([3, 4], -COVS, check_valid="raise"),
}
NB = 70001
BIG = {  # explored alone, for how often the lock is taken
    "big-raw": lambda w: w.bg.random_raw(NB),
    "big-rawo": lambda w: w.bg.random_raw(NB, output=False),
    "big-bench": lambda w: w.bg._benchmark(NB),
    "big-u64": lambda w: w.e().uintegers(NB),
    "big-u32": lambda w: w.e().uintegers(NB, bits=32),
    "big-dbl": lambda w: w.e().random(NB),
    "big-dblo": lambda w: w.e().random(out=_out(NB, np.float64)),
    "big-flt": lambda w: w.e().random(NB, dtype=np.float32),
    "big-ldbl": lambda w: w.e().random(NB, dtype=np.longdouble),
    "big-cn": lambda w: w.e().complex_normal(size=NB),
    "big-cna": lambda w: w.e().complex_normal(np.zeros(NB), 1.0),
    "big-mvn": lambda w: w.e().multivariate_normal([0, 1], COV, size=NB),
    "big-mvcn": lambda w: w.e().multivariate_complex_normal(LO, GA, RE, size=NB),
    "big-sw": lambda w: w.e().standard_wishart(3, 2, size=NB),
    "big-sws": lambda w: w.e().standard_wishart(1, 2, size=NB),
    "big-wi": lambda w: w.e().wishart(3, COV, size=NB),
    "big-wis": lambda w: w.e().wishart(1, COV, size=NB),
    "big-wia": lambda w: w.e().wishart([1, 3] * 600, COV),
    "big-wia2": lambda w: w.e().wishart([1, 3], COV, size=(9000, 2)),
}
ALL = dict(OPS, **MORE, **BIG)
BIGKEYS = ("sfc64", "mt19937", "philox4x32", "dsfmt", "chacha8")


def call(w, op):
    try:
        v = ALL[op](w)
    except Abort:
        raise
    except Exception as e:
        return "raised " + type(e).__name__
    if isinstance(v, np.ndarray) and v.dtype == np.longdouble:
        return [repr(x) for x in v.ravel()]
    if isinstance(v, np.longdouble):
        return repr(v)
    return gens.canon(v)


def make(subj, fine=True):
    return User(subj, fine) if isinstance(subj, int) else RealSub(subj)


def wraps(sub, n, shared):
    if not shared:
        return [Wrap(sub) for _ in range(n)]
    w = Wrap(sub)
    w.e(), w.n(), w.r()
    return [w] * n


def serials(subj, prog, shared):
    """Results of every serial order of the calls of a program."""
    out = {}
    idx = [t for t, p in enumerate(prog) for _ in p]
    for order in sorted(set(itertools.permutations(idx))):
        sub = make(subj)
        ws = wraps(sub, len(prog), shared)
        got = [[] for _ in prog]
        for t in order:
            got[t].append(call(ws[t], prog[t][len(got[t])]))
        if sub.log is not None:
            end = sub.pos
        else:
            end = gens.canon(sub.bg.state)
        out[(repr(got), repr(end))] = (order, None, end if sub.log is not None else 0)
    return out


def one(subj, prog, shared, prefix, ser):
    """Run one schedule; (what is wrong or None, choices made)."""
    # every draw is a step where the calls are few and short; elsewhere only the
    # draws made without the lock are, each of which is reported
    fine = sum(map(len, prog)) <= 2 and max(k[2] for k in ser.values()) <= FINE
    sub = make(subj, fine)
    s = Sched(prefix, fine)
    ws = wraps(sub, len(prog), shared)
    sub.lock.sched = s
    spans = []

    def body(t):
        def f():
            r = []
            for op in prog[t]:
                a = len(sub.log) if sub.log is not None else 0
                r.append(call(ws[t], op))
                if sub.log is not None:
                    spans.append((t, op, [p for (k, p) in sub.log[a:] if k == t]))
            return r
        return f
    err, res = s.run([body(t) for t in range(len(prog))])
    sub.lock.sched = None
    if err is None and sub.lock.owner is not None:
        err = "the lock is held after the last call"
    if err is None and any(r is None or r[:1] == ["died"] for r in res):
        err = f"a thread did not finish: {res}"
    if err is None and sub.log is not None:
        for t, op, w in spans:
            if w != list(range(w[0], w[0] + len(w))) if w else False:
                err = f"the call {op} of thread {t} got the words {w}"
                break
        if err is None and sub.unlocked:
            err = "a draw was made without the lock"
    if err is None:
        end = sub.pos if sub.log is not None else gens.canon(sub.bg.state)
        if (repr(res), repr(end)) not in ser:
            err = "the results are those of no serial order: " + repr(res)[:200]
    return err, s.trace


def explore(res, subj, prog, shared, limit=20000):
    ser = serials(subj, prog, shared)
    prefix, n = [], 0
    while True:
        err, tr = one(subj, prog, shared, prefix, ser)
        n += 1
        res.d["states"] += len(tr)
        res.d["transitions"] += len(tr)
        res.d["traces"] += 1
        if err:
            res.bad(dict(kind="sched", subj=subj, prog=prog, shared=shared,
                         prefix=[c for c, _ in tr]),
                    f"{subj}: threads {prog}, schedule {[c for c, _ in tr]}: {err}",
                    key=f"{sorted({o for p in prog for o in p})}: " + err[:40])
            return
        # next schedule in depth-first order
        k = len(tr) - 1
        while k >= 0 and tr[k][0] + 1 >= tr[k][1]:
            k -= 1
        if k < 0:
            return
        if n >= limit:
            raise AssertionError(f"more than {limit} schedules of {prog}")
        prefix = [c for c, _ in tr[:k]] + [tr[k][0] + 1]


# ------------------------------------------------------- discipline on real code
def _jump(b):
    try:
        b.jump()
    except NotImplementedError:
        pass


def hist_ops(cfg):
    out = {"nothing": lambda b: None,
           "state": lambda b: setattr(b, "state", b.state),
           "seed": lambda b: b.seed(5),
           "jumped": lambda b: hasattr(b, "jumped") and b.jumped(),
           "pickled": lambda b: pickle.loads(pickle.dumps(b)),
           "copied": lambda b: copy.deepcopy(b)}
    if cfg.adv:
        out["advance"] = lambda b: b.advance(3)
    if cfg.has_jump and hasattr(getattr(rg, cfg.cls), "jump"):
        out["jump"] = _jump
    return out


def discipline(key, hist, op, old):
    """Every state change of the call happens while the lock is held, and in one
    holding; the lock is free afterwards."""
    cfg = gens.BYKEY[key]
    sub = RealSub(key)
    w = Wrap(sub)
    if old:
        w.e(), w.n(), w.r()
    f = hist_ops(cfg)[hist]
    lk = sub.lock
    real = threading.Lock()
    if hist in ("pickled", "copied"):
        setlock(sub.bg, real)
        f(sub.bg)
        setlock(sub.bg, lk)
    else:
        f(sub.bg)
    if not old:
        w = Wrap(sub)
    mark = [gens.canon(sub.bg.state)]
    bad, changed = [], []

    def enter():
        if gens.canon(sub.bg.state) != mark[0]:
            bad.append("the state changed before the lock was taken")

    def leave():
        s = gens.canon(sub.bg.state)
        if s != mark[0]:
            changed.append(1)
        mark[0] = s
    lk.on_enter, lk.on_exit = enter, leave
    r = call(w, op)
    if gens.canon(sub.bg.state) != mark[0]:
        bad.append("the state changed without the lock")
    if lk.owner is not None:
        bad.append("the lock is held after the call")
    if op.startswith("x-") and (changed or not str(r).startswith("raised")):
        bad.append(f"a call to be refused drew or returned {str(r)[:60]}")
    if not op.startswith("x-") and str(r).startswith("raised"):
        bad.append(f"the call {r}")
    if len(changed) > 1:
        bad.append(f"the call drew under {len(changed)} separate holdings of the lock")
    return bad[0] if bad else None


def failing_lock(subj, op, how):
    sub = make(subj)
    w = Wrap(sub)
    w.e(), w.n(), w.r()
    before = sub.pos
    sub.lock.fail = how
    r = call(w, op)
    sub.lock.fail = None
    if op.startswith("x-"):
        return None if sub.lock.owner is None else "the lock is still held"
    if r != "raised ZeroDivisionError":
        return f"the lock failed on {how} and the call gave {str(r)[:80]}"
    if how == "enter" and sub.pos != before:
        return "the lock was not obtained and words were drawn"
    if sub.lock.owner is not None:
        return "the lock is still held"
    return None


def broken_draw(bits, op, at):
    """A user function that raises: the lock is free afterwards."""
    lock = SLock()
    n = [0]

    def f(_):
        n[0] += 1
        if n[0] == at:
            raise ZeroDivisionError
        return TAPES[bits][n[0]]
    bg = UserBitGenerator(f, bits)
    setlock(bg, lock)

    class S:
        pass
    s = S()
    s.bg, s.lock = bg, lock
    w = Wrap(s)
    hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            call(w, op)
    finally:
        sys.unraisablehook = hook
    return "the lock is still held" if lock.owner is not None else None


ROUTES = {
    "ExtendedGenerator": lambda b: ExtendedGenerator(b),
    "pickle": lambda b: pickle.loads(pickle.dumps(ExtendedGenerator(b))),
    "deepcopy": lambda b: copy.deepcopy(ExtendedGenerator(b)),
    "copy": lambda b: copy.copy(ExtendedGenerator(b)),
    "numpy": lambda b: Generator(b),
    "of pickled": lambda b: ExtendedGenerator(pickle.loads(pickle.dumps(b))),
}


def excluded(key, route):
    """While the real lock is held no wrapper of the generator draws."""
    b = gens.BYKEY[key].make(3)
    w = ROUTES[route](b)
    b = w.bit_generator
    for name, f in (("wrapper", lambda: w.random(2)), ("random_raw", b.random_raw),
                    ("second wrapper", lambda: ExtendedGenerator(b).uintegers(3))):
        if not b.lock.acquire(True, 5):
            return "the lock cannot be taken"
        st = gens.canon(b.state)
        started, done = threading.Event(), threading.Event()

        def body():
            started.set()
            f()
            done.set()
        t = threading.Thread(target=body, daemon=True)
        t.start()
        started.wait()
        early = done.wait(0.004)
        same = gens.canon(b.state) == st
        b.lock.release()
        if early or not same:
            return f"{name} drew while the lock was held"
        if not done.wait(10):
            return f"{name} is still waiting although the lock is free"
        t.join()
    return None


# ------------------------------------------------------------------------ RDRAND
RD_OPS = {
    "raw": lambda b, e, g: [b.random_raw()],
    "raw3": lambda b, e, g: b.random_raw(3).tolist(),
    "raw2-o": lambda b, e, g: b.random_raw(2, output=False),
    "u64": lambda b, e, g: [int(e.uintegers())],
    "u64x3": lambda b, e, g: e.uintegers(3).tolist(),
    "dbl2": lambda b, e, g: e.random(2).tolist(),
    "np": lambda b, e, g: g.random(2).tolist(),
    "bench": lambda b, e, g: b._benchmark(3),
}


class RdLock(SLock):
    """The scheduler's lock around the class's own, which reports failures."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def acquire(self, *a):
        super().acquire()
        self.inner.acquire()
        return True

    def release(self):
        try:
            self.inner.release()
        finally:
            super().release()


def rd_one(prog, fail, prefix):
    from mc.props.c12 import script
    s = script()
    s.nfail = 1 if fail is not None else 0
    if fail is not None:
        s.at[0], s.count[0] = fail, -1
    s.delivered = s.attempts = s.nlog = s.salt = 0
    b = rg.RDRAND(retries=0)
    lk = RdLock(b.lock)
    setlock(b, lk)
    e, g = ExtendedGenerator(b), Generator(b)
    used = {}
    outside = []
    last = [0]

    def enter():
        if s.attempts != last[0]:
            outside.append(1)

    def leave():
        last[0] = s.attempts
    lk.on_enter, lk.on_exit = None, leave
    sched = Sched(prefix) if prefix is not None else None
    lk.sched = sched

    def body(t):
        def f():
            r = []
            for op in prog[t]:
                try:
                    v = RD_OPS[op](b, e, g)
                except RuntimeError:
                    v = "RuntimeError"
                r.append(v)
            return r
        return f
    if sched is None:
        return None
    err, got = sched.run([body(t) for t in range(len(prog))])
    if err is None and lk.owner is not None:
        err = "the lock is still held"
    if err is None and s.attempts != last[0]:
        err = "the instruction was executed without the lock"
    return err, sched.trace, got, bool(b.success)


def rd_serial(prog, fail):
    from mc.props.c12 import script
    out = set()
    idx = [t for t, p in enumerate(prog) for _ in p]
    for order in sorted(set(itertools.permutations(idx))):
        s = script()
        s.nfail = 1 if fail is not None else 0
        if fail is not None:
            s.at[0], s.count[0] = fail, -1
        s.delivered = s.attempts = s.nlog = s.salt = 0
        b = rg.RDRAND(retries=0)
        e, g = ExtendedGenerator(b), Generator(b)
        got = [[] for _ in prog]
        for t in order:
            op = prog[t][len(got[t])]
            try:
                v = RD_OPS[op](b, e, g)
            except RuntimeError:
                v = "RuntimeError"
            got[t].append(v)
        out.add((repr(got), bool(b.success)))
    return out


def rdrand_all(tier):
    """In a process of its own, with the stand-in build."""
    n = 0
    so, sys.stdout = sys.stdout, io.StringIO()
    try:
        ops = list(RD_OPS)
        progs = [[[a], [b]] for a, b in itertools.combinations_with_replacement(ops, 2)]
        progs += [[[a], [b, c]] for a in ops for b in ("raw", "u64", "np")
                  for c in ("raw3", "u64x3")]
        for prog in progs:
            for fail in (None, 0, 1, 2, 256):
                ser = rd_serial(prog, fail)
                prefix = []
                while True:
                    err, tr, got, ok = rd_one(prog, fail, prefix)
                    n += 1
                    if err is None and (repr(got), ok) not in ser:
                        err = f"the results are those of no serial order: {got}"[:200]
                    if err:
                        return n, f"RDRAND: threads {prog}, failing from word {fail}, " \
                                  f"schedule {[c for c, _ in tr]}: {err}"
                    k = len(tr) - 1
                    while k >= 0 and tr[k][0] + 1 >= tr[k][1]:
                        k -= 1
                    if k < 0:
                        break
                    prefix = [c for c, _ in tr[:k]] + [tr[k][0] + 1]
    finally:
        sys.stdout = so
    return n, None


def run_rdrand(tier):
    dirs = json.loads(os.environ["MC_DIRS"])
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    env = dict(os.environ, PYTHONPATH=dirs["rdrand"] + os.pathsep + root)
    p = subprocess.run([sys.executable, "-m", "mc.props.c11", tier], env=env, cwd="/",
                       capture_output=True, text=True, timeout=380)
    if p.returncode:
        return 0, f"RDRAND: the process ended with {p.returncode}: {p.stderr[-400:]}"
    return json.loads(p.stdout.splitlines()[-1])


# ------------------------------------------------------------------------- tasks
FEW = ["raw3", "u32", "dbl", "cn2", "wia", "x-big"]
TRI = ["raw", "raw2-o", "u64x2", "u32x3", "dblx2", "flt", "ldbl", "cna", "mvn", "sws", "wiam",
       "np2"]
MID = FEW + ["u64x2", "flto", "ldbl", "sws", "np2", "ct"]
TRI2 = TRI + ["raw3", "u32", "dblo", "cn", "mvcn", "sw", "wiac", "rs"]
REALOPS = ["raw", "u64", "u32", "u32x3", "dblx2", "np2"]


def tasks(tier):
    out = []
    names = list(OPS)
    for i, a in enumerate(names):
        out.append(dict(kind="pairs", a=a, bs=names[i:]))
    few = FEW if tier == "quick" else MID
    for a, b in itertools.product(few, repeat=2):
        out.append(dict(kind="two", ab=[a, b], ops=few))
    tri = TRI if tier == "quick" else TRI2
    for i, a in enumerate(tri):
        for j in range(i, len(tri)):
            out.append(dict(kind="three", ab=[a, tri[j]], cs=tri[j:]))
    if tier == "thorough":
        for p in itertools.product(["raw3", "u32", "wia"], repeat=3):
            out.append(dict(kind="deep", p=list(p), ops=["raw3", "u32", "wia"]))
    for c in gens.CONFIGS:
        out.append(dict(kind="real", key=c.key))
        out.append(dict(kind="disc", key=c.key))
        out.append(dict(kind="excl", key=c.key))
    out.append(dict(kind="fail"))
    out.append(dict(kind="rdrand", tier=tier))
    return out


def run(task):
    res = Res()
    k = task["kind"]
    if k == "pairs":
        for b in task["bs"]:
            for bits in (64, 32):
                for sh in (True, False):
                    explore(res, bits, [[task["a"]], [b]], sh)
    elif k == "two":
        ab = task["ab"]
        for c in itertools.product(task["ops"], repeat=2):
            if list(c) >= ab:
                explore(res, 64, [ab, list(c)], True)
    elif k == "three":
        for c in task["cs"]:
            explore(res, 64, [[task["ab"][0]], [task["ab"][1]], [c]], True)
    elif k == "deep":
        for c in itertools.product(task["ops"], repeat=3):
            if list(c) >= task["p"]:
                explore(res, 64, [task["p"], list(c)], True)
    elif k == "real":
        for a, b in itertools.combinations_with_replacement(REALOPS, 2):
            explore(res, task["key"], [[a], [b]], True)
            explore(res, task["key"], [[a], [b]], False)
    elif k == "disc":
        key = task["key"]
        for h in hist_ops(gens.BYKEY[key]):
            for op in ALL:
                if h != "nothing" and (op in MORE or op.startswith("x-")):
                    continue
                if op in BIG and (h != "nothing" or key not in BIGKEYS):
                    continue
                for old in (True, False):
                    m = discipline(key, h, op, old)
                    res.d["states"] += 1
                    res.d["transitions"] += 2
                    res.d["traces"] += 1
                    if m:
                        res.bad(dict(kind="disc", key=key, hist=h, op=op, old=old),
                                f"{key} after {h}: {op}: {m}", key=f"{op}: {m[:40]}")
    elif k == "excl":
        for r in ROUTES:
            m = excluded(task["key"], r)
            res.d["states"] += 3
            res.d["transitions"] += 3
            res.d["traces"] += 1
            if m:
                res.bad(dict(kind="excl", key=task["key"], route=r),
                        f"{task['key']} through {r}: {m}", key=f"{r}: {m[:40]}")
    elif k == "fail":
        for op in {**OPS, **MORE}:
            for bits in (64, 32):
                for how in ("enter", "exit"):
                    m = failing_lock(bits, op, how)
                    res.d["states"] += 1
                    res.d["transitions"] += 1
                    res.d["traces"] += 1
                    if m:
                        res.bad(dict(kind="fail", bits=bits, op=op, how=how),
                                f"{op}, {bits} bits: {m}", key=f"{op}: {m[:40]}")
                for at in (1, 2, 3):
                    m = broken_draw(bits, op, at)
                    res.d["traces"] += 1
                    if m:
                        res.bad(dict(kind="broken", bits=bits, op=op, at=at),
                                f"{op}, {bits} bits, the user's function raises at draw "
                                f"{at}: {m}", key=f"{op}: {m[:40]}")
    elif k == "rdrand":
        n, m = run_rdrand(task["tier"])
        res.d["traces"] += n
        res.d["states"] += 4 * n
        res.d["transitions"] += 4 * n
        if m:
            res.bad(dict(kind="rdrand", tier=task["tier"]), m, key=m.split(":")[-1][:40])
    res.sample(json.dumps(task)[:120])
    return res.out()


def replay(c):
    k = c["kind"]
    if k == "sched":
        ser = serials(c["subj"], c["prog"], c["shared"])
        m, _ = one(c["subj"], c["prog"], c["shared"], c["prefix"], ser)
    elif k == "disc":
        m = discipline(c["key"], c["hist"], c["op"], c["old"])
    elif k == "excl":
        m = excluded(c["key"], c["route"])
    elif k == "fail":
        m = failing_lock(c["bits"], c["op"], c["how"])
    elif k == "broken":
        m = broken_draw(c["bits"], c["op"], c["at"])
    else:
        m = run_rdrand(c["tier"])[1]
    return [m] if m else []


if __name__ == "__main__":
    print(json.dumps(rdrand_all(sys.argv[1])))
