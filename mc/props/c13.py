"""C13: a refused operation leaves the generator exactly as it was.

Every refused call in the bounds (single faults at every place of a state, every
combination of good and bad arguments of seed, advance and jump, refused draws) is made
on the real generators at several positions; the state, the seed sequence, the later
output, children and reseeds are compared with those of a twin that never saw it."""
import copy
import inspect
import itertools
import os
import warnings

import numpy as np
import randomgen as rg
from numpy.random import SeedSequence
from randomgen import ExtendedGenerator, UserBitGenerator

from mc import gens
from mc.core import Res, note
from mc.props import c11

META = dict(
    level="model_checking",
    bounds=dict(
        quick="every configuration x 8 histories x states of every configuration of the "
              "class with one fault (25 kinds) at every entry of the dictionary and at "
              "first, middle and last elements of arrays; every combination of 3 good and "
              "20 bad values over the arguments of seed; 20 bad amounts of advance, jump "
              "and jumped; 50 refused draws",
        thorough="also pairs of faults, every element of arrays"),
    assumptions=["a call counts as refused when it raises; whether it should is C09's part"],
)


class Odd:
    pass


DEL = "<deleted>"
BAD = [("deleted", DEL), ("None", None), ("-1", -1), ("str", "x"), ("1.5", 1.5),
       ("2**32", 2**32), ("2**64", 2**64), ("2**200", 2**200), ("-2**70", -2**70),
       ("nan", float("nan")), ("inf", float("inf")), ("object", Odd()), ("list", [1, 2, 3]),
       ("empty", []), ("dict", {}), ("complex", 2j), ("uint64 max", np.uint64(2**64 - 1)),
       ("int64(-1)", np.int64(-1)), ("3", 3), ("1000", 1000), ("float array", np.array([1.5])),
       ("bytes", b"a"), ("tuple", (1, 2)), ("0-d", np.array(5, np.uint64)), ("7", 7)]
ABAD = [("short", lambda a: a[:-1]), ("long", lambda a: np.concatenate([a, a[:1]])),
        ("float", lambda a: a.astype(float) + 0.5), ("2-d", lambda a: a.reshape(1, -1)),
        ("int64", lambda a: a.astype(np.int64)), ("uint32", lambda a: a.astype(np.uint32)),
        ("list", lambda a: a.tolist()), ("object", lambda a: a.astype(object)),
        ("strings", lambda a: a.astype(str)), ("zeros", lambda a: a * 0)]
ELEM = [("-1", -1), ("2**64", 2**64), ("None", None), ("str", "q"), ("1.5", 1.5), ("nan",
        float("nan")), ("2**40", 2**40), ("list", [1])]


def paths(st, pre=()):
    """Every entry of a state dictionary, inner dictionaries included."""
    for k, v in st.items():
        yield pre + (k,)
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))


def get(st, path):
    for k in path:
        st = st[k]
    return st


def put(st, path, v):
    for k in path[:-1]:
        st = st[k]
    if isinstance(v, str) and v == DEL:
        del st[path[-1]]
    else:
        st[path[-1]] = v


def faults(st, path, tier):
    v = get(st, path)
    for n, b in BAD:
        yield n, (lambda b=b: b)
    if isinstance(v, np.ndarray) and v.size:
        for n, f in ABAD:
            yield "array " + n, (lambda f=f: f(v))
        idx = sorted({0, v.size // 2, v.size - 1})
        if tier == "thorough" and v.size <= 64:
            idx = range(v.size)
        for i in idx:
            for n, e in ELEM:
                def mk(i=i, e=e):
                    a = v.astype(object)
                    a[i] = e
                    return a
                yield f"element {i} {n}", mk
                yield f"list element {i} {n}", (lambda mk=mk: list(mk()))
    elif isinstance(v, (list, tuple)) and len(v):
        for i in range(len(v)):
            for n, e in ELEM:
                yield f"element {i} {n}", (lambda i=i, e=e: type(v)(
                    e if j == i else x for j, x in enumerate(v)))


HISTS = {
    "fresh": [],
    "mid": [("raw", 3), ("u32", 0)],
    "block": [("raw", 40), ("u32", 0), ("dbl", 0)],
    "seeded": [("seed", 9), ("u32", 0)],
    "state": [("raw", 5), ("state",), ("u32", 0)],
    "long": [("raw", 700), ("u32", 0)],
    "half": [("u32", 0), ("u32", 0), ("u32", 0)],
    "dbl": [("dbl", 5)],
}


def make(cfg, hist):
    b = gens.Box(cfg.make(77))
    for op in HISTS[hist]:
        b.do(cfg, op)
    return b


def obs(cfg, box):
    """All that can be seen: the state, draws, a child, a reseed."""
    bg = box.bg
    out = [gens.canon(bg.state)]
    for op in (("u32", 0), ("raw", 3), ("u64", 2), ("dbl", 0), ("u32", 0), ("raw", 9)):
        out.append(repr(box.do(cfg, op)))
    if cfg.has_jump:
        out.append(repr(bg.jumped().random_raw(2).tolist()))
    try:
        bg.seed(1234)
        out.append(gens.canon(bg.state))
    except Exception as e:
        out.append(repr(type(e)))
    out.append(repr(box.do(cfg, ("raw", 3))))
    return out


NAMES = ["state", "u32", "raw", "u64", "double", "u32 (2)", "raw (2)"]


class Tester:
    def __init__(self, res, cfg, hist):
        self.res, self.cfg, self.hist = res, cfg, hist
        b = make(cfg, hist)
        self.want0 = gens.canon(b.bg.state)
        self.want = obs(cfg, b)
        self.n = 0

    def renew(self):
        self.box = make(self.cfg, self.hist)
        self.seq = self.box.bg.seed_seq
        self.fresh = True
        self.pend = []

    def try_(self, what, f):
        """Make the call; the cheap comparison now, the full one in batches."""
        if not getattr(self, "fresh", False):
            self.renew()
        bg = self.box.bg
        note([self.cfg.key, what])
        self.res.d["states"] += 1
        self.res.d["transitions"] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f(self.box)
        except Exception:
            pass
        else:
            self.fresh = False  # it was accepted
            return
        self.res.d["traces"] += 1
        m = None
        try:
            now = gens.canon(bg.state)
        except Exception as e:
            now = repr(e)
        if now != self.want0:
            m = "the state has changed"
        elif bg.seed_seq is not self.seq:
            m = "the seed sequence has changed"
        self.pend.append(what)
        if m is None and len(self.pend) >= 12:
            m = self.flush_()
        if m:
            self.bad(what, m)
            self.fresh = False

    def flush_(self):
        got = obs(self.cfg, self.box)
        self.fresh = False
        if got == self.want:
            return None
        i = next(i for i in range(len(got)) if got[i] != self.want[i])
        return "later output differs (" + (NAMES[i] if i < len(NAMES) else "child or reseed") + ")"

    def flush(self):
        if getattr(self, "fresh", False) and self.pend:
            m = self.flush_()
            if m:
                self.bad(self.pend[-1], m)

    def bad(self, what, m):
        # name the call when only one of the batch can be at fault
        if m.startswith("later") and len(self.pend) > 1:
            what = f"one of {self.pend}"
        self.res.bad(None, f"{self.cfg.key} ({self.hist}): the refused call {what}: {m}",
                     key=f"{self.cfg.cls}: {what[:60]}: {m[:30]}")


def states_of(cfg):
    out = []
    for c in gens.CONFIGS:
        if c.cls == cfg.cls:
            g = gens.Box(c.make(5))
            g.do(c, ("raw", 2))
            g.do(c, ("u32", 0))
            out.append((c.key, g.bg.state))
    return out


def do_states(t, tier):
    if True:
        for key, st in states_of(t.cfg):
            for p in paths(st):
                for n, mk in faults(st, p, tier):
                    def f(box, p=p, mk=mk, st=st):
                        s = copy.deepcopy(st)
                        put(s, p, mk())
                        box.bg.state = s
                    t.try_(f"state of {key} with {'.'.join(map(str, p))} {n}", f)
            for n, v in [("list", [1]), ("None", None), ("str", "state"), ("int", 3),
                         ("empty", {}), ("items", list(st.items())),
                         ("other class", dict(st, bit_generator="Nothing")),
                         ("only the name", {"bit_generator": st["bit_generator"]})]:
                t.try_(f"state {n}", lambda box, v=v: setattr(box.bg, "state", v))
                t.try_(f"state {n} through ExtendedGenerator",
                       lambda box, v=v: setattr(box.eg, "state", v))
            if tier == "thorough":
                ps = list(paths(st))
                for p, q in itertools.combinations(ps, 2):
                    if q[:len(p)] == p:
                        continue
                    for v, w in itertools.product([DEL, None, -1, 2**200, "x"], repeat=2):
                        def f(box, p=p, q=q, v=v, w=w, st=st):
                            s = copy.deepcopy(st)
                            put(s, p, v)
                            put(s, q, w)
                            box.bg.state = s
                        t.try_(f"state of {key} with {p} {v} and {q} {w}", f)


def seedless():
    from numpy.random.bit_generator import SeedlessSeedSequence
    return SeedlessSeedSequence()


class Failing:
    """A seed sequence that fails after n requests, or gives what is not words."""

    def __init__(self, n, give=None):
        self.n, self.give, self.s = n, give, SeedSequence(99)

    def generate_state(self, n, dtype=np.uint32):
        if self.n == 0:
            if self.give is None:
                raise ZeroDivisionError
            return self.give
        self.n -= 1
        return self.s.generate_state(n, dtype)


np.random.bit_generator.ISeedSequence.register(Failing)

SEEDS_BAD = [-1, 1.5, "a", [-1], [1, -1], [1.5], np.array([2.5]), float("nan"), 2j, {},
             Odd(), [None], [1, "b"], b"x", np.float64(3.5), [[1, 2], [3, -4]], 1 - 2**64]
ARGS_BAD = [-1, 1.5, "a", [-1], [1, -1], 2**600, -2**70, 2j, {}, Odd(), [1.5], float("inf"),
            np.array([1.5, 2.5]), [2**64, 0], [0, 2**64], [None, 1], np.array([-1, 3]),
            np.arange(100, dtype=np.uint64), [[1, 2], [3, 4]], "0x1", 2**512 - 1, 2**129]
ARGS_GOOD = [None, 3, np.array([5, 0], np.uint64)]


def seed_calls(cfg):
    cls = getattr(rg, cfg.cls)
    try:
        names = [p for p in inspect.signature(cls.seed).parameters if p not in ("self", "seed")]
    except ValueError:
        names = {"AESCounter": ["counter", "key"], "ChaCha": ["counter", "key"],
                 "Philox": ["counter", "key"], "ThreeFry": ["counter", "key"],
                 "SPECK128": ["counter", "key"], "HC128": ["key"], "PCG32": ["inc"],
                 "PCG64": ["inc"], "LCG128Mix": ["inc"], "PCG64DXSM": ["inc"],
                 "Squares": ["counter", "key"], "Tyche": ["idx"]}.get(cfg.cls, [])
    yield "seedless", lambda: ((seedless(),), {})
    for n in range(3):
        yield f"failing sequence {n}", lambda n=n: ((Failing(n),), {})
        yield f"sequence giving None {n}", lambda n=n: ((Failing(n, [None] * 64),), {})
        # A sequence owes the words it is asked for, and memory safety relies on it
        if os.environ.get("MC_VARIANT") != "asan":
            yield f"sequence giving nothing {n}", lambda n=n: (
                (Failing(n, np.zeros(0, np.uint64)),), {})
    for s in SEEDS_BAD:
        yield f"seed {s!r:.30}", lambda s=s: ((s,), {})
    vals = ARGS_GOOD + ARGS_BAD
    for s in [None, 3] + SEEDS_BAD[:3]:
        if len(names) == 1:
            for v in vals:
                yield f"seed {s!r} {names[0]} {v!r:.40}", lambda s=s, v=v: (
                    (s,), {names[0]: v})
        elif len(names) == 2:
            for v, w in itertools.product(vals, repeat=2):
                if any(v is g for g in ARGS_GOOD) or any(w is g for g in ARGS_GOOD):
                    yield (f"seed {s!r} {names[0]} {v!r:.40} {names[1]} {w!r:.40}",
                           lambda s=s, v=v, w=w: ((s,), {names[0]: v, names[1]: w}))
    yield "seed unknown", lambda: ((1,), {"nothing": 3})
    yield "seed 2 args", lambda: ((1, 2, 3, 4, 5), {})


def do_seed(t):
    for n, mk in seed_calls(t.cfg):
        def f(box, mk=mk):
            a, k = mk()
            box.bg.seed(*a, **k)
        t.try_(n, f)


AMOUNTS = [-1, 1.5, "a", None, [1], [1, 2], 2j, {}, Odd(), 2**600, -2**600, float("nan"),
           float("inf"), -float("inf"), 1e30, np.array([1, 2]), np.array(1.5), np.float64(0.5),
           b"1", 2**64, -2**63, 2**63, np.int8(-1), 2**128, -2**128, 2**31, -2**31]


def do_amounts(t):
    for a in AMOUNTS:
        nm = f"{a!r:.30}"
        if t.cfg.adv:
            t.try_("advance " + nm, lambda box: box.bg.advance(a))
            if "kw" in t.cfg.adv:
                for c in (True, False, "x", None):
                    t.try_(f"advance {nm} counter {c}",
                           lambda box: box.bg.advance(a, counter=c))
            t.try_("advance twice " + nm, lambda box: box.bg.advance(a, a, a))
        if isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a) > 2**20 \
                and a == a and abs(a) != float("inf") and t.cfg.jump is None:
            continue  # accepted, and takes as many steps
        if isinstance(a, int) and abs(a) > 1000 and not t.cfg.adv:
            continue
        if isinstance(a, (str, bytes, list)):
            continue  # would be repeated as many times as the jump is long
        if hasattr(t.box.bg if getattr(t, "fresh", False) else t.cfg.make(1), "jump"):
            t.try_("jump " + nm, lambda box: box.bg.jump(a))
        if t.cfg.has_jump:
            def parent(box):
                box.bg.jumped(a)
            t.try_("jumped " + nm, parent)
    t.try_("advance nothing", lambda box: box.bg.advance())


def do_draws(t):
    for op, f in {**c11.MORE, **{k: v for k, v in c11.OPS.items() if k.startswith("x-")}}.items():
        class W:
            pass

        def g(box, f=f):
            w = W()
            w.bg = box.bg
            w.e = lambda: box.eg
            f(w)
        t.try_("draw " + op, g)
    for bad in ("a", -1, [-1, 2], 1.5, [1.5], {}, Odd(), (2**40, 2**40), 2**63, -2**70, [None]):
        nm = f"{bad!r:.30}"
        t.try_("random_raw " + nm, lambda box: box.bg.random_raw(bad))
        for bits in (32, 64, 8, None, "64"):
            t.try_(f"uintegers {nm} {bits}", lambda box: box.eg.uintegers(bad, bits=bits))
        for dt in (np.float32, np.float64, np.longdouble, np.int8, "x", None, complex):
            if dt in (None,) and bad != "a":
                continue
            t.try_(f"random {nm} {dt}", lambda box: box.eg.random(bad, dtype=dt))
        for fn, a in (("complex_normal", (0, 1.0, 0)), ("complex_normal", ([0, 1], 1.0, 0)),
                      ("multivariate_normal", ([0, 1], c11.COV)),
                      ("multivariate_normal", ([0, 1], c11.COVS)),
                      ("multivariate_complex_normal", (c11.LO, c11.GA, c11.RE)),
                      ("wishart", (3, c11.COV)), ("wishart", ([3, 1], c11.COVS)),
                      ("standard_wishart", (3, 2)), ("standard_wishart", (1, 2))):
            if isinstance(bad, tuple) and fn != "complex_normal":
                continue
            t.try_(f"{fn} {np.ndim(a[0])} size {nm}",
                   lambda box: getattr(box.eg, fn)(*a, size=bad))
        t.try_("_benchmark " + nm, lambda box: box.bg._benchmark(bad, "no"))


def tasks(tier):
    out = []
    hs = list(HISTS)
    for c in gens.CONFIGS:
        for h in hs:
            out.append(dict(key=c.key, hist=h, what="states", tier=tier))
            out.append(dict(key=c.key, hist=h, what="calls", tier=tier))
    big = ("MT19937", "SFMT", "DSFMT", "HC128", "MT64")
    out.sort(key=lambda t: gens.BYKEY[t["key"]].cls not in big)
    return out


def run(task):
    res = Res()
    t = Tester(res, gens.BYKEY[task["key"]], task["hist"])
    if task["what"] == "states":
        do_states(t, task["tier"])
    else:
        do_seed(t)
        do_amounts(t)
        do_draws(t)
    t.flush()
    res.sample(f"{task['key']} {task['hist']} {task['what']}: "
               f"{res.d['traces']} refused of {res.d['states']} calls")
    return res.out()


def replay(case):
    return []
