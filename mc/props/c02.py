"""C02: generators, snapshots and children never share mutable state."""
import copy
import itertools
import pickle

import numpy as np
import randomgen as rg
from numpy.random import Generator
from numpy.random import SeedSequence as NPSeedSequence
from randomgen import ExtendedGenerator, SeedSequence

from mc.core import Res
from mc.gens import CONFIGS, Cfg, canon

META = dict(
    level="model_checking",
    bounds=dict(
        quick="every class and variant x 16 relations of two generators: every "
              "interleaving of 2 operations on new pairs and every window of 3 "
              "operations inside one long history (11 operations per generator); every "
              "container of every snapshot and every array argument overwritten at "
              "every kind of position",
        thorough="windows of 3 and 4 operations, new pairs with 3 operations"),
    assumptions=["each generator's own history, run with the other left alone, is the "
                 "oracle"],
)
EXTRA = [Cfg("np-mt19937", "MT19937", dict(numpy_seed=True), dec="w32", dbl="mt", block=624),
         Cfg("np-pcg64", "PCG64", dict(numpy_seed=True), adv=dict(unit=1, bits=128)),
         Cfg("np-philox", "Philox", dict(numpy_seed=True), block=4,
             adv=dict(unit=1, bits=258, kw=dict(counter=False))),
         Cfg("np-sfc64", "SFC64", dict(numpy_seed=True))]
ALL = CONFIGS + EXTRA
KEY = {c.key: c for c in ALL}
SLOW = ("mt19937", "dsfmt", "sfmt", "np-mt19937")


# ------------------------------------------------------------------- relations
def pair(cfg, rel):
    """Two related generators, deterministically."""
    a = cfg.make(11)
    b0 = cfg.block // cfg.raw_words
    if rel == "same seed":
        return a, cfg.make(11)
    if rel == "other seed":
        return a, cfg.make(12)
    if rel == "same seed sequence":
        s = SeedSequence(5)
        return cfg.make(s), cfg.make(s)
    if rel == "same numpy seed sequence":
        s = NPSeedSequence(5)
        return cfg.make(s), cfg.make(s)
    if rel == "same array":
        s = np.array([3, 1, 4, 1], dtype=np.uint32)
        return cfg.make(s), cfg.make(s)
    # the others are made in the middle of a block, with a pending half
    a.random_raw(b0 + 1)
    ExtendedGenerator(a).uintegers(None, bits=32)
    if rel == "deepcopy":
        return a, copy.deepcopy(a)
    if rel == "copy":
        return a, copy.copy(a)
    if rel == "pickle":
        return a, pickle.loads(pickle.dumps(a))
    if rel == "jumped":
        return a, a.jumped()
    if rel == "jumped twice":
        return a.jumped(), a.jumped()
    if rel == "snapshot":
        b = cfg.make(99)
        b.state = a.state
        return a, b
    if rel == "one snapshot for both":
        s = a.state
        b, c = cfg.make(99), cfg.make(98)
        b.state = s
        c.state = s
        return b, c
    if rel == "generator copy":
        g = Generator(a)
        return g.bit_generator, copy.copy(ExtendedGenerator(a)).bit_generator
    if rel == "generator deepcopy":
        return a, copy.deepcopy(Generator(a)).bit_generator
    if rel == "generator pickle":
        return a, pickle.loads(pickle.dumps(ExtendedGenerator(a))).bit_generator
    if rel == "spawned":
        return a, a.spawn(1)[0]
    if rel == "siblings":
        return tuple(a.spawn(2))
    raise KeyError(rel)


RELS = ["same seed", "other seed", "same seed sequence", "same numpy seed sequence",
        "same array", "deepcopy", "copy", "pickle", "jumped", "jumped twice", "snapshot",
        "one snapshot for both", "generator copy", "generator deepcopy",
        "generator pickle", "spawned", "siblings"]


# the seed sequence is one object for both, or new from the system
UNSEEDED = ("same seed sequence", "same numpy seed sequence", "generator copy",
            "generator pickle")
DEEP = ("same seed", "deepcopy", "jumped", "one snapshot for both")


def rels(cfg):
    return [r for r in RELS if not (r.startswith("jumped") and not cfg.has_jump)]


# ------------------------------------------------------------------ operations
class Actor:
    """One generator, its interfaces and the snapshots somebody holds of it."""

    def __init__(self, cfg, bg):
        self.cfg, self.bg = cfg, bg
        self.eg, self.g = ExtendedGenerator(bg), Generator(bg)
        self.ct = bg.ctypes
        self.held = []
        self.adv = hasattr(bg, "advance")
        self.n = 0

    def do(self, op):
        bg = self.bg
        self.n += 1
        if op == "raw":
            return bg.random_raw()
        if op == "block":
            return bg.random_raw(self.cfg.block // self.cfg.raw_words + 1).tobytes()
        if op == "u32":
            return int(self.eg.uintegers(None, bits=32))
        if op == "ct":
            return (int(self.ct.next_uint32(self.ct.state)),
                    int(self.ct.next_uint64(self.ct.state)),
                    float(self.ct.next_double(self.ct.state)))
        if op == "norm":
            return (float(self.g.standard_normal()), self.g.random(2).tobytes(),
                    float(self.g.gamma(0.3)), int(self.g.integers(0, 1000)))
        if op == "get":
            s = bg.state
            self.held = self.held[-1:] + [(s, canon(s))]
            return canon(s)
        if op == "set":
            s = self.held[0][0] if self.held else bg.state
            bg.state = s
            return None
        if op == "seed":
            bg.seed(self.n % 3)
            return None
        if op == "adv":
            if not self.adv:
                bg.seed(SeedSequence(77))
            elif self.cfg.adv and self.cfg.adv.get("kw"):
                bg.advance(5, **self.cfg.adv["kw"])
            else:
                bg.advance(5)
            return None
        if op == "jumped":
            if self.cfg.has_jump:
                c = bg.jumped()
            else:
                c = copy.copy(bg)
            c.random_raw(3)
            c.seed(4)
            return None
        if op == "jump":
            try:
                bg.jump()
            except (AttributeError, NotImplementedError):
                ExtendedGenerator(bg).complex_normal(size=2)
            return None
        if op == "spawn":
            return [c.random_raw() for c in bg.spawn(1)]
        raise KeyError(op)

    def held_ok(self):
        return all(canon(s) == c for s, c in self.held)

    def end(self):
        return (canon(self.bg.state), self.bg.random_raw(3).tobytes(),
                str(getattr(self.bg.seed_seq, "state", None)))


OPS = ["raw", "block", "u32", "ct", "norm", "get", "set", "seed", "adv", "jumped", "jump"]


def ops_of(cfg, rel):
    o = list(OPS)
    if rel in ("spawned", "deepcopy", "pickle", "jumped"):
        o.append("spawn")
    if cfg.key in SLOW:
        # their jumps take milliseconds; in-place jumps run the same code
        o.remove("jump")
    return o


def debruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def solo(cfg, rel, who, ops):
    """What generator `who` gives for its own operations when nothing is done to
    the other."""
    x = Actor(cfg, pair(cfg, rel)[who])
    return [x.do(o) for o in ops], x.end()


class Solo:
    """solo() for the short histories, computed once each."""

    def __init__(self, cfg, rel):
        self.cfg, self.rel, self.c = cfg, rel, {}

    def __call__(self, who, ops):
        k = (who, tuple(ops))
        if k not in self.c:
            self.c[k] = solo(self.cfg, self.rel, who, ops)
        return self.c[k]


def interleave(cfg, rel, hist, ref):
    """hist: list of (who, op). None or what is wrong."""
    p = pair(cfg, rel)
    act = [Actor(cfg, p[0]), Actor(cfg, p[1])]
    proj = [[o for w, o in hist if w == i] for i in (0, 1)]
    want = [ref(0, proj[0]), ref(1, proj[1])]
    at = [0, 0]
    for i, (w, o) in enumerate(hist):
        got = act[w].do(o)
        if got != want[w][0][at[w]]:
            return (f"{cfg.key} ({rel}): operation {o!r} of generator {'AB'[w]} after "
                    f"{show(hist[max(0, i - 4):i])} differs from what it gives when the "
                    f"other generator is left alone: {str(got)[:90]} / "
                    f"{str(want[w][0][at[w]])[:90]}")
        at[w] += 1
        if not (act[0].held_ok() and act[1].held_ok()):
            return (f"{cfg.key} ({rel}): {o!r} of generator {'AB'[w]} after "
                    f"{show(hist[max(0, i - 4):i])} changed a snapshot taken before")
    for w in (0, 1):
        k = 2 if rel in UNSEEDED else 3
        if act[w].end()[:k] != want[w][1][:k]:
            return (f"{cfg.key} ({rel}): state of generator {'AB'[w]} after "
                    f"{show(hist[-5:])} differs from when the other is left alone")
    return None


def show(h):
    return ", ".join("AB"[w] + ":" + o for w, o in h)


def windows(cfg, rel, n):
    o = ops_of(cfg, rel)
    al = [(w, x) for x in o for w in (0, 1)]
    if n == "pairs":
        return al
    return [al[i] for i in debruijn(len(al), n)]


# ----------------------------------------------------------- containers handed over
def leaves(x, path=()):
    """(container, key) of everything that can be overwritten in a state."""
    if isinstance(x, dict):
        for k in x:
            yield x, k, path + (k,)
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield x, i, path + (i,)
            yield from leaves(x[i], path + (i,))
    elif isinstance(x, np.ndarray):
        yield x, Ellipsis, path


def spoil(state):
    """Overwrites everything that can be in a state."""
    for c, k, _ in list(leaves(state)):
        if isinstance(c, np.ndarray):
            if not c.flags.writeable:
                continue
            c.view(np.uint8)[...] ^= 0x5A
        elif not isinstance(c[k], (dict, list, np.ndarray)):
            c[k] = "spoilt"


def later(cfg, bg):
    n = cfg.block // cfg.raw_words
    eg = ExtendedGenerator(bg)
    out = [canon(bg.state), int(eg.uintegers(None, bits=32)),
           bg.random_raw(n + 1).tobytes(), int(eg.uintegers(None, bits=32)),
           canon(bg.state)]
    if cfg.has_jump and cfg.key not in SLOW:
        out.append(canon(bg.jumped().state))
    bg.seed(8)
    return out + [canon(bg.state), bg.random_raw(n).tobytes()]


def at_pos(cfg, pos, half, seed=21):
    bg = cfg.make(seed)
    if pos:
        bg.random_raw(pos)
    if half:
        ExtendedGenerator(bg).uintegers(None, bits=32)
    return bg


def snapshot_case(cfg, pos, half, kind):
    mk = lambda: at_pos(cfg, pos, half)
    want = later(cfg, mk())
    bg = mk()
    if kind == "spoil a snapshot":
        spoil(bg.state)
        got = later(cfg, bg)
    elif kind == "hold a snapshot":
        s = bg.state
        c = canon(s)
        got = later(cfg, bg)
        bg.state = cfg.make(5).state
        bg.random_raw(3)
        if canon(s) != c:
            return "a snapshot changed while its generator was used"
    elif kind == "spoil a restored snapshot":
        s = bg.state
        b2 = cfg.make(77)
        b2.state = s
        spoil(s)
        got = later(cfg, b2)
        if got == want:
            got = later(cfg, bg)
    elif kind == "hold a restored snapshot":
        s = bg.state
        c = canon(s)
        b2 = cfg.make(77)
        b2.state = s
        got = later(cfg, b2)
        if canon(s) != c:
            return "a generator changed the snapshot it was restored from"
    elif kind == "reread":
        s, t = bg.state, bg.state
        c = canon(t)
        spoil(s)
        if canon(t) != c:
            return "two snapshots share memory"
        got = later(cfg, bg)
    elif kind == "pickled tuple":
        red = bg.__reduce__()
        c = canon(bg.state)
        for x in red[1:]:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, dict):
                    spoil(y)
        if canon(bg.state) != c:
            return "overwriting what pickle was given changed the generator"
        got = later(cfg, bg)
    elif kind == "spoil outputs":
        outs = [bg.random_raw(2 * cfg.block), ExtendedGenerator(bg).random(cfg.block)]
        b2 = mk()
        for k in range(2):
            (b2.random_raw(2 * cfg.block) if k == 0
             else ExtendedGenerator(b2).random(cfg.block))
        keep = [o.copy() for o in outs]
        want = later(cfg, b2)
        got = None
        w = canon(bg.state)
        for o in outs:
            o[...] = 0
        if canon(bg.state) != w:
            return "overwriting returned values changed the generator"
        got = later(cfg, bg)
        if any(o.any() for o in outs) or not keep:
            return "the generator wrote to an array it had returned"
    else:
        raise KeyError(kind)
    return None if got == want else "differs from a generator that was left alone"


KINDS = ["spoil a snapshot", "hold a snapshot", "spoil a restored snapshot",
         "hold a restored snapshot", "reread", "pickled tuple", "spoil outputs"]


# ------------------------------------------------------------------ array arguments
def array_args(cfg):
    """Keyword arguments with arrays, by how they are handed over."""
    c, k = cfg.cls, cfg.kw
    out = []
    for dt in (np.uint64, np.uint32, np.int64, object):
        out.append(dict(seed=np.array([3, 1, 2**31 - 1, 4], dtype=dt)))
    out.append(dict(seed=[3, 1, 4]))
    u = lambda n, w=64: np.arange(1, n + 1).astype(np.uint64 if w == 64 else np.uint32)
    if c in ("AESCounter",):
        out += [dict(seed=None, key=u(2)), dict(seed=None, key=u(2), counter=u(2)),
                dict(seed=1, counter=u(2))]
    elif c in ("ChaCha", "SPECK128"):
        out += [dict(seed=None, key=u(4), counter=u(2)), dict(seed=1, counter=u(2))]
    elif c == "HC128":
        out += [dict(seed=None, key=u(4))]
    elif c in ("Philox", "ThreeFry") and "numpy_seed" not in k:
        n, w = k["number"], k["width"]
        kn = n if c == "ThreeFry" else n // 2
        out += [dict(seed=None, key=u(kn, w), counter=u(n, w)), dict(seed=1, counter=u(n, w)),
                dict(seed=None, key=u(kn), counter=u(n))]
    elif c in ("PCG64", "PCG64DXSM", "LCG128Mix") and "numpy_seed" not in k:
        out += [dict(seed=1, inc=u(2))]
        if c == "LCG128Mix":
            out += [dict(seed=1, multiplier=np.array([5, 1], np.uint64))]
    return out


def arg_case(cfg, i, how):
    arg = array_args(cfg)[i]
    kw = dict(cfg.kw)
    kw.update(copy.deepcopy(arg))
    ref = copy.deepcopy(kw)
    cls = getattr(rg, cfg.cls)

    def new(kw):
        kw = dict(kw)
        return cls(kw.pop("seed", None), **kw)

    try:
        want = later(cfg, new(copy.deepcopy(ref)))
    except (TypeError, ValueError):
        return None  # refused: nothing is kept
    except Exception:
        raise
    if how == "seed" and not set(arg) <= {"seed", "key", "counter", "inc"}:
        return None
    if how == "construct":
        bg = new(kw)
    else:
        bg = cfg.make(500)
        sk = {k: v for k, v in kw.items() if k not in cfg.kw}
        try:
            bg.seed(**sk)
            b2 = cfg.make(500)
            b2.seed(**{k: copy.deepcopy(v) for k, v in ref.items() if k not in cfg.kw})
            want = later(cfg, b2)
        except (TypeError, ValueError):
            return None
    if canon(list(kw.items())) != canon(list(ref.items())):
        return f"changed its argument: {ref} became {kw}"
    for v in kw.values():
        if isinstance(v, np.ndarray):
            v[...] = 9
        elif isinstance(v, list):
            v[:] = [9] * len(v)
    got = later(cfg, bg)
    if got != want:
        return "overwriting an argument afterwards changed the generator"
    for v in kw.values():
        if isinstance(v, (list, np.ndarray)) and any(x != 9 for x in v):
            return "the generator wrote to its argument later"
    return None


def seq_case(cfg, np_seq, op):
    """A generator leaves the seed sequence it was given as it was."""
    s = (NPSeedSequence if np_seq else SeedSequence)(5, spawn_key=(3,))
    ref = (NPSeedSequence if np_seq else SeedSequence)(5, spawn_key=(3,))
    bg = cfg.make(s)
    x = Actor(cfg, bg)
    x.do(op)
    if op == "seed":
        bg.seed(s)
    if s.state != ref.state or s.pool.tobytes() != ref.pool.tobytes():
        return f"{op!r} changed the seed sequence the generator was made from"
    # spawning from the sequence does not change the generator
    bg2 = cfg.make(ref)
    y = Actor(cfg, bg2)
    ref.spawn(2)
    ref.generate_state(9)
    y.do(op)
    if op == "seed":
        bg2.seed((NPSeedSequence if np_seq else SeedSequence)(5, spawn_key=(3,)))
    if canon(bg.state) != canon(bg2.state):
        return "use of the seed sequence changed the generator made from it"
    return None


# ------------------------------------------------- array parameters of the samplers
def eg_cases():
    r = np.random.default_rng(3)
    c2 = np.array([[2.0, 0.5], [0.5, 1.0]])
    for dt in (np.float64, np.float32):
        for shape in ((), (3,), (2, 1)):
            a = r.random(shape).astype(dt) + 1
            yield ("complex_normal", dict(loc=np.asarray(a * (1 + 1j)), gamma=np.asarray(a + 2),
                                          relation=np.asarray(a * 0.1)))
    for m in ("cholesky", "eigh", "svd", "factor"):
        for lead in ((), (2,), (2, 3)):
            mean = np.zeros(lead + (2,)) + 1
            cov = np.zeros(lead + (2, 2)) + c2
            yield "multivariate_normal", dict(mean=mean, cov=cov, method=m)
            if m != "factor":
                yield ("multivariate_complex_normal",
                       dict(loc=mean + 0j, gamma=cov + 0j, relation=cov * 0.1 + 0j, method=m))
    for lead in ((), (2,)):
        yield "wishart", dict(df=np.zeros(lead, dtype=np.int64) + 5, scale=np.zeros(lead + (2, 2)) + c2)
    yield "random", dict(size=3, out=np.full(3, 7.0))


def eg_case(i):
    name, kw = list(eg_cases())[i]
    bg = rg.PCG64(3)
    eg = ExtendedGenerator(bg)
    ref = copy.deepcopy(kw)
    for v in kw.values():
        if isinstance(v, np.ndarray) and name != "random":
            v.flags.writeable = False
    first = getattr(eg, name)(**kw)
    c = np.array(first, copy=True)
    if name != "random":
        if canon(list(kw.items())) != canon(list(ref.items())):
            return f"{name} changed its arguments"
        kw2 = copy.deepcopy(ref)
        second = getattr(ExtendedGenerator(rg.PCG64(3)), name)(**kw2)
        if canon(list(kw2.items())) != canon(list(ref.items())):
            return f"{name} changed its arguments"
        if np.asarray(second).tobytes() != c.tobytes():
            return f"{name} depends on whether its arguments can be written"
        for v in kw2.values():
            if isinstance(v, np.ndarray) and isinstance(second, np.ndarray) and np.shares_memory(v, second):
                return f"{name} returned memory of an argument"
    third = getattr(eg, name)(**ref)
    if np.array(first).tobytes() != c.tobytes() and name != "random":
        return f"a later {name} changed values returned before"
    if isinstance(first, np.ndarray) and isinstance(third, np.ndarray) \
            and name != "random" and np.shares_memory(first, third):
        return f"two calls of {name} returned the same memory"
    return None


def misc_case(kind):
    from randomgen import squares
    if kind == "squares keys":
        a = squares.generate_keys(5, 4)
        c = a.copy()
        b = squares.generate_keys(6, 4)
        if (a != c).any() or np.shares_memory(a, b):
            return "keys returned before changed"
        b[...] = 0
        if (squares.generate_keys(5, 4) != c).any():
            return "overwriting returned keys changed later ones"
    elif kind == "seed array":
        from randomgen._seed_sequence import SeedSequence as S
        e = [1, 2, 3]
        s = S(e)
        w = s.generate_state(8)
        c = w.copy()
        w[...] = 0
        if (s.generate_state(8) != c).any():
            return "overwriting generated words changed the sequence"
        p = s.pool
        try:
            p[...] = 0
        except ValueError:
            pass
    return None


# ------------------------------------------------------------------------ plumbing
def tasks(tier):
    out = []
    for c in ALL:
        for r in rels(c):
            out.append(dict(kind="pairs", cfg=c.key, rel=r, n=2 if tier == "quick" else 3))
            n = 3 if r in DEEP else 2
            out.append(dict(kind="windows", cfg=c.key, rel=r,
                            n=n + (tier == "thorough") - (c.key in SLOW and n == 3)))
        out.append(dict(kind="containers", cfg=c.key, tier=tier))
    out.append(dict(kind="eg"))
    out.sort(key=lambda t: (t.get("cfg") not in SLOW, t["kind"] != "windows"))
    return out


def cases(cfg, tier):
    b = cfg.block // cfg.raw_words
    pos = [0, 1, b - 1, b, b + 1] if tier == "quick" else \
        list(range(0, min(2 * b + 2, 40))) + [b - 1, b, b + 1, 2 * b]
    for p in dict.fromkeys(x for x in pos if x >= 0):
        for h in (0, 1):
            for k in KINDS:
                yield dict(kind="snap", cfg=cfg.key, pos=p, half=h, what=k)
    for i in range(len(array_args(cfg))):
        for how in ("construct", "seed"):
            yield dict(kind="arg", cfg=cfg.key, i=i, how=how)
    for np_seq in (False, True):
        for op in OPS[:-1] if cfg.key in SLOW else OPS:
            yield dict(kind="seq", cfg=cfg.key, np=np_seq, op=op)


def eval_case(c):
    k = c["kind"]
    cfg = KEY.get(c.get("cfg"))
    if k == "snap":
        m = snapshot_case(cfg, c["pos"], c["half"], c["what"])
        return m and f"{cfg.key} at draw {c['pos']}, half {c['half']}: {c['what']}: {m}"
    if k == "arg":
        m = arg_case(cfg, c["i"], c["how"])
        return m and f"{cfg.key} {c['how']} with {array_args(cfg)[c['i']]}: {m}"
    if k == "seq":
        m = seq_case(cfg, c["np"], c["op"])
        return m and f"{cfg.key}: {m}"
    if k == "eg":
        return eg_case(c["i"])
    if k == "misc":
        return misc_case(c["what"])
    if k == "hist":
        return interleave(cfg, c["rel"], [tuple(x) for x in c["hist"]], Solo(cfg, c["rel"]))
    if k == "win":
        return interleave(cfg, c["rel"], windows(cfg, c["rel"], c["n"]), Solo(cfg, c["rel"]))


def run(task):
    res = Res()
    k = task["kind"]
    if k in ("containers", "eg"):
        if k == "eg":
            cs = [dict(kind="eg", i=i) for i in range(len(list(eg_cases())))]
            cs += [dict(kind="misc", what=w) for w in ("squares keys", "seed array")]
        else:
            cs = list(cases(KEY[task["cfg"]], task["tier"]))
        for c in cs:
            m = eval_case(c)
            res.d["traces"] += 1
            res.d["states"] += 1
            res.d["transitions"] += 6
            if m:
                res.bad(c, m, key=f"{c.get('cfg')} {k} {c.get('what') or c.get('how') or c.get('op') or c.get('i')}")
        res.sample(f"{task.get('cfg', 'samplers')}: {len(cs)} handed over containers")
        return res.out()
    cfg, rel = KEY[task["cfg"]], task["rel"]
    ref = Solo(cfg, rel)
    if k == "windows":
        h = windows(cfg, rel, task["n"])
        m = interleave(cfg, rel, h, ref)
        res.d["states"] = res.d["transitions"] = len(h)
        res.d["traces"] = 1
        if m:
            res.bad(dict(kind="win", cfg=cfg.key, rel=rel, n=task["n"]), m,
                    key=f"{cfg.key} {rel} interleaved")
        res.sample(f"{cfg.key} ({rel}): a history of {len(h)} operations with every window "
                   f"of {task['n']}")
        return res.out()
    al = windows(cfg, rel, "pairs")
    if cfg.key in SLOW:
        al = [x for x in al if x[1] not in ("jumped",)]
    for n in range(1, task["n"] + 1):
        if cfg.key in SLOW and n > 2:
            continue
        for h in itertools.product(al, repeat=n):
            m = interleave(cfg, rel, list(h), ref)
            res.d["states"] += 1
            res.d["traces"] += 1
            res.d["transitions"] += n
            if m:
                res.bad(dict(kind="hist", cfg=cfg.key, rel=rel, hist=h), m,
                        key=f"{cfg.key} {rel} new pair")
                if len(res.violations) > 5:
                    return res.out()
    return res.out()


def replay(case):
    m = eval_case(case)
    return [m] if m else []
