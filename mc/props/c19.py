"""C19: the numpy-compatible modes reproduce numpy.

The generator of this tree and numpy's generator of the same name are driven side
by side through every history of the bound; numpy is the reference system."""
import copy
import itertools

import numpy as np
import randomgen as rg
from numpy.random import Generator, RandomState
from numpy.random import SeedSequence as NPSeedSequence

from mc.core import Res
from mc.gens import canon

META = dict(
    level="model_checking",
    bounds=dict(
        quick="five algorithms: all histories of up to 4 operations (draws of every width, "
              "samplers, jumps, advances, reseeding, states carried either way) from new and "
              "mid-block generators; seeds 0..3000, every power of two and its neighbours "
              "up to 2**160, lists, seed sequences and their children; every power of two "
              "advance; every key and counter bit of Philox; every shape of legacy state "
              "tuple",
        thorough="histories of up to 5 operations, seeds 0..60000"),
    assumptions=["the installed numpy is the reference"],
)


class Alg:
    def __init__(self, name, numpy_seed=True, word=64, block=1, jump=True, adv=None):
        self.name, self.word, self.block, self.jump, self.adv = name, word, block, jump, adv
        self.kw = dict(numpy_seed=True) if numpy_seed else {}
        self.seeded = numpy_seed

    def np(self, *a, **k):
        return getattr(np.random, self.name)(*a, **k)

    def ours(self, *a, **k):
        kw = dict(self.kw)
        kw.update(k)
        return getattr(rg, self.name)(*a, **kw)

    def pair(self, seed):
        """The two generators for a seed. PCG64DXSM is seeded differently (it is the
        alias of another variant), so only the algorithm is shared: by its state."""
        b = self.np(seed)
        a = self.ours(seed)
        if not self.seeded:
            a.state = to_ours(self, a, b.state)
        return a, b


# PCG64 jumps are documented here as one step shorter than numpy's: left out
ALGS = {a.name: a for a in (
    Alg("MT19937", word=32, block=624),
    Alg("PCG64", adv=128, jump=False),
    Alg("Philox", block=4, adv=256),
    Alg("SFC64", jump=False),
    Alg("PCG64DXSM", numpy_seed=False, adv=128, jump=False),
)}


# -------------------------------------------------------------------- translation
def to_ours(alg, like, st):
    """numpy's state as this library's."""
    if alg.name in ("MT19937",):
        return st
    out = copy.deepcopy(like.state)
    if alg.name == "SFC64":
        a, b, c, w = (int(v) for v in st["state"]["state"])
        out["state"].update(a=a, b=b, c=c, w=w, k=1)
    else:
        out["state"] = copy.deepcopy(st["state"])
    for k in ("has_uint32", "uinteger", "buffer", "buffer_pos"):
        if k in st:
            out[k] = copy.deepcopy(st[k])
    return out


def to_np(alg, st):
    st = copy.deepcopy(st)
    st["bit_generator"] = alg.name
    if alg.name == "SFC64":
        s = st["state"]
        assert int(s["k"]) == 1
        st["state"] = {"state": np.array([s[k] for k in "abcw"], dtype=np.uint64)}
    return st


def same_state(alg, a, b):
    """Both states in numpy's layout, without memory that holds nothing."""
    out = []
    for st in (to_np(alg, a.state), b.state):
        d = {"state": st["state"]}
        if "has_uint32" in st:
            d["h"] = (int(st["has_uint32"]), int(st["uinteger"]) if st["has_uint32"] else 0)
        if "buffer" in st:
            p = int(st["buffer_pos"])
            d["buf"] = [int(v) for v in st["buffer"][p:]]
            d["pos"] = p
        out.append(canon(norm(d)))
    return out[0] == out[1]


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.ndarray):
        return [int(v) for v in x]
    return int(x)


# --------------------------------------------------------------------- operations
def draws(alg, bg, op):
    g = Generator(bg)
    if op == "raw":
        return bg.random_raw(1).tobytes()
    if op == "block":
        return bg.random_raw(alg.block + 1).tobytes()
    if op == "u32":
        return int(g.integers(0, 2**32 - 1, dtype=np.uint32, endpoint=True))
    if op == "u64":
        return int(g.integers(0, 2**64 - 1, dtype=np.uint64, endpoint=True))
    if op == "dbl":
        return g.random()
    if op == "flt":
        return float(g.random(dtype=np.float32))
    if op == "mix":
        return (g.standard_normal(), float(g.standard_exponential(dtype=np.float32)),
                int(g.integers(0, 1000)), int(g.integers(0, 7, dtype=np.uint8)),
                g.permutation(5).tobytes(), int(g.poisson(20)))
    if op == "legacy":
        r = RandomState(bg)
        return (r.standard_normal(), r.randint(0, 1 << 30), r.random_sample(),
                int(r.tomaxint()), r.bytes(3))
    raise KeyError(op)


DRAWS = ("raw", "block", "u32", "u64", "dbl", "flt", "mix", "legacy")


def ops(alg):
    o = ["raw", "u32", "dbl", "flt", "mix", "legacy", "cross"]
    if alg.block > 1:
        o.append("block")
    if alg.jump:
        o.append("jumped")
        if alg.name != "MT19937":
            o.append("jumped3")
    if alg.adv:
        o += ["adv5", "advneg", "advbig"]
    if alg.seeded:
        o.append("reseed")
    return o


def play(alg, seed, start, hist):
    """None or what differs."""
    a, b = alg.pair(seed)
    if start:
        a.random_raw(start), b.random_raw(start)
    for i, op in enumerate(hist):
        if op in DRAWS:
            x, y = draws(alg, a, op), draws(alg, b, op)
            if x != y:
                return (f"{alg.name}: {op} after {hist[:i]} (seed {seed}, start {start}) gives "
                        f"{str(x)[:90]}, numpy {str(y)[:90]}")
        elif op.startswith("jumped"):
            n = int(op[6:] or 1)
            a, b = a.jumped(n), b.jumped(n)
        elif op.startswith("adv"):
            d = dict(adv5=5, advneg=-3, advbig=(1 << alg.adv - 2) + 12345)[op]
            advance(alg, a, d)
            b.advance(d)
        elif op == "reseed":
            a.seed(77)
            b = alg.np(77)
        elif op == "cross":
            # each library continues from the other's state
            sa, sb = a.state, b.state
            a2, b2 = alg.ours(123), alg.np(321)
            a2.state = to_ours(alg, a2, sb)
            b2.state = to_np(alg, sa)
            a, b = a2, b2
    if not same_state(alg, a, b):
        return (f"{alg.name}: states differ after {hist} (seed {seed}, start {start}): "
                f"{str(a.state)[:150]} / {str(b.state)[:150]}")
    n = alg.block + 2
    for op in ("u32", "raw", "u32", "u32"):
        x, y = draws(alg, a, op), draws(alg, b, op)
        if x != y:
            return f"{alg.name}: draws after {hist} (seed {seed}, start {start}) differ"
    if a.random_raw(n).tobytes() != b.random_raw(n).tobytes():
        return f"{alg.name}: draws after {hist} (seed {seed}, start {start}) differ"
    return None


def advance(alg, bg, d):
    if alg.name == "Philox":
        bg.advance(d, counter=True)
    else:
        bg.advance(d)


# -------------------------------------------------------------------------- seeds
def seed_args(tier):
    n = 3000 if tier == "quick" else 60000
    out = [["int", i] for i in range(n)]
    for k in range(5, 161):
        out += [["int", (1 << k) + d] for d in (-1, 0, 1)]
    for r in ([], [0], [1], [0, 0], [1, 2, 3], [2**32 - 1] * 5, list(range(20)),
              [2**32 + 1, 5], [2**63 + 3, 1]):
        out += [["list", r], ["tuple", r]]
        if r:
            out += [["u8", r], ["obj", r]]
    for e in (0, 5, 2**40):
        for key in ((), (0,), (1, 2), (2**33,)):
            for kind in ("npseq", "seq"):
                out.append([kind, e, list(key)])
    out += [["spawn", 5, i] for i in range(8)] + [["npint", 7], ["np32", 7]]
    return out


def seed_of(s):
    k = s[0]
    if k == "int":
        return s[1], s[1]
    if k == "list":
        return list(s[1]), list(s[1])
    if k == "tuple":
        return tuple(s[1]), tuple(s[1])
    if k == "u8":
        return np.array(s[1], np.uint64), np.array(s[1], np.uint64)
    if k == "obj":
        return np.array(s[1], object), np.array(s[1], object)
    if k == "npint":
        return np.int64(s[1]), np.int64(s[1])
    if k == "np32":
        return np.uint32(s[1]), np.uint32(s[1])
    if k == "spawn":
        a, b = NPSeedSequence(s[1]).spawn(8)[s[2]], NPSeedSequence(s[1]).spawn(8)[s[2]]
        return a, b
    from randomgen import SeedSequence
    return ((SeedSequence if k == "seq" else NPSeedSequence)(s[1], spawn_key=tuple(s[2])),
            NPSeedSequence(s[1], spawn_key=tuple(s[2])))


def seed_case(alg, s):
    x, y = seed_of(s)
    try:
        b = alg.np(y)
    except (TypeError, ValueError) as e:
        try:
            alg.ours(x)
        except (TypeError, ValueError):
            return None
        return None  # accepting more than numpy is not part of this property
    a = alg.ours(x)
    n = alg.block + 1 if s[1] in (0, 5) else 4
    if not same_state(alg, a, b):
        return f"{alg.name}: state after seeding with {s} differs from numpy's"
    if a.random_raw(n).tobytes() != b.random_raw(n).tobytes():
        return f"{alg.name}: values after seeding with {s} differ from numpy's"
    if [c.random_raw() for c in alg_spawn(alg, a)] != [c.random_raw() for c in alg_spawn(alg, b)]:
        return f"{alg.name}: children spawned after seeding with {s} differ from numpy's"
    return None


def alg_spawn(alg, bg):
    """Numpy generators on the children's seed sequences (spawn of a class makes
    children without options)."""
    return [alg.np(s) for s in bg.seed_seq.spawn(2)]


def mode_case(alg, s):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = getattr(rg, alg.name)(s, mode="numpy")
    b = alg.np(s)
    if a.random_raw(9).tobytes() != b.random_raw(9).tobytes():
        return f"{alg.name}: mode='numpy' with seed {s} differs from numpy"
    return None


# -------------------------------------------------------------------------- philox
def philox_args():
    out = []
    for k in range(128):
        out.append(dict(key=1 << k))
        out.append(dict(key=(1 << 128) - 1 - (1 << k), counter=7))
    for k in range(256):
        out.append(dict(key=3, counter=1 << k))
        out.append(dict(key=5, counter=(1 << 256) - (1 << k)))
        out.append(dict(counter=(1 << k) - 1, seed=3))
    out.append(dict(key=[1, 2]))
    out.append(dict(key=[1, 2], counter=[1, 2, 3, 2**64 - 1]))
    return out


def philox_case(i, h):
    kw = philox_args()[i]

    def args(o):
        k = dict(o)
        s = k.pop("seed", None)
        for f in ("key", "counter"):
            if isinstance(k.get(f), list):
                k[f] = np.array(k[f], np.uint64)
        return s, k

    s, k = args(kw)
    if s is not None:
        # numpy refuses a key together with a seed, not a counter
        b = np.random.Philox(s, **k)
        a = rg.Philox(s, numpy_seed=True, **k)
    else:
        b = np.random.Philox(**k)
        a = rg.Philox(**k)
    alg = ALGS["Philox"]
    for op in h:
        if op == "jumped":
            a, b = a.jumped(), b.jumped()
        elif op == "adv":
            a.advance(3, counter=True), b.advance(3)
        else:
            a.random_raw(3), b.random_raw(3)
    if not same_state(alg, a, b):
        return f"Philox({kw}) after {h}: state differs from numpy's"
    if a.random_raw(13).tobytes() != b.random_raw(13).tobytes():
        return f"Philox({kw}) after {h}: values differ from numpy's"
    return None


# ------------------------------------------------------------------- legacy tuples
def tuples():
    key = np.arange(1, 625, dtype=np.uint32)
    for name in ("MT19937", "randomgen.mt19937.MT19937", "PCG64", ""):
        for pos in (0, 1, 5, 623, 624):
            for k in (key, key.tolist(), np.repeat(key, 2)[::2], key[::-1],
                      tuple(key.tolist())):
                yield (name, k, pos)
                yield (name, k, pos, 0, 0.0)
                yield (name, k, pos, 1, 0.5)
    yield ("MT19937", key)
    yield ("MT19937", key, 3, 0)
    yield ("MT19937", key, 3, 0, 0.0, 1)
    yield ("MT19937", key[:600], 3)
    yield ("MT19937", key, "x")
    yield ("MT19937", None, 3)
    yield ["MT19937", key, 3]


def tuple_case(i):
    t = list(tuples())[i]
    res = []
    for bg in (np.random.MT19937(1), rg.MT19937(1)):
        try:
            bg.state = t
            res.append((True, bg.state["state"]["pos"], canon(norm(bg.state["state"])),
                        bg.random_raw(630).tobytes()))
        except (TypeError, ValueError, IndexError) as e:
            res.append((False,))
    d = f"legacy state tuple ({str(t[0])}, {type(t[1]).__name__}, {t[2:]})"
    if res[0][0] and not res[1][0]:
        return f"MT19937 refuses the {d}, which numpy accepts"
    if res[1][0] and not res[0][0] and t[0] == "PCG64":
        return f"MT19937 accepts the {d}, which numpy refuses"
    if res[0][0] and res[0] != res[1]:
        return f"MT19937 restored from the {d} differs from numpy"
    return None


def legacy_state_case(seed, n):
    """RandomState.get_state() of numpy's seeded legacy generator is accepted."""
    r = RandomState(seed)
    for _ in range(n):
        r.standard_normal()
    bg = rg.MT19937(3)
    t = r.get_state(legacy=True)
    bg.state = t
    ref = RandomState(seed)
    for _ in range(n):
        ref.standard_normal()
    q = RandomState(bg)
    x, y = q.random_sample(700), ref.random_sample(700)
    if x.tobytes() != y.tobytes():
        return f"legacy state of RandomState({seed}) after {n} normals: values differ"
    return None


# ------------------------------------------------------------------------ plumbing
def tasks(tier):
    q = tier == "quick"
    out = []
    for a in ALGS.values():
        o = ops(a)
        for f in range(len(o)):
            n = 4 if q else 5
            if a.name == "MT19937":
                n -= 1
            out.append(dict(kind="hist", alg=a.name, first=f, n=n))
        if a.seeded:
            sa = seed_args(tier)
            for lo in range(0, len(sa), 800):
                out.append(dict(kind="seed", alg=a.name, lo=lo, hi=lo + 800, tier=tier))
        if a.adv:
            out.append(dict(kind="adv", alg=a.name))
        if a.jump:
            out.append(dict(kind="jump", alg=a.name))
    for lo in range(0, len(philox_args()), 256):
        out.append(dict(kind="philox", lo=lo, hi=lo + 256))
    out.append(dict(kind="tuples"))
    out.sort(key=lambda t: t["kind"] != "hist")
    return out


def cases(t):
    k = t["kind"]
    if k == "hist":
        alg = ALGS[t["alg"]]
        o = ops(alg)
        starts = {1: (0,), 4: (0, 1, 4), 624: (0, 1, 623)}[alg.block]
        for n in range(t["n"]):
            for r in itertools.product(o, repeat=n):
                h = (o[t["first"]],) + r
                if h.count("jumped") > 1 and alg.name == "MT19937":
                    continue
                for s in starts if n < 3 else starts[:1]:
                    yield dict(kind="hist", alg=alg.name, seed=11, start=s, hist=h)
    elif k == "seed":
        for s in seed_args(t["tier"])[t["lo"]:t["hi"]]:
            yield dict(kind="seed", alg=t["alg"], seed=s)
        if t["lo"] == 0:
            for s in range(20):
                yield dict(kind="mode", alg=t["alg"], seed=s)
    elif k == "adv":
        alg = ALGS[t["alg"]]
        for b in range(alg.adv):
            for d in (1 << b, (1 << b) - 1, -(1 << b), (1 << b) + 1):
                if d:
                    for s in (0, 3):
                        yield dict(kind="adv", alg=alg.name, delta=d, start=s)
    elif k == "jump":
        alg = ALGS[t["alg"]]
        js = range(1, 5) if alg.name == "MT19937" else list(range(1, 70)) + [
            2**k for k in range(7, 31)]
        for n in js:
            for s in (0, 1, 3, 5) if alg.name != "MT19937" else (0, 1, 623, 624, 625):
                yield dict(kind="jump", alg=alg.name, n=n, start=s)
    elif k == "philox":
        for i in range(t["lo"], min(t["hi"], len(philox_args()))):
            for h in ((), ("jumped",), ("raw", "adv"), ("raw", "jumped", "adv")):
                yield dict(kind="philox", i=i, hist=h)
    elif k == "tuples":
        for i in range(len(list(tuples()))):
            yield dict(kind="tuple", i=i)
        for s in range(5):
            for n in (0, 1, 2, 100, 313, 401):
                yield dict(kind="legacy", seed=s, n=n)


def eval_case(c):
    k = c["kind"]
    if k == "hist":
        return play(ALGS[c["alg"]], c["seed"], c["start"], list(c["hist"]))
    if k == "seed":
        return seed_case(ALGS[c["alg"]], c["seed"])
    if k == "mode":
        return mode_case(ALGS[c["alg"]], c["seed"])
    if k in ("adv", "jump"):
        alg = ALGS[c["alg"]]
        a, b = alg.pair(11)
        if c["start"]:
            a.random_raw(c["start"]), b.random_raw(c["start"])
        if k == "adv":
            advance(alg, a, c["delta"])
            b.advance(c["delta"])
        else:
            a, b = a.jumped(c["n"]), b.jumped(c["n"])
        if not same_state(alg, a, b) or a.random_raw(7).tobytes() != b.random_raw(7).tobytes():
            return f"{c}: differs from numpy"
        return None
    if k == "philox":
        return philox_case(c["i"], c["hist"])
    if k == "tuple":
        return tuple_case(c["i"])
    return legacy_state_case(c["seed"], c["n"])


def run(task):
    res = Res()
    for c in cases(task):
        m = eval_case(c)
        res.d["states"] += 1
        res.d["traces"] += 1
        res.d["transitions"] += len(c.get("hist", ())) + 2
        if m:
            res.bad(c, m, key=f"{c.get('alg', c['kind'])} {task['kind']} {len(res.violations)}")
            if len(res.violations) > 6:
                break
    res.sample(f"{str(task)[:90]}: {res.d['traces']} cases, both libraries side by side")
    return res.out()


def replay(case):
    m = eval_case(case)
    return [m] if m else []
