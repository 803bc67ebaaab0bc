"""C08: construction and reseeding depend only on their arguments."""
import itertools

import numpy as np
from numpy.random import SeedSequence as NPSeedSequence

import randomgen as rg
from randomgen import SeedSequence

from mc import refs
from mc.core import Res
from mc.gens import BYKEY, CONFIGS, Box, Cfg

META = dict(
    level="model_checking",
    bounds=dict(
        quick="all histories of up to 2 operations (draws, pending halves, advances, "
              "in-place jumps, states of other variants, reseeds of another kind) x every "
              "kind of seeding argument; every single-bit key, counter and increment; "
              "seeds 0..1500 and every power of two and its neighbours",
        thorough="histories of up to 4 operations (3 for the large and slow generators); keys and counters with every pair of "
                 "bits set in steps; seeds 0..20000"),
    assumptions=["two streams that agree in 6 words and have equal states are the same"],
)
M64 = (1 << 64) - 1
NOJUMP = ("PCG64DXSM", "LCG128Mix", "Squares")
SLOWJUMP = ("mt19937", "dsfmt", "sfmt")
NUMPY = [Cfg("np-mt19937", "MT19937", dict(numpy_seed=True), dec="w32", dbl="mt", block=624),
         Cfg("np-pcg64", "PCG64", dict(numpy_seed=True), adv=dict(unit=1, bits=128)),
         Cfg("np-philox", "Philox", dict(numpy_seed=True), block=4,
             adv=dict(unit=1, bits=258, kw=dict(counter=False))),
         Cfg("np-sfc64", "SFC64", dict(numpy_seed=True))]
ALL = CONFIGS + NUMPY
KEY = dict(BYKEY)
KEY.update({c.key: c for c in NUMPY})


def key_bits(cfg):
    """(key bits, counter bits) of a class that takes them, or None."""
    c, k = cfg.cls, cfg.kw
    if c == "AESCounter":
        return 128, 128
    if c in ("ChaCha", "SPECK128"):
        return 256, 128
    if c == "HC128":
        return 256, None
    if c in ("Philox", "ThreeFry"):
        n, w = k.get("number", 4), k.get("width", 64)
        return (n * w if c == "ThreeFry" else n // 2 * w), n * w
    if c == "Squares":
        return 64, 64
    return None


def inc_bits(cfg):
    if "numpy_seed" in cfg.kw:
        return None
    return {"PCG32": 64, "PCG64": 128, "PCG64DXSM": 128, "LCG128Mix": 128}.get(cfg.cls)


PAT = 0x0F1E2D3C4B5A69788796A5B4C3D2E1F00123456789ABCDEF1032547698BADCFE


def arguments(cfg):
    """JSON-able seeding arguments of every kind."""
    a = [dict(seed=s) for s in (0, 1, 5, 2**32 - 1, 2**32, 2**64 - 1, 2**128 + 7)]
    a += [dict(seed=["list", 1, 2, 3]), dict(seed=["arr", 7, 0, 2**32 - 1]),
          dict(seed=["seq", 5]), dict(seed=["seq", 5, 1, 2]), dict(seed=["npseq", 9, 3])]
    kb = key_bits(cfg)
    if kb:
        odd = 1 if cfg.cls == "Squares" else 0
        keys = [odd, (1 << kb[0]) - 1, PAT % (1 << kb[0]) | odd]
        if kb[1]:
            ctrs = [None, 0, 1, (1 << kb[1]) - 1, (1 << kb[1] // 2) - 2, PAT % (1 << kb[1])]
            a += [dict(seed=3, counter=c) for c in ctrs if c is not None]
            a += [dict(key=k, counter=c) for k in keys for c in ctrs
                  if k == keys[2] or c in (None, ctrs[5])]
        else:
            a += [dict(key=k) for k in keys]
    ib = inc_bits(cfg)
    if ib:
        a += [dict(seed=3, inc=i) for i in (0, 1, (1 << ib) - 1, PAT % (1 << ib))]
    if cfg.cls == "Tyche":
        a += [dict(seed=3, idx=i) for i in (0, 1, 2**32 - 1, 0x89ABCDEF)]
    return a


def real(v):
    if isinstance(v, list):
        k, r = v[0], v[1:]
        if k == "list":
            return list(r)
        if k == "arr":
            return np.array(r, dtype=np.uint64)
        if k == "seq":
            return SeedSequence(r[0], spawn_key=tuple(r[1:]))
        return NPSeedSequence(r[0], spawn_key=tuple(r[1:]))
    return v


def new(cfg, arg):
    kw = dict(cfg.kw)
    kw.update({k: real(v) for k, v in arg.items()})
    seed = kw.pop("seed", None)
    return getattr(rg, cfg.cls)(seed, **kw)


def reseed(bg, arg):
    kw = {k: real(v) for k, v in arg.items()}
    if cfgname(bg) in ("Squares", "Tyche"):
        seed = kw.pop("seed", None)
        bg.seed(seed, **kw)
    else:
        bg.seed(**kw)


def cfgname(bg):
    return type(bg).__name__


TAIL = [("u32", 0), ("u32", 0), ("raw", 1), ("u32", 0), ("raw", 1), ("u32", 0),
        ("dbl", 0)]


def obs(cfg, bg):
    """What can be told about a generator: semantic state, then draws."""
    st = bg.state
    f = refs.CLASS[cfg.cls].of(st)
    h = (st.get("has_uint32"), st.get("uinteger") if st.get("has_uint32") else 0)
    box = Box(bg)
    ent = bg.seed_seq.entropy if isinstance(getattr(bg, "seed_seq", None),
                                            (SeedSequence, NPSeedSequence)) else None
    tail = TAIL + [("raw", 2 * cfg.block // cfg.raw_words + 1)]
    return f, h, [box.do(cfg, t) for t in tail], str(ent)


def ops(cfg, arg):
    b = cfg.block // cfg.raw_words
    o = [["raw", 1], ["u32", 0], ["raw", b + 1], ["raw", b]]
    if cfg.adv:
        o.append(["adv", 3])
    if cfg.has_jump and cfg.cls not in NOJUMP and cfg.key not in SLOWJUMP:
        o.append(["jin", 1])
    o.append(["seed", 77])
    kb = key_bits(cfg)
    if kb:
        o.append(["key", 9])
    for c in CONFIGS:
        if c.cls == cfg.cls and c.key != cfg.key and "numpy_seed" not in cfg.kw:
            o.append(["other", c.key])
    if "numpy_seed" not in cfg.kw and cfg.cls != "SFC64":
        # (numpy_seed and SFC64's w and k are not part of the state)
        o.append(["pickle", 0])
    return o


def dirty(cfg, hist):
    """A generator with a history, and the config it now has."""
    import pickle
    box = Box(cfg.make(42))
    cur = cfg
    for op in hist:
        if op[0] == "key":
            box.bg.seed(key=op[1])
        elif op[0] == "other":
            c = BYKEY[op[1]]
            o = Box(c.make(83))
            o.do(c, ("u32", 0))
            o.bg.random_raw(max(1, c.block // c.raw_words // 2))
            box.bg.state = o.bg.state
            cur = c
        elif op[0] == "pickle":
            box = Box(pickle.loads(pickle.dumps(box.bg)))
        else:
            box.do(cur, tuple(op))
    return box.bg, cur


def fits(cfg, arg):
    kb = key_bits(cfg)
    for k, i in (("key", 0), ("counter", 1)):
        if arg.get(k) is not None and arg[k] >> (kb[i] or 0):
            return False
    return True


def target(cfg, cur):
    """What decides the meaning of seeds: most variants travel in the state, SFC64's
    (w, k) are constructor arguments only."""
    return cfg if cfg.cls == "SFC64" else cur


def one(cfg, hist, arg):
    bg, cur = dirty(cfg, hist)
    cur = target(cfg, cur)
    reseed(bg, arg)
    got = obs(cur, bg)
    want = obs(cur, new(cur, arg))
    if "seed" not in arg:
        got, want = got[:3], want[:3]
    if got == want:
        return None
    i = [a == b for a, b in zip(got, want)].index(False)
    return (f"{cfg.key}: after {hist}, seeded again with {arg}: "
            f"{('state', 'pending half', 'draws', 'seed sequence')[i]} "
            f"{str(got[i])[:200]} instead of {str(want[i])[:200]}")


def exact(cfg, key, counter):
    """None or how a generator made with this key and counter does not use them."""
    kw = dict(cfg.kw)
    if counter is not None:
        kw["counter"] = counter
    bg = getattr(rg, cfg.cls)(key=key, **kw)
    s = bg.state
    f = refs.CLASS[cfg.cls].of(s)
    c = counter or 0
    kb = key_bits(cfg)
    if cfg.cls == "AESCounter":
        want = (tuple((c + i) & refs.M128 for i in range(4)),
                bytes(refs.aes_expand(key.to_bytes(16, "little"))))
        got = f[:2]
    elif cfg.cls == "ChaCha":
        want = (c, tuple(key >> (32 * i) & refs.M32 for i in range(8)), cfg.kw["rounds"])
        got = f[:3]
    elif cfg.cls == "HC128":
        want, got = hc128_init(key), f
        got = got[:4]
    elif cfg.cls == "SPECK128":
        want = (tuple((c + i) & refs.M128 for i in range(6)),
                tuple(refs.speck_expand([key >> (64 * i) & M64 for i in range(4)])),
                96, cfg.kw.get("rounds", 34))
        got = f[:4]
        n = min(len(got[1]), len(want[1]))
        r = want[3]
        if n < r:
            return f"only {n} round keys"
        got = (got[0], got[1][:r]) + got[2:]
        want = (want[0], want[1][:r]) + want[2:]
    elif cfg.cls == "Squares":
        want, got = (key, c, cfg.kw.get("variant", 64)), f
    else:
        n, w = cfg.kw.get("number", 4), cfg.kw.get("width", 64)
        m = (1 << w) - 1
        want = (n, w, tuple(c >> (w * i) & m for i in range(n)),
                tuple(key >> (w * i) & m for i in range(kb[0] // w)), n)
        got = f[:5]
    if got != want:
        return f"{cfg.key}: key={key:#x} counter={counter}: state {got} instead of {want}"
    # and what comes out is computed from them
    r = refs.CLASS[cfg.cls]()
    r.load(s)
    n = cfg.block // cfg.raw_words + 1
    o = bg.random_raw(n).tolist()
    w = [r.raw() for _ in range(n)]
    if o != w:
        return f"{cfg.key}: key={key:#x} counter={counter}: draws {o[:3]} instead of {w[:3]}"
    return None


def hc128_init(key):
    """Key and IV setup of the HC-128 specification."""
    M = refs.M32
    k = [key >> (32 * i) & M for i in range(8)]
    W = k[:4] * 2 + k[4:] * 2

    def f1(x):
        return refs.rl32(x, 25) ^ refs.rl32(x, 14) ^ x >> 3

    def f2(x):
        return refs.rl32(x, 15) ^ refs.rl32(x, 13) ^ x >> 10

    for i in range(16, 1280):
        W.append(f2(W[i - 2]) + W[i - 7] + f1(W[i - 15]) + W[i - 16] + i & M)
    r = refs.HC128()
    r.p, r.q, r.i = W[256:768], W[768:1280], 0
    for i in range(1024):
        t = r.p if i < 512 else r.q
        t[i % 512] = r.step()
    return tuple(r.p), tuple(r.q), 0, 0


def exact_values(cfg, tier):
    kb, cb = key_bits(cfg)
    odd = 1 if cfg.cls == "Squares" else 0
    st = 1 if cfg.cls != "HC128" or tier == "thorough" else 5
    keys = [1 << i | odd for i in range(0, kb, st)]
    keys += [((1 << kb) - 1 ^ 1 << i) | odd for i in range(0, kb, st)]
    keys += [odd, (1 << kb) - 1, PAT % (1 << kb) | odd]
    out = [(k, None) for k in keys]
    base = PAT % (1 << kb) | odd
    if cb:
        out += [(base, c) for c in
                [0, 1, 2, 3, 5, 15, 16, 17, 31] + [1 << i for i in range(cb)]
                + [(1 << i) - 1 for i in range(cb + 1)] + [(1 << cb) - 2, (1 << cb) - 3]]
    if tier == "thorough":
        out += [(1 << i | 1 << j | odd, (1 << (i + j) % (cb or 1)) if cb else None)
                for i in range(0, kb, 3) for j in range(i)] if cfg.cls != "HC128" else []
    return list(dict.fromkeys(out))


def seeds(cfg, tier):
    n = 1500 if tier == "quick" else 20000
    if cfg.block > 200 or cfg.cls in ("Squares", "EFIIX64", "HC128"):
        n //= 5
    s = list(range(n)) + [1 << k for k in range(11, 260)] + [(1 << k) - 1 for k in range(11, 260)]
    return list(dict.fromkeys(s))


def stream(cfg, arg):
    bg = new(cfg, arg)
    return tuple(bg.random_raw(6).tolist())


def tasks(tier):
    out = []
    depth = 2 if tier == "quick" else 4
    for c in ALL:
        o = ops(c, None)
        d = depth - (c.block > 200 or c.cls == "Squares")
        out.append(dict(cfg=c.key, kind="hist", first=-1, depth=0))
        for f in range(len(o)):
            out.append(dict(cfg=c.key, kind="hist", first=f, depth=d))
        out.append(dict(cfg=c.key, kind="seeds", tier=tier))
        if key_bits(c):
            out.append(dict(cfg=c.key, kind="exact", tier=tier))
        if inc_bits(c) or c.cls == "Tyche":
            out.append(dict(cfg=c.key, kind="inc", tier=tier))
    out.sort(key=lambda t: {"exact": 0, "seeds": 1, "inc": 2, "hist": 3}[t["kind"]])
    return out


def inc_case(cfg, seed, inc):
    """An increment or index given is the one in use."""
    ib = inc_bits(cfg)
    name = "inc" if ib else "idx"
    a = new(cfg, dict([("seed", seed), (name, inc)]))
    if not ib:
        # Tyche: idx enters word c of the state before the 20 initial rounds
        s = SeedSequence(seed).generate_state(3, np.uint32).tolist()
        r = refs.Tyche()
        r.load(a.state)
        got = r.fields()
        w = tyche_init(r, s[0] | s[1] << 32, inc)
        return None if got == w else f"{cfg.key}: seed {seed} idx={inc}: {got} is not {w}"
    got = int(a.state["state"]["inc"])
    want = (inc << 1 | 1) & ((1 << ib) - 1)
    if got != want:
        return f"{cfg.key}: seed {seed} inc={inc} gives increment {got}, not {want}"
    return None


def tyche_init(r, seed, idx):
    r.v = [seed >> 32, seed & refs.M32, 2654435769, 1367130551 ^ idx]
    for _ in range(20):
        r.n32()
    return r.fields()


def run(task):
    res = Res()
    cfg = KEY[task["cfg"]]
    k = task["kind"]
    if k == "hist":
        o = ops(cfg, None)
        if task["first"] < 0:
            hs = [()]
            if cfg.key in SLOWJUMP:
                hs.append((["jin", 1],))
        else:
            f = o[task["first"]]
            hs = [(f,) + r for n in range(task["depth"])
                  for r in itertools.product(o, repeat=n)]
        cache = {}
        for h in hs:
            for ai, arg in enumerate(arguments(cfg)):
                bg, cur = dirty(cfg, h)
                cur = target(cfg, cur)
                if not fits(cur, arg):
                    continue
                reseed(bg, arg)
                got = obs(cur, bg)
                kk = (cur.key, ai)
                if kk not in cache:
                    cache[kk] = obs(cur, new(cur, arg))
                want = cache[kk]
                if "seed" not in arg:
                    got, want = got[:3], want[:3]
                res.d["traces"] += 1
                res.d["transitions"] += len(h) + 1
                if got != want:
                    res.bad(dict(kind="hist", cfg=cfg.key, hist=h, arg=arg),
                            one(cfg, h, arg) or "differs", key=f"{cfg.key} hist {h[-1:]} {sorted(arg)}")
            res.d["states"] += 1
            if len(res.violations) > 10:
                break
        res.sample(f"{cfg.key}: {len(hs)} histories x {len(arguments(cfg))} arguments")
    elif k == "exact":
        for key, ctr in exact_values(cfg, task["tier"]):
            m = exact(cfg, key, ctr)
            res.d["states"] += 1
            res.d["traces"] += 1
            res.d["transitions"] += cfg.block
            if m:
                res.bad(dict(kind="exact", cfg=cfg.key, key=key, ctr=ctr), m,
                        key=f"{cfg.key} exact {len(res.violations)}")
        res.sample(f"{cfg.key}: {res.d['states']} keys and counters")
    elif k == "inc":
        ib = inc_bits(cfg) or 32
        vals = [0, (1 << ib) - 1] + [1 << i for i in range(ib)]
        vals += [(1 << ib) - 1 ^ 1 << i for i in range(ib)]
        seen = {}
        for v in vals:
            for seed in (0, 3, 2**64 + 1):
                m = inc_case(cfg, seed, v)
                res.d["states"] += 1
                res.d["traces"] += 1
                res.d["transitions"] += 1
                if m:
                    res.bad(dict(kind="inc", cfg=cfg.key, seed=seed, inc=v), m,
                            key=f"{cfg.key} inc {len(res.violations)}")
    else:
        seen = {}
        for s in seeds(cfg, task["tier"]):
            v = stream(cfg, dict(seed=s))
            res.d["states"] += 1
            res.d["traces"] += 1
            res.d["transitions"] += 6
            if v in seen:
                res.bad(dict(kind="same", cfg=cfg.key, a=seen[v], b=s),
                        f"{cfg.key}: seeds {seen[v]} and {s} give the same stream",
                        key=f"{cfg.key} same {len(res.violations)}")
            seen[v] = s
        for s in list(seen.values())[::7]:
            if stream(cfg, dict(seed=s)) not in seen:
                res.bad(dict(kind="again", cfg=cfg.key, a=s),
                        f"{cfg.key}: seed {s} gives different streams", key=f"{cfg.key} again")
    return res.out()


def replay(case):
    cfg = KEY[case["cfg"]]
    k = case["kind"]
    if k == "hist":
        m = one(cfg, [list(x) for x in case["hist"]], case["arg"])
    elif k == "exact":
        m = exact(cfg, case["key"], case["ctr"])
    elif k == "inc":
        m = inc_case(cfg, case["seed"], case["inc"])
    elif k == "same":
        m = (f"{cfg.key}: seeds {case['a']} and {case['b']} give the same stream"
             if stream(cfg, dict(seed=case["a"])) == stream(cfg, dict(seed=case["b"])) else None)
    else:
        m = (f"{cfg.key}: seed {case['a']} gives different streams"
             if stream(cfg, dict(seed=case["a"])) != stream(cfg, dict(seed=case["a"])) else None)
    return [m] if m else []
