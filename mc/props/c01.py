"""C01: a saved state, restored anywhere, continues the stream exactly."""
import copy
import itertools
import json
import pickle

import numpy as np

import randomgen as rg
from randomgen import ExtendedGenerator

from mc.core import Res
from mc.gens import BYKEY, CONFIGS, Box, canon

META = dict(
    level="model_checking",
    bounds=dict(
        quick="all op histories of length <= 3 (cheap ops), every restore target",
        thorough="all op histories of length <= 4, every restore target"),
    assumptions=["the stream after a history without any state access is the oracle"],
)
SLOWJUMP = ("mt19937", "dsfmt", "sfmt")


def ops(cfg):
    b = cfg.block // cfg.raw_words
    o = [("raw", 1), ("u32", 0), ("dbl", 0), ("raw", b - 1 if b > 2 else 2),
         ("u32", 3), ("seed", 5)]
    if cfg.adv:
        o.append(("adv", 3))
    if cfg.has_jump and cfg.key not in SLOWJUMP:
        o.append(("jmp", 1))
    return o


def conts(cfg):
    b = 2 * cfg.block + 3
    k = [[("u32", 0), ("u32", 0), ("raw", 1), ("dbl", 0), ("flt", 0), ("u64", 0),
          ("u32", 3), ("raw", b), ("u32", 0)],
         [("raw", 1), ("u32", 0)],
         [("dbl", 2), ("u32", 2)]]
    if cfg.adv:
        k.append([("adv", 2), ("u32", 0), ("raw", 1)])
        k.append([("u32", 0), ("adv", 1), ("u32", 0), ("raw", 1)])
    if cfg.has_jump and cfg.key not in SLOWJUMP:
        k.append([("jmp", 2), ("u32", 0), ("raw", 1)])
    return k


def go(box, cfg, seq):
    return [box.do(cfg, o) for o in seq]


def lists(s):
    if isinstance(s, dict):
        return {k: lists(v) for k, v in s.items()}
    return s.tolist() if isinstance(s, np.ndarray) else s


def strided(s):
    if isinstance(s, dict):
        return {k: strided(v) for k, v in s.items()}
    if isinstance(s, np.ndarray):
        t = np.full(2 * s.shape[0] + 1, 0xA5, dtype=s.dtype)
        t[1::2][: s.shape[0]] = s
        return t[1::2]
    return s


def others(cfg):
    return [c for c in CONFIGS if c.cls == cfg.cls and c.key != cfg.key]


TARGETS = ["fresh", "dirty", "shortname", "pickle", "copy", "deepcopy", "eg-pickle",
           "eg-copy", "eg-deepcopy", "eg-state", "eg-setstate", "lists", "strided",
           "ctypes"]


def restore(cfg, box, s, how):
    """A Box that should continue from the state s of box."""
    if how == "fresh":
        n = Box(cfg.make(77))
        n.bg.state = s
    elif how == "dirty":
        n = Box(cfg.make(99))
        n.do(cfg, ("u32", 0))
        n.do(cfg, ("raw", max(1, cfg.block // cfg.raw_words // 2)))
        n.do(cfg, ("u32", 2))
        n.bg.state = s
    elif how == "shortname":
        t = dict(s)
        t["bit_generator"] = cfg.cls
        n = Box(cfg.make(78))
        n.bg.state = t
    elif how == "pickle":
        n = Box(pickle.loads(pickle.dumps(box.bg)))
    elif how == "copy":
        n = Box(copy.copy(box.bg))
    elif how == "deepcopy":
        n = Box(copy.deepcopy(box.bg))
    elif how.startswith("eg-"):
        if how == "eg-pickle":
            e = pickle.loads(pickle.dumps(box.eg))
        elif how == "eg-copy":
            e = copy.copy(box.eg)
        elif how == "eg-deepcopy":
            e = copy.deepcopy(box.eg)
        else:
            e = ExtendedGenerator(cfg.make(79))
            e.uintegers(bits=32)
            if how == "eg-state":
                e.state = s
            else:
                e.__setstate__(s)
        n = Box.__new__(Box)
        n.bg, n.eg = e.bit_generator, e
    elif how == "lists":
        n = Box(cfg.make(80))
        n.bg.state = lists(s)
    elif how == "strided":
        n = Box(cfg.make(81))
        n.bg.state = strided(s)
    elif how == "ctypes":
        n = Box(cfg.make(82))
        n.bg.ctypes.next_uint32(n.bg.ctypes.state)
        n.bg.state = s
    elif how == "rewind":
        n = box
        n.bg.state = s
    elif how.startswith("other:"):
        c = BYKEY[how[6:]]
        n = Box(c.make(83))
        n.do(c, ("u32", 0))
        n.bg.state = s
    else:
        raise KeyError(how)
    return n


def one(cfg, hist, how, cont, seed=1):
    """None, or what differs."""
    ref = Box(cfg.make(seed))
    go(ref, cfg, hist)
    want = go(ref, cfg, cont)
    o = Box(cfg.make(seed))
    go(o, cfg, hist)
    s = o.bg.state
    before = canon(s)
    n = restore(cfg, o, s, how)
    if canon(s) != before:
        return "restoring changed the saved state"
    if canon(n.bg.state) != before:
        return "the restored generator reports another state"
    got = go(n, cfg, cont)
    if got != want:
        return f"continuation {cont} gave {str(got)[:200]} instead of {str(want)[:200]}"
    return None


def tasks(tier):
    depth = 3 if tier == "quick" else 4
    out = []
    for c in CONFIGS:
        heavy = c.block > 200
        d = depth - 1 if heavy else depth
        for f in range(len(ops(c))):
            out.append(dict(cfg=c.key, first=f, depth=d))
    for c in CONFIGS:
        out.append(dict(cfg=c.key, first=-1, depth=1 if c.key in SLOWJUMP else 0))
    for c in CONFIGS:
        out.append(dict(cfg=c.key, sweep=2 if tier == "quick" else 6, depth=9))
        out.append(dict(cfg=c.key, boundary=tier, depth=8))
    out.sort(key=lambda t: -t["depth"])
    return out


def first_diff(cfg, a, b, n):
    """Two generators that should be in the same state."""
    if canon(a.state) != canon(b.state):
        return "the restored generator reports another state"
    if a.random_raw(n).tolist() != b.random_raw(n).tolist():
        return f"the next {n} raw values differ"
    x, y = ExtendedGenerator(a), ExtendedGenerator(b)
    for k in (1, 2):
        if x.uintegers(bits=32) != y.uintegers(bits=32):
            return "a later 32-bit value differs"
    return None


def sweep_one(cfg, pos, half, how, n):
    ref, o = cfg.make(1), cfg.make(1)
    for g in (ref, o):
        g.random_raw(pos)
        if half:
            ExtendedGenerator(g).uintegers(bits=32)
    box = Box(o)
    return first_diff(cfg, ref, restore(cfg, box, o.state, how).bg, n)


def sweep(task, res):
    """Every position of the generator's bookkeeping cycle, from a running
    original: restored, it continues across at least one refill; a quarter of the
    positions continue across a whole cycle."""
    cfg = BYKEY[task["cfg"]]
    P, B = cfg.phase, cfg.block // cfg.raw_words + 3
    t, o = cfg.make(3), cfg.make(1)
    m = cfg.make(1)
    total = task["sweep"] * P + 2
    words = m.random_raw(total + 2 * P + B + 8).tolist()
    for pos in range(total):
        s = o.state
        t.state = s
        n = (2 * P + 3) if pos % max(4, P // 8) == 0 else B
        bad = None
        if canon(t.state) != canon(s):
            bad = "the restored generator reports another state"
        elif t.random_raw(n).tolist() != words[pos:pos + n]:
            bad = f"the next {n} raw values differ"
        res.d["states"] += 1
        res.d["traces"] += 1
        res.d["transitions"] += n
        if bad:
            res.bad(dict(kind="sweep", cfg=cfg.key, pos=pos, half=False, how="fresh",
                         n=n), f"{cfg.key}: restored after {pos} raw draws: {bad}",
                    key=f"{cfg.key} sweep {bad[:20]}")
        if o.random_raw() != words[pos]:
            res.bad(dict(kind="sweep", cfg=cfg.key, pos=pos, half=False, how="fresh",
                         n=n), f"{cfg.key}: reading the state changed the stream",
                    key=f"{cfg.key} sweep read")
            return
    for pos in range(0, total, max(1, total // 60)):
        for how in ("pickle", "deepcopy", "dirty", "eg-pickle"):
            for half in (False, True):
                bad = sweep_one(cfg, pos, half, how, B)
                res.d["traces"] += 1
                if bad:
                    res.bad(dict(kind="sweep", cfg=cfg.key, pos=pos, half=half,
                                 how=how, n=B),
                            f"{cfg.key}: {how} after {pos} raw draws: {bad}",
                            key=f"{cfg.key} sweep {how} {bad[:20]}")


def dress(st, i):
    if "has_uint32" in st:
        st["has_uint32"] = (i // 2) % 2
        st["uinteger"] = (0, 0xFFFFFFFF, 0x80000000, 0x12345678)[i % 4] \
            if st["has_uint32"] else 0
    return st


def boundary_one(cfg, idx, how):
    from mc.props import c06
    st, _ = next(itertools.islice(c06.states(cfg, "quick", cfg.make(1).state), idx, None))
    st = dress(st, idx)
    o = Box(cfg.make(1))
    o.bg.state = st
    s = o.bg.state
    n = restore(cfg, o, s, how)
    return first_diff(cfg, o.bg, n.bg, 3)


def boundary(task, res):
    """States holding boundary words in every position, taken and restored."""
    from mc.props import c06
    cfg = BYKEY[task["cfg"]]
    base = cfg.make(1).state
    a, b = Box(cfg.make(1)), Box(cfg.make(7))
    for i, (st, n) in enumerate(c06.states(cfg, "quick", base)):
        if task["boundary"] == "quick" and cfg.block > 100 and i % 4:
            continue
        st = dress(st, i)
        a.bg.state = st
        s = a.bg.state
        how = ("pickle", "deepcopy", "eg-pickle")[i // 16 % 3] if i % 16 == 0 else None
        if how:
            t = restore(cfg, a, s, how).bg
        else:
            t = b.bg
            t.state = s
        bad = first_diff(cfg, a.bg, t, 3)
        res.d["states"] += 1
        res.d["traces"] += 1
        res.d["transitions"] += 5
        if bad:
            res.bad(dict(kind="state", cfg=cfg.key, idx=i, how=how or "fresh"),
                    f"{cfg.key}: a state with boundary words restored by "
                    f"{how or 'setting it'}: {bad}",
                    key=f"{cfg.key} boundary {how} {bad[:20]}")


def run(task):
    res = Res()
    if "sweep" in task or "boundary" in task:
        (sweep if "sweep" in task else boundary)(task, res)
        return res.out()
    cfg = BYKEY[task["cfg"]]
    o = ops(cfg)
    if task["first"] < 0:
        hs = [()]
        if task["depth"]:
            hs += [(("jmp", 1),), (("u32", 0), ("jmp", 1)), (("jin", 2),)]
    else:
        f = o[task["first"]]
        hs = [(f,) + r for k in range(task["depth"])
              for r in itertools.product(o, repeat=k)]
    ks = conts(cfg)
    targets = TARGETS + ["other:" + c.key for c in others(cfg)] + ["rewind"]
    seen = set()
    for h in hs:
        want = []
        for k in ks:
            ref = Box(cfg.make(1))
            go(ref, cfg, h)
            want.append(go(ref, cfg, k))
        ob = Box(cfg.make(1))
        go(ob, cfg, h)
        s = ob.bg.state
        before = canon(s)
        seen.add(hash(before))
        res.d["transitions"] += len(h)
        few = len(h) <= 2
        for ti, how in enumerate(targets):
            if how in ("lists", "strided", "shortname", "eg-setstate") and not few:
                continue
            sel = range(len(ks)) if how in ("fresh", "pickle", "rewind") or few \
                else [(len(h) + ti + len(seen)) % len(ks), 0]
            for ki in dict.fromkeys(sel):
                n = restore(cfg, ob, s, how)
                what = None
                if canon(s) != before:
                    what = "restoring changed the saved state"
                elif canon(n.bg.state) != before:
                    what = "the restored generator reports another state"
                else:
                    got = go(n, cfg, ks[ki])
                    res.d["transitions"] += len(ks[ki])
                    if got != want[ki]:
                        what = "another continuation"
                    elif how == "ctypes" and ki == 0:
                        # the interface handed out belongs to the same stream
                        it, m = n.bg.ctypes, restore(cfg, ob, s, "pickle")
                        a = [it.next_uint32(it.state), it.next_uint64(it.state),
                             it.next_double(it.state)]
                        n.bg.state = s
                        it = n.bg.ctypes
                        a = [it.next_uint32(it.state), it.next_uint64(it.state),
                             it.next_double(it.state)]
                        b = [m.do(cfg, (x, 0))[0] for x in ("u32", "u64", "dbl")]
                        if a != b:
                            what = "the ctypes interface continues differently"
                res.d["traces"] += 1
                if what:
                    res.bad(dict(cfg=cfg.key, hist=h, how=how, cont=ks[ki]),
                            f"{cfg.key}: after {h}, restored by {how}: {what}",
                            key=f"{cfg.key} {how} {what}")
            # reading the state, and everything above, left the original alone
            if how not in ("rewind",) and canon(ob.bg.state) != before:
                res.bad(dict(cfg=cfg.key, hist=h, how=how, cont=ks[0]),
                        f"{cfg.key}: after {h}, {how} changed the original",
                        key=f"{cfg.key} {how} original")
                break
    res.d["states"] = len(seen)
    res.sample(f"{cfg.key}: {len(hs)} histories such as {hs[-1]} x {len(targets)} targets")
    return res.out()


def replay(case):
    if case.get("kind") == "sweep":
        m = sweep_one(BYKEY[case["cfg"]], case["pos"], case["half"], case["how"],
                      case["n"])
        return [m] if m else []
    if case.get("kind") == "state":
        m = boundary_one(BYKEY[case["cfg"]], case["idx"], case["how"])
        return [m] if m else []
    cfg = BYKEY[case["cfg"]]
    m = one(cfg, [tuple(x) for x in case["hist"]], case["how"],
            [tuple(x) for x in case["cont"]])
    return [m] if m else []
