"""C10: SeedSequence matches the reference algorithm; spawned children are distinct."""
import copy
import itertools
import pickle

import numpy as np
from numpy.random import SeedSequence as NP

import randomgen as rg
from randomgen._seed_sequence import SeedSequence as SS
from randomgen._seed_sequence import SeedlessSeedSequence

from mc.core import Res
from mc.gens import CONFIGS

META = dict(
    level="model_checking",
    bounds=dict(
        quick="all entropies of up to 5 words over 5 boundary words, every power of two to "
              "2**300 and its neighbours, all spawn keys of up to 3 elements over 6 values, "
              "pools of 4 to 9, 16 and 40 words, requests of 0 to 40 words of both types; "
              "every tree made by up to 4 spawn calls of 0 to 3 children on any node, with "
              "generate_state and copies in between; spawns of every generator class",
        thorough="entropies of up to 6 words, spawn keys of up to 4, 5 spawn calls"),
    assumptions=["the reference is numpy's algorithm, restated in Python and compared with "
                 "the installed numpy as well"],
)
M = (1 << 32) - 1


def words32(n):
    w = []
    while n or not w:
        w.append(n & M)
        n >>= 32
    return w


def assemble(x):
    if isinstance(x, str):
        return words32(int(x, 16) if x.startswith("0x") else int(x))
    if isinstance(x, (int, np.integer)):
        return words32(int(x))
    out = []
    for v in x:
        out += assemble(v)
    return out


def ref(entropy, key, pool_size, n, bits):
    """The published algorithm on Python integers."""
    run, sp = assemble(entropy), assemble(key)
    if sp and len(run) < pool_size:
        run = run + [0] * (pool_size - len(run))
    ent = run + sp
    h = 0x43B0D7E5

    def hashmix(v):
        nonlocal h
        v ^= h
        h = h * 0x931E8875 & M
        v = v * h & M
        return v ^ v >> 16

    def mix(x, y):
        r = 0xCA01F9DD * x - 0x4973F715 * y & M
        return r ^ r >> 16

    pool = [hashmix(ent[i] if i < len(ent) else 0) for i in range(pool_size)]
    for s in range(pool_size):
        for d in range(pool_size):
            if s != d:
                pool[d] = mix(pool[d], hashmix(pool[s]))
    for s in range(pool_size, len(ent)):
        for d in range(pool_size):
            pool[d] = mix(pool[d], hashmix(ent[s]))
    out = []
    g = 0x8B51F9DD
    for i in range(n * bits // 32):
        v = pool[i % pool_size] ^ g
        g = g * 0x58F38DED & M
        v = v * g & M
        out.append(v ^ v >> 16)
    if bits == 64:
        out = [a | b << 32 for a, b in zip(out[::2], out[1::2])]
    return out


DT = {32: np.uint32, 64: np.uint64}


def case(entropy, key, pool, reqs, use_np=True):
    """None or how the words differ."""
    before = copy.deepcopy((entropy, key))
    s = SS(entropy, spawn_key=key, pool_size=pool)
    if use_np:
        n = NP(entropy, spawn_key=key, pool_size=pool)
        if not np.array_equal(n.pool, s.pool):
            return f"pool {s.pool} instead of {n.pool}"
    st = repr(s.state)
    for cnt, bits in reqs:
        dt = DT[bits]
        got = s.generate_state(cnt, dt)
        if got.dtype != dt or got.shape != (cnt,):
            return f"generate_state({cnt}, {dt.__name__}) has {got.dtype} {got.shape}"
        want = ref(entropy, key, pool, cnt, bits)
        if got.tolist() != want:
            return f"generate_state({cnt}, {dt.__name__}) is {got.tolist()[:6]}, not {want[:6]}"
        got[:] = 0  # what is returned belongs to the caller
    if repr(s.state) != st or s.n_children_spawned:
        return f"generate_state changed {st} to {s.state!r}"
    if repr(before) != repr((entropy, key)):
        return "the arguments were changed"
    return None


R = [(0, 32), (1, 32), (3, 32), (4, 64), (8, 32), (5, 32)]
B = [0, 1, 1 << 31, M, 0x9E3779B9]
KEYV = [0, 1, 2, M, 1 << 32, (1 << 64) + 5]


def entropies(n, first):
    for k in range(0, n):
        for r in itertools.product(B, repeat=k):
            yield (first,) + r


def tasks(tier):
    q = tier == "quick"
    out = [dict(kind="words", first=b, n=5 if q else 6, pool=p) for b in B
           for p in (4, 6)]
    out += [dict(kind="ints", part=p) for p in range(6)]
    out += [dict(kind="keys", first=k, n=3 if q else 4) for k in KEYV]
    out += [dict(kind="requests", pool=p) for p in (4, 5, 6, 7, 8, 9, 16, 40)]
    out += [dict(kind="forms")]
    out += [dict(kind="tree", first=f, n=4 if q else 5) for f in range(len(tree_ops([()])))]
    out += [dict(kind="gens", cls=c) for c in sorted({c.cls for c in CONFIGS})]
    out.sort(key=lambda t: t["kind"] != "tree")
    return out


# ------------------------------------------------------------------ spawn trees
def tree_ops(nodes):
    o = [["spawn", i, n] for i in range(min(len(nodes), 4)) for n in (0, 1, 2, 3)]
    o += [["gen", 0], ["copy", 0], ["pickle", len(nodes) - 1], ["state", 0]]
    return o


def play_tree(seq, entropy=5, base=()):
    """Follows a sequence of spawn calls; the model of a node is its spawn key and the
    number of children made."""
    root = SS(entropy, spawn_key=base)
    nodes, model = [root], [[tuple(base), 0]]
    for op in seq:
        i = op[1]
        if i >= len(nodes):
            return None, None
        if op[0] == "spawn":
            kids = nodes[i].spawn(op[2])
            if len(kids) != op[2]:
                return f"spawn({op[2]}) gave {len(kids)} children", None
            for c in kids:
                key = model[i][0] + (model[i][1],)
                model[i][1] += 1
                nodes.append(c)
                model.append([key, 0])
        elif op[0] == "gen":
            a = nodes[i].generate_state(7, np.uint64)
            if not np.array_equal(a[:3], nodes[i].generate_state(3, np.uint64)):
                return "a shorter request is not a prefix of a longer one", None
        elif op[0] == "copy":
            c = copy.deepcopy(nodes[i])
            c2 = copy.deepcopy(nodes[i])
            c2.spawn(2)
            nodes[i] = c
        elif op[0] == "pickle":
            nodes[i] = pickle.loads(pickle.dumps(nodes[i]))
        else:
            s = nodes[i].state
            nodes[i] = SS(**s)
    for nd, (key, cnt) in zip(nodes, model):
        if tuple(nd.spawn_key) != key or nd.n_children_spawned != cnt:
            return (f"node {nd.spawn_key} with {nd.n_children_spawned} children should be "
                    f"{key} with {cnt}"), None
    return None, (nodes, model)


def tree_case(seq, words_of=None):
    m, r = play_tree(seq)
    if m or r is None:
        return m
    nodes, model = r
    seen = {}
    for nd, (key, cnt) in zip(nodes, model):
        w = tuple(nd.generate_state(4).tolist())
        if key not in CACHE:
            CACHE[key] = tuple(ref(5, key, 4, 4, 32))
        if w != CACHE[key]:
            return f"the child with key {key} gives {w}, not {CACHE[key]}"
        if w in seen:
            return f"the nodes {seen[w]} and {key} give the same words"
        seen[w] = key
    return None


CACHE = {}


def gens_case(cls):
    """bit_generator.spawn: distinct children, each seeded by its own sequence."""
    for make in (NP,):
        g = getattr(rg, cls)(make(11))
        twin = getattr(rg, cls)(make(11))
        if g.random_raw(4).tolist() != twin.random_raw(4).tolist():
            return "equal sequences give different streams"
        kids = g.spawn(2) + g.spawn(1)
        kids += kids[0].spawn(2) + kids[1].spawn(2)
        ks = make(11).spawn(3)
        ks += ks[0].spawn(2) + ks[1].spawn(2)
        seen = {tuple(getattr(rg, cls)(make(11)).random_raw(6).tolist())}
        for k, s in zip(kids, ks):
            if type(k).__name__ != cls:
                return f"spawned a {type(k).__name__}"
            a = tuple(k.random_raw(6).tolist())
            b = tuple(getattr(rg, cls)(s).random_raw(6).tolist())
            if a != b:
                return f"the child {s.spawn_key} of {make.__module__} gives {a[:2]}, not {b[:2]}"
            if a in seen:
                return f"the child {s.spawn_key} repeats another stream"
            seen.add(a)
    return None


def forms():
    """(name, entropy) in every accepted form, compared with the int or word list."""
    for v in [0, 1, 12345, M, 1 << 32, (1 << 64) + 7, 1234567890123456789012345678901234567890]:
        yield v, str(v)
        yield v, hex(v)
        yield v, words32(v)
        yield v, tuple(words32(v))
        yield v, np.array(words32(v), np.uint32)
        yield v, np.array(words32(v), np.int64)
        yield v, np.array(words32(v), np.uint64)
        yield v, [str(x) for x in words32(v)]
        yield v, [hex(x) for x in words32(v)]
    yield [0, 1, 2], range(3)
    yield [1, 2, 3, 5], [1, [2, 3], 5]
    yield [12345, 67890], [12345, "67890"]
    for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
        mx = int(np.iinfo(t).max)
        yield mx, t(mx)
        yield [mx, 3], [t(mx), t(3)]
        yield [mx, 3], np.array([mx, 3], t)


BAD = [-1, [-1], [1, -1], np.array([-1]), 1.5, [1.5], np.array([1.5]), "x", "-1", "0xg", "1.5",
       ["x"], 1j, [None], {}, b"1", object(), [[1.5]], np.int64(-1), "12a", "a12"]


def run(task):
    res = Res()
    k = task["kind"]

    def do(entropy, key, pool, reqs, use_np=True):
        res.d["states"] += 1
        res.d["traces"] += len(reqs)
        res.d["transitions"] += len(reqs)
        m = case(entropy, key, pool, reqs, use_np)
        if m:
            res.bad(dict(kind="words", entropy=js(entropy), key=list(key), pool=pool, reqs=reqs),
                    f"SeedSequence({entropy!r}, spawn_key={key}, pool_size={pool}): {m}",
                    key=f"{k} {len(res.violations)}")

    if k == "words":
        for e in entropies(task["n"], task["first"]):
            do(np.array(e, np.uint32), (), task["pool"], [(4, 32), (3, 64)], len(e) < 4)
            if len(e) <= 3:
                do(list(e), (1,), task["pool"], [(4, 32), (9, 32)])
            if len(res.violations) > 5:
                break
    elif k == "ints":
        vals = sorted({0} | {(1 << i) + d for i in range(301) for d in (-1, 0, 1)})
        for v in vals[task["part"]::6]:
            for pool in (4, 8):
                do(v, (), pool, R)
            do(v, (v,), 4, R)
    elif k == "keys":
        for n in range(task["n"]):
            for r in itertools.product(KEYV, repeat=n):
                key = (task["first"],) + r
                for e in (0, 5, 1 << 100, (1 << 200) + 3):
                    for pool in (4, 5):
                        do(e, key, pool, [(4, 32), (2, 64)], n < 3)
    elif k == "requests":
        p = task["pool"]
        reqs = [(n, b) for n in range(41) for b in (32, 64)] + [(200, 32), (99, 64)]
        for e in (0, 7, 1 << 90, list(range(1, 12)), list(range(60)), (1 << (32 * p)) - 1,
                  1 << (32 * p), list(range(p)), list(range(p - 1)), list(range(p + 1))):
            for key in ((), (0,), (3, 1 << 40)):
                do(e, key, p, reqs)
    elif k == "forms":
        for v, e in forms():
            res.d["states"] += 1
            res.d["traces"] += 1
            a = SS(e).generate_state(8).tolist()
            b = ref(v, (), 4, 8, 32)
            key_a = SS(1, spawn_key=tuple(e) if not isinstance(e, (str, int, np.integer)) else (e,))
            c = ref(1, v if isinstance(v, list) else [v], 4, 4, 32)
            if a != b:
                res.bad(None, f"entropy {e!r} gives {a[:3]}, not the words of {v}",
                        key=f"form {e!r}"[:100])
            if key_a.generate_state(4).tolist() != c:
                res.bad(None, f"spawn key {e!r} gives other words than {v}",
                        key=f"key form {e!r}"[:100])
        for x in BAD:
            res.d["states"] += 1
            try:
                SS(x)
            except (TypeError, ValueError):
                continue
            res.bad(None, f"SeedSequence accepted {x!r}", key=f"bad {x!r}"[:100])
        for ps in (3, 0, -1):
            try:
                SS(1, pool_size=ps)
                res.bad(None, f"pool_size={ps} was accepted", key=f"pool {ps}")
            except ValueError:
                pass
        for dt in (np.int32, np.float64, np.uint8, np.uint16, "int64"):
            try:
                SS(1).generate_state(2, dt)
                res.bad(None, f"dtype {dt} was accepted", key=f"dtype {dt}")
            except ValueError:
                pass
        for dt in ("uint32", "uint64", np.dtype("u4"), np.dtype("u8")):
            if not np.array_equal(SS(1).generate_state(5, dt), NP(1).generate_state(5, dt)):
                res.bad(None, f"dtype {dt!r} gives other words", key=f"dtype {dt!r}")
        a, b = SS(), SS()
        if a.entropy == b.entropy or SS(a.entropy).generate_state(4).tolist() != a.generate_state(4).tolist():
            res.bad(None, "entropy drawn from the system is not unique or not reproducible",
                    key="system entropy")
        try:
            SeedlessSeedSequence().generate_state(1)
            res.bad(None, "a seedless sequence made a state", key="seedless")
        except NotImplementedError:
            pass
    elif k == "tree":
        f = tree_ops([()])[task["first"]]

        def grow(seq, n_nodes):
            m = tree_case(seq)
            res.d["states"] += 1
            res.d["traces"] += 1
            res.d["transitions"] += 1
            if m:
                res.bad(dict(kind="tree", seq=seq), f"after {seq}: {m}",
                        key=f"tree {len(res.violations)}")
                return
            if len(seq) >= task["n"] or len(res.violations) > 5:
                return
            for op in tree_ops([()] * n_nodes):
                if op[0] != "spawn" and seq[-1][0] == op[0]:
                    continue
                grow(seq + [op], n_nodes + (op[2] if op[0] == "spawn" else 0))

        grow([f], 1 + (f[2] if f[0] == "spawn" else 0))
    else:
        m = gens_case(task["cls"])
        res.d["states"] += 8
        res.d["traces"] += 16
        res.d["transitions"] += 16
        if m:
            res.bad(dict(kind="gens", cls=task["cls"]), f"{task['cls']}: {m}", key=f"{task['cls']} spawn")
    res.sample(f"{str(task)[:120]}: {res.d['states']} cases")
    return res.out()


def js(e):
    return ["arr"] + e.tolist() if isinstance(e, np.ndarray) else e


def replay(c):
    if c["kind"] == "words":
        e = c["entropy"]
        if isinstance(e, list) and e and e[0] == "arr":
            e = np.array(e[1:], np.uint32)
        m = case(e, tuple(c["key"]), c["pool"], c["reqs"])
    elif c["kind"] == "tree":
        m = tree_case(c["seq"])
    else:
        m = gens_case(c["cls"])
    return [m] if m else []
