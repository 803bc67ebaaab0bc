"""C07: accelerated and portable implementations are bit-identical.

The tree is built three times: as usual, without any intrinsics or 128-bit
integers, and with SSE2 only. Every build explores the same bounded set of states
and histories; a case is decided by comparing what they show. The usual build also
switches the acceleration on and off at every point of a history."""
import hashlib
import itertools
import json
import os
import pickle
import struct
import subprocess
import sys

import numpy as np

from mc.core import Res
from mc.gens import BYKEY, CONFIGS, Box, canon
from mc.props import c06

META = dict(
    level="model_checking",
    bounds=dict(
        quick="three builds: the boundary states of C06, every power of two advance, "
              "all histories of 3 operations, keys and seeds; the run-time switches set "
              "in every possible way before each of 4 operations from 3 positions; saved "
              "states carried between builds at every position of a block",
        thorough="the thorough states of C06, histories of 4 operations, switches before "
                 "each of 5 operations"),
    assumptions=["big-endian, NEON, Altivec, XOP and MSVC paths cannot run here"],
)
TIER = os.environ.get("MC_TIER", "quick")
SWITCH = {"AESCounter": "use_aesni", "ChaCha": "use_simd", "SPECK128": "use_sse41"}
TOG = [c for c in CONFIGS if c.cls in SWITCH]
SLOWJUMP = ("mt19937", "dsfmt", "sfmt")


# ------------------------------------------------------------------ observations
def tail(cfg, bg):
    n = cfg.block // cfg.raw_words
    box = Box(bg)
    out = [canon(bg.state)]
    for op in (("u32", 0), ("raw", 1), ("u32", 0), ("raw", n + 1), ("dbl", 2), ("flt", 3),
               ("u64", 2)):
        out.append(box.do(cfg, op))
    return out + [canon(bg.state)]


def o_state(cfg, st, n):
    bg = cfg.make(1)
    bg.state = st
    out = [bg.random_raw(n).tolist(), canon(bg.state)]
    bg.state = st
    out += tail(cfg, bg)
    if cfg.adv:
        for d in (1, cfg.block + 1, (1 << cfg.adv["bits"] // 2) + 3):
            bg.state = st
            bg.advance(d, **cfg.adv.get("kw", {}))
            out += [bg.random_raw(2).tolist(), canon(bg.state)]
    return out


def deltas(cfg):
    bits = cfg.adv["bits"]
    d = [0] + [1 << k for k in range(bits)] + [(1 << k) - 1 for k in range(2, bits)]
    d += [0xF0E1D2C3B4A5968778695A4B3C2D1E0F % (1 << bits), (1 << bits) - 2]
    if cfg.adv.get("neg", True):
        d += [-(1 << k) for k in range(0, bits, 3)]
    return d


def o_adv(cfg, seed, pos, d):
    bg = cfg.make(seed)
    bg.random_raw(pos)
    bg.advance(d, **cfg.adv.get("kw", {}))
    return [bg.random_raw(cfg.block + 1).tolist(), canon(bg.state)]


def hist_ops(cfg):
    n = cfg.block // cfg.raw_words
    o = [("raw", 1), ("u32", 0), ("raw", n), ("dbl", 1), ("flt", 1), ("norm", 2), ("state",),
         ("seed", 5), ("ldbl", 1)]
    if cfg.adv:
        o += [("adv", 3), ("adv", (1 << cfg.adv["bits"] - 3) + 1)]
    if cfg.has_jump and cfg.key not in SLOWJUMP:
        o += [("jmp", 1), ("jmp", 3)]
    return o


def o_hist(cfg, ops):
    box = Box(cfg.make(3))
    out = []
    for op in ops:
        out.append(box.do(cfg, op))
    return [str(out)] + tail(cfg, box.bg)


def o_jump(cfg, seed, pos, n):
    bg = cfg.make(seed)
    bg.random_raw(pos)
    return tail(cfg, bg.jumped(n))


def o_seed(cfg, kw):
    kw = dict(kw)
    try:
        bg = cfg.make(kw.pop("seed", None), **kw)
    except (TypeError, ValueError) as e:
        return [type(e).__name__]
    return tail(cfg, bg)


def seeds(cfg):
    for s in list(range(40)) + [1 << k for k in range(5, 140, 3)]:
        yield dict(seed=s)
    bits = dict(AESCounter=(128, 128), ChaCha=(256, 128), SPECK128=(256, 128)).get(cfg.cls)
    if cfg.cls in ("Philox", "ThreeFry"):
        n, w = cfg.kw["number"], cfg.kw["width"]
        bits = (n * w if cfg.cls == "ThreeFry" else n // 2 * w, n * w)
    if bits:
        for b in range(bits[0]):
            yield dict(key=1 << b)
            yield dict(key=(1 << bits[0]) - 1 - (1 << b))
        for b in range(bits[1]):
            yield dict(key=5, counter=1 << b)
            yield dict(key=5, counter=(1 << bits[1]) - (1 << b))
    ib = dict(PCG32=64, PCG64=128, PCG64DXSM=128, LCG128Mix=128).get(cfg.cls)
    for b in range(ib or 0):
        yield dict(seed=3, inc=1 << b)
        yield dict(seed=3, inc=(1 << ib) - 1 - (1 << b))


def o_cross(cfg, blob):
    """Continue a generator that was saved by another build."""
    bg = pickle.loads(blob)
    return tail(cfg, bg)


def cases(task):
    """Every case of a task, in one order in all builds: (label, call)."""
    cfg = BYKEY[task["cfg"]]
    k = task["kind"]
    if k == "states":
        base = cfg.make(0x1234).state
        for i, (st, n) in enumerate(c06.states(cfg, task["tier"], base)):
            if i % task["of"] == task["part"]:
                yield ("state", i), lambda st=st, n=n: o_state(cfg, st, n)
    elif k == "adv":
        for s in task["seeds"]:
            for p in (0, 1, cfg.block - 1):
                for d in deltas(cfg):
                    yield ("advance", s, p, d), lambda s=s, p=p, d=d: o_adv(cfg, s, p, d)
    elif k == "hist":
        o = hist_ops(cfg)
        for n in range(task["n"]):
            for r in itertools.product(o, repeat=n):
                h = (o[task["first"]],) + r
                yield ("history",) + h, lambda h=h: o_hist(cfg, h)
    elif k == "jump":
        js = (1, 2) if cfg.key in SLOWJUMP else [1, 2, 3, 5, 16, 17, 1000] + (
            [2**64 + 1] if cfg.adv else [])
        for s in (0, 7):
            for p in (0, 1, max(0, cfg.block - 1)):
                for n in js:
                    yield ("jump", s, p, n), lambda s=s, p=p, n=n: o_jump(cfg, s, p, n)
    elif k == "seed":
        for kw in seeds(cfg):
            yield ("seed", str(kw)), lambda kw=kw: o_seed(cfg, kw)


def digest(o):
    return hashlib.blake2b(repr(o).encode(), digest_size=12).digest()


def observe(task, only=None):
    out, lab, full = [], [], None
    for i, (label, f) in enumerate(cases(task)):
        if only is not None:
            if i == only:
                return label, f()
            continue
        try:
            out.append(digest(f()))
        except Exception as e:
            out.append(("exception " + type(e).__name__).encode())
    return out


# ------------------------------------------------------------- the other builds
class Server:
    def __init__(self, variant):
        env = dict(os.environ)
        d = json.loads(os.environ["MC_DIRS"])[variant]
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env["PYTHONPATH"] = d + os.pathsep + root
        self.p = subprocess.Popen([sys.executable, "-m", "mc.props.c07"], env=env, cwd="/",
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def send(self, req):
        b = pickle.dumps(req)
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()

    def recv(self):
        n = struct.unpack("<Q", self.p.stdout.read(8))[0]
        return pickle.loads(self.p.stdout.read(n))


_servers = {}
OTHERS = ("portable", "sse2")


def server(v):
    if v not in _servers:
        _servers[v] = Server(v)
    return _servers[v]


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = sys.stdin.buffer.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(sys.stdin.buffer.read(struct.unpack("<Q", h)[0]))
        try:
            k = req["op"]
            if k == "observe":
                r = observe(req["task"], req.get("only"))
            elif k == "make":
                r = made(req["cfg"], req["pos"])
            elif k == "load":
                cfg = BYKEY[req["cfg"]]
                r = [digest(o_cross(cfg, b)) for b in req["blobs"]]
        except Exception as e:
            r = "exception " + repr(e)
        b = pickle.dumps(r)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()


def made(key, positions):
    """(saved generator, digest of what it continues with) at each position."""
    cfg = BYKEY[key]
    out = []
    for p, half in positions:
        bg = cfg.make(17)
        if p:
            bg.random_raw(p)
        if half:
            Box(bg).do(cfg, ("u32", 0))
        blob = pickle.dumps(bg)
        out.append((blob, digest(tail(cfg, bg))))
    return out


# ----------------------------------------------------------- run-time switches
TOPS = ["raw", "u32", "block", "block1", "adv", "jumped", "reload", "seed", "dbl"]


def tops(cfg):
    return [o for o in TOPS if cfg.adv or o not in ("adv", "jumped")]


def toggled(cfg, pos, ops, flags):
    sw = SWITCH[cfg.cls]
    bg = cfg.make(9)
    setattr(bg, sw, flags[0])
    if pos >= 0:
        if pos:
            bg.random_raw(pos)
    else:  # the counter is about to wrap
        bg = cfg.make(9, counter=(1 << 128 if pos == -1 else 1 << 64) - 5)
        setattr(bg, sw, flags[0])
    out = []
    n = cfg.block // cfg.raw_words
    for o, f in zip(ops, flags):
        setattr(bg, sw, f)
        if o == "raw":
            out.append(bg.random_raw())
        elif o == "u32":
            out += Box(bg).do(cfg, ("u32", 0))
        elif o == "dbl":
            out += Box(bg).do(cfg, ("dbl", 1))
        elif o == "block":
            out += bg.random_raw(n).tolist()
        elif o == "block1":
            out += bg.random_raw(2 * n + 1).tolist()
        elif o == "adv":
            bg.advance(3)
        elif o == "jumped":
            bg = bg.jumped()
            setattr(bg, sw, f)
        elif o == "reload":
            st = bg.state
            bg = cfg.make(1)
            setattr(bg, sw, f)
            bg.state = st
        elif o == "seed":
            bg.seed(4)
            setattr(bg, sw, f)
    setattr(bg, sw, flags[-1])
    return out, canon(bg.state), bg.random_raw(n + 1).tolist(), canon(bg.state)


def flag_words(n):
    return list(itertools.product((True, False), repeat=n + 1))


def run_toggle(task, res):
    cfg = BYKEY[task["cfg"]]
    if not getattr(cfg.make(1), SWITCH[cfg.cls]):
        res.notes.append(f"{cfg.key}: this machine has no acceleration")
    for n in range(1, task["n"] + 1):
        for r in itertools.product(tops(cfg), repeat=n - 1):
            ops = (task["first"],) + r
            for pos in task["pos"]:
                base = toggled(cfg, pos, ops, (False,) * (n + 1))
                res.d["states"] += 1
                for fl in flag_words(n):
                    res.d["traces"] += 1
                    res.d["transitions"] += n
                    if toggled(cfg, pos, ops, fl) != base:
                        res.bad(dict(kind="toggle", cfg=cfg.key, pos=pos, ops=ops, flags=fl),
                                f"{cfg.key}: {SWITCH[cfg.cls]} set to {fl} before the steps "
                                f"of {ops} (start {pos}) gives other values or another state "
                                "than without acceleration", key=f"{cfg.key} switch")
                        if len(res.violations) > 4:
                            return


# ------------------------------------------------------------------------ plumbing
def tasks(tier):
    out = []
    q = tier == "quick"
    for c in CONFIGS:
        of = 3 if q else 16
        for p in range(of):
            out.append(dict(kind="states", cfg=c.key, tier=tier, part=p, of=of))
        if c.adv:
            for s in range(2 if q else 6):
                out.append(dict(kind="adv", cfg=c.key, seeds=[s, s + 100]))
        if c.has_jump:
            out.append(dict(kind="jump", cfg=c.key))
        out.append(dict(kind="seed", cfg=c.key))
        for f in range(len(hist_ops(c))):
            out.append(dict(kind="hist", cfg=c.key, first=f, n=3 if q else 4))
        for v in OTHERS:
            out.append(dict(kind="cross", cfg=c.key, to=v))
    for c in TOG:
        for f in tops(c):
            out.append(dict(kind="toggle", cfg=c.key, first=f, n=3 if q else 4,
                            pos=[0, 3, -1, -2]))
    out.sort(key=lambda t: t["kind"] not in ("states", "toggle"))
    return out


def compare(task, res):
    for v in OTHERS:
        server(v).send(dict(op="observe", task=task))
    mine = observe(task)
    got = {v: server(v).recv() for v in OTHERS}
    res.d["states"] += len(mine)
    res.d["traces"] += len(mine)
    res.d["transitions"] += 4 * len(mine)
    for v, o in got.items():
        if len(o) != len(mine) or isinstance(o, str):
            res.bad(None, f"{task}: the {v} build fails: {str(o)[:300]}", key=f"{v} fails")
            continue
        for i, (a, b) in enumerate(zip(mine, o)):
            if a != b:
                m = differ(task, v, i)
                res.bad(dict(kind="case", task=task, build=v, index=i), m,
                        key=f"{task['cfg']} {task['kind']} {v}")
                break


def differ(task, v, i):
    try:
        label, x = observe(task, i)
    except Exception as e:
        label, x = i, [repr(e)]
    server(v).send(dict(op="observe", task=task, only=i))
    y = server(v).recv()
    y = y[1] if isinstance(y, tuple) else [y]
    if repr(x) == repr(y):
        return None
    d = [(str(a)[:200], str(b)[:200]) for a, b in zip(x, y) if repr(a) != repr(b)][:1]
    return f"{task['cfg']}: case {label}: this build and the {v} build differ: {d}"


def run_cross(task, res):
    cfg = BYKEY[task["cfg"]]
    n = min(cfg.phase, 40)
    pos = [(p, h) for p in list(range(n + 2)) + [cfg.phase - 1, cfg.phase, cfg.phase + 1]
           for h in (0, 1)]
    s = server(task["to"])
    here = made(cfg.key, pos)
    s.send(dict(op="make", cfg=cfg.key, pos=pos))
    there = s.recv()
    s.send(dict(op="load", cfg=cfg.key, blobs=[b for b, _ in here]))
    cont = s.recv()
    res.d["states"] += 2 * len(pos)
    res.d["traces"] += 2 * len(pos)
    res.d["transitions"] += 8 * len(pos)
    for i, p in enumerate(pos):
        why = None
        if isinstance(cont, str) or cont[i] != here[i][1]:
            why = "saved here continues differently there"
        elif isinstance(there, str) or digest(o_cross(cfg, there[i][0])) != there[i][1]:
            why = "saved there continues differently here"
        if why:
            res.bad(dict(kind="cross", task=task), f"{cfg.key} at {p} ({task['to']} build): {why}",
                    key=f"{cfg.key} cross {task['to']}")
            return


def run(task):
    res = Res()
    if task["kind"] == "toggle":
        run_toggle(task, res)
    elif task["kind"] == "cross":
        run_cross(task, res)
    else:
        compare(task, res)
    res.sample(f"{str(task)[:100]}: {res.d['traces']} cases")
    return res.out()


def replay(case):
    if case["kind"] == "case":
        m = differ(case["task"], case["build"], case["index"])
        return [m] if m else []
    if case["kind"] == "toggle":
        cfg = BYKEY[case["cfg"]]
        a = toggled(cfg, case["pos"], case["ops"], case["flags"])
        b = toggled(cfg, case["pos"], case["ops"], [False] * len(case["flags"]))
        return [f"{case}: differs from the run without acceleration"] if a != b else []
    res = Res()
    run_cross(case["task"], res)
    return [v["msg"] for v in res.violations]


if __name__ == "__main__":
    serve()
