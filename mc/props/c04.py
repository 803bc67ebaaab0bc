"""C04: jumped streams are the documented distance away; the parent is unchanged.

Words at k jumps are obtained without jumping: from the closed form of the
congruential state or the constructed counter (mc.far), or, for the generators
that are linear over GF(2), from the minimal polynomial P of the generator's own
sequence: the words at k*d are sum q_i w_i with q = x**(k*d) mod P."""
import itertools
import warnings

import numpy as np

from mc import gf2
from mc.core import Res
from mc.far import FarTape
from mc.gens import BYKEY, CONFIGS, Box, Model, apply_model, canon

warnings.simplefilter("ignore")
META = dict(
    level="model_checking",
    bounds=dict(
        quick="every position up to a block (a window for blocks > 40), with and without a "
              "pending half, x jump counts 1..20 and around powers of 16 and 2; all sequences of "
              "3 operations (jumps in place and not, draws, advances)",
        thorough="positions up to two blocks, sequences of 4 operations"),
    assumptions=["for SFMT and DSFMT the unit of the documented distance is the 128-bit "
                 "state word, for Philox and ThreeFry the counter, both from the next "
                 "block boundary",
                 "the closed form, the counter argument and the recurrence found by "
                 "Berlekamp-Massey (checked on all words) describe the sequence"],
)
HAS = [c for c in CONFIGS if c.has_jump]
BIG = ("mt19937", "sfmt", "dsfmt")
STATEF2 = {"Xoroshiro128": 2, "Xoshiro256": 4, "Xoshiro512": 8, "Xorshift1024": 16,
           "LXM": 4}
LOG = {"mt19937": 128, "sfmt": 128, "dsfmt": 128, "xoroshiro128": 64,
       "xoroshiro128pp": 64, "xoshiro256": 128, "xoshiro512": 256,
       "xorshift1024": 512, "lxm": 128, "lxm-b": 128}


def getv(cfg, st):
    if cfg.cls == "LXM":
        return st["state"]["x"].copy()
    if cfg.cls == "Xorshift1024":
        return np.roll(st["state"]["s"], -int(st["state"]["p"]))
    return st["s"].copy()


def setv(cfg, st, v):
    st = dict(st)
    v = np.array(v, dtype=np.uint64)
    if cfg.cls == "LXM":
        st["state"] = dict(st["state"], x=v)
    elif cfg.cls == "Xorshift1024":
        st["state"] = dict(s=v, p=0)
    else:
        st["s"] = v
    st["has_uint32"], st["uinteger"] = 0, 0
    return st


class JumpTape:
    """word(pos) for pos = k * dist + i, i far smaller than dist."""

    def __init__(self, cfg, seed=1):
        self.cfg, self.seed = cfg, seed
        self.pred, self.chunks = {}, {}
        self.word_unit = 2 if cfg.key in ("sfmt", "dsfmt") else 1
        self.log = LOG[cfg.key]
        self.dist = self.word_unit << self.log
        if cfg.key in BIG:
            n = 19968 + 132
            raw = cfg.make(seed).random_raw((2 * n + 400) * self.word_unit)
            self.seq = raw.reshape(-1, self.word_unit)
            bits = (self.seq[:2 * n, 0] >> np.uint64(1 if cfg.key != "dsfmt" else 1)
                    & np.uint64(1)).tolist()
            self.window = 2400
        else:
            w = STATEF2[cfg.cls]
            g = cfg.make(seed)
            self.st0 = g.state
            n = 64 * w
            rows = []
            for _ in range(2 * n + 200):
                rows.append(getv(cfg, g.state))
                g.random_raw()
            self.seq = np.array(rows, dtype=np.uint64)
            bits = (self.seq[:2 * n + 64, 0] & np.uint64(1)).tolist()
            self.window = 1
        self.p, self.deg = gf2.bm(bits)
        # extended by the factors that the chosen bit does not see
        for _ in range(8):
            z = gf2.apply(self.p, self.seq, len(self.seq) - self.deg)
            if not z.any():
                break
            w, b = next((w, b) for w in range(z.shape[1]) for b in range(64)
                        if (z[:, w] >> np.uint64(b) & np.uint64(1)).any())
            f, d = gf2.bm((z[:200, w] >> np.uint64(b) & np.uint64(1)).tolist())
            if d > 80:
                break
            self.p = gf2.mul(self.p, f)
            self.deg += d
        self.linear = not z.any()
        self.q1 = gf2.xpow2(self.log, self.p, self.deg)
        self.q = {0: 1}

    def at(self, k):
        if k not in self.pred:
            if k not in self.q:
                if k - 1 in self.q:
                    self.q[k] = gf2.mod(gf2.mul(self.q[k - 1], self.q1), self.p, self.deg)
                else:
                    self.q[k] = gf2.polypow(self.q1, k, self.p, self.deg)
            self.pred[k] = gf2.apply(self.q[k], self.seq, self.window)
        return self.pred[k]

    def word(self, pos):
        k, i = divmod(pos, self.dist)
        if self.cfg.key in BIG:
            a = self.at(k)
            return int(a[i // self.word_unit, i % self.word_unit])
        ch = self.chunks.get(k)
        if ch is None or i >= len(ch):
            g = self.cfg.make(5)
            g.state = setv(self.cfg, self.st0, self.at(k)[0])
            ch = self.chunks[k] = g.random_raw(max(256, i + 64)).tolist()
        return ch[i]

    def start(self):
        return self.cfg.make(self.seed)


class CtrTape(FarTape):
    """The same for the generators with advance; dist from the documentation."""

    def __init__(self, cfg):
        super().__init__(cfg)
        if cfg.jump is not None:
            self.dist = cfg.jump
        else:
            n, w = cfg.kw["number"], cfg.kw["width"]
            self.dist = n << (n * w // 2)
        self.linear = True


_tapes = {}


def tape_of(cfg):
    if cfg.key not in _tapes:
        _tapes[cfg.key] = CtrTape(cfg) if cfg.adv else JumpTape(cfg)
    return _tapes[cfg.key]


def blockwise(cfg):
    return cfg.key in ("sfmt", "dsfmt") or cfg.cls in ("Philox", "ThreeFry")


def jump(cfg, tape, m, k):
    if blockwise(cfg):
        k0, i = divmod(m.pos, tape.dist)
        m.pos = k0 * tape.dist + -(-i // cfg.block) * cfg.block
    m.pos += k * tape.dist
    if cfg.adv:
        m.pos %= tape.period
    m.half = None


# ------------------------------------------------------------------- MT19937
# The jump is the linear map of the original code (and of numpy) on the key read
# as a circle from pos. For it the documented distance is a known finding.
def mt_window(st):
    key, pos = st["state"]["key"], int(st["state"]["pos"])
    return np.roll(key, -(pos if pos < 624 else 0))


def mt_orbit(x, n):
    x = x.astype(np.uint32).tolist()
    for i in range(n):
        y = (x[i] & 0x80000000) | (x[i + 1] & 0x7FFFFFFF)
        x.append(x[i + 397] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0))
    return np.array(x, dtype=np.uint32)


def mt_expect(tape, parent, k):
    if k not in tape.q:
        tape.q[k] = gf2.polypow(tape.q1, k, tape.p, tape.deg)
    w = gf2.apply(tape.q[k], mt_orbit(mt_window(parent), 19938), 624)
    w[0] &= 0x80000000
    return w


def play_mt(cfg, seq):
    tape = tape_of(cfg)
    box = Box(cfg.make(1))
    for op in list(seq) + TAIL:
        if op[0] in ("jmp", "jin"):
            parent = box.bg
            st = parent.state
            box.do(cfg, op)
            if op[0] == "jmp":
                if box.bg is parent or canon(parent.state) != canon(st):
                    return f"mt19937: jumped({op[1]}) in {seq} changed its parent"
            got = mt_window(box.bg.state)
            got[0] &= 0x80000000
            if not (got == mt_expect(tape, st, op[1])).all():
                return f"mt19937: {op} in {seq} is not x**({op[1]} * 2**128) applied"
            if op[1] < 16:
                b = np.random.MT19937(3)
                b.state = dict(st, bit_generator="MT19937")
                b = b.jumped(op[1]).state
                a = box.bg.state
                if not ((b["state"]["key"] == a["state"]["key"]).all()
                        and b["state"]["pos"] == a["state"]["pos"]):
                    return f"mt19937: {op} in {seq} differs from numpy's"
        else:
            b = np.random.MT19937(3)
            b.state = dict(box.bg.state, bit_generator="MT19937")
            g = np.random.Generator(b)
            n = max(1, op[1])
            want = {"raw": lambda: b.random_raw(n).tolist(),
                    "u32": lambda: g.integers(0, 2**32, n, dtype=np.uint32).tolist(),
                    "dbl": lambda: g.random(n).tolist()}[op[0]]()
            got = box.do(cfg, op)
            if got != want:
                return f"mt19937: {op} after {seq} gave {str(got)[:100]}, not {str(want)[:100]}"
    return None


def mt_distance():
    """The documented distance, from a newly seeded generator."""
    cfg = BYKEY["mt19937"]
    tape = tape_of(cfg)
    got = cfg.make(1).jumped().random_raw(40).tolist()
    want = [tape.word(tape.dist + i) for i in range(40)]
    return None if got == want else (
        f"MT19937(1).jumped() gave {got[:2]}..., 2**128 words ahead are {want[:2]}...")


TAIL = [("u32", 0), ("raw", 1), ("u32", 0), ("dbl", 0), ("u32", 0)]


def play(cfg, seq, long=False):
    """None or what is wrong. jmp: jumped; jin: jump in place."""
    tape = tape_of(cfg)
    if cfg.key == "mt19937":
        return play_mt(cfg, seq)
    if not tape.linear:
        return f"{cfg.key}: the sequence does not obey a linear recurrence of the state's size"
    box, m = Box(tape.start()), Model(tape)
    parents = []
    for op in list(seq) + TAIL + ([("raw", cfg.block + 2)] if long else []):
        if op[0] == "jmp":
            before = canon(box.bg.state)
            parent = box.bg
            box.do(cfg, op)
            if box.bg is parent:
                return f"{cfg.key}: jumped returned its generator"
            if canon(parent.state) != before:
                return f"{cfg.key}: jumped({op[1]}) in {seq} changed its parent"
            parents.append((parent, before, m.pos, m.half))
            jump(cfg, tape, m, op[1])
        elif op[0] == "jin":
            box.do(cfg, op)
            jump(cfg, tape, m, op[1])
        elif op[0] == "adv":
            box.do(cfg, op)
            m.pos = (m.pos + op[1]) % tape.period
            m.half = None
        else:
            pos = m.pos
            got, want = box.do(cfg, op), apply_model(m, op)
            if got != want:
                return (f"{cfg.key}: {op} after {seq} at word {pos % tape.dist} past "
                        f"{pos // tape.dist} jumps gave {str(got)[:120]}, not {str(want)[:120]}")
    for parent, before, pos, half in parents:
        if canon(parent.state) != before:
            return f"{cfg.key}: a child of jumped in {seq} shares its parent's state"
        mm = Model(tape, pos, half)
        pb = Box(parent)
        for op in TAIL[:3]:
            if pb.do(cfg, op) != apply_model(mm, op):
                return f"{cfg.key}: the parent of jumped in {seq} continues differently"
    return None


def counts(cfg):
    if cfg.key in BIG:
        return list(range(1, 21)) + [32, 33, 255, 256, 257, 272, 4095, 4096, 4097, 65535,
                                     65536, 65537, 69905, 131075]
    if cfg.adv:
        k = list(range(1, 21)) + [2**31 - 1, 2**31, 2**32, 2**32 + 5, 2**48 + 1, 2**62]
        return k
    return list(range(1, 21)) + [33, 100, 257]


def mt_compose():
    """16 jumps at once are 16 jumps."""
    g = BYKEY["mt19937"].make(1)
    a = g.jumped(16).random_raw(4).tolist()
    b = g.jumped(8).jumped(8).random_raw(4).tolist()
    return None if a == b else (
        f"MT19937(1).jumped(16) gave {a[:2]}..., jumped(8).jumped(8) {b[:2]}...")


def can_jin(cfg):
    return hasattr(cfg.make(1), "jump") and cfg.cls != "PCG64DXSM"


def tasks(tier):
    out = []
    d = 3 if tier == "quick" else 4
    out.append(dict(cfg="mt19937", kind="distance"))
    for c in HAS:
        parts = 6 if c.key == "mt19937" else 1
        for i in range(parts):
            out.append(dict(cfg=c.key, kind="one", tier=tier, part=i, parts=parts))
        out.append(dict(cfg=c.key, kind="seq", n=d, part=0))
        if c.key not in BIG and c.adv:
            out.append(dict(cfg=c.key, kind="seq", n=d, part=1))
    out.sort(key=lambda t: t["cfg"] not in BIG)
    return out


def run(task):
    res = Res()
    cfg = BYKEY[task["cfg"]]
    seen = set()

    def check(seq, long=False):
        what = play(cfg, seq, long)
        seen.add(hash(tuple(seq)))
        res.d["traces"] += 1
        res.d["transitions"] += len(seq) + len(TAIL)
        if what:
            res.bad(dict(cfg=cfg.key, seq=seq, long=long), what,
                    key=f"{cfg.key} {task['kind']} {len(res.violations)}")
        return len(res.violations) > 6

    r = cfg.block // cfg.raw_words
    tier = task.get("tier")
    if task["kind"] == "distance":
        what = mt_distance()
        res.d["traces"] += 1
        if what:
            res.bad(dict(distance=1), what, key="mt19937 documented distance")
        what = mt_compose()
        res.d["traces"] += 1
        if what:
            res.bad(dict(compose=1), what, key="mt19937 16 jumps at once")
    elif task["kind"] == "one":
        if cfg.block > 40:
            ps = sorted({0, 1, 2, r // 2, r - 2, r - 1, r, r + 1})
            if tier == "thorough":
                ps = sorted(set(ps) | set(range(0, 2 * r + 2, 7)))
        else:
            ps = range((1 if tier == "quick" else 2) * r + 2)
        for p in list(ps)[task["part"]::task["parts"]]:
            for pre in ([], [("u32", 0)]):
                for k in counts(cfg):
                    if check([("raw", p)] * bool(p) + pre + [("jmp", k)], long=(k < 3)):
                        return res.out()
                if not pre:
                    for k in (1, 3):
                        if can_jin(cfg) and check(
                                [("raw", p)] * bool(p) + [("jin", k)]):
                            return res.out()
    else:
        a = [("jmp", 1), ("jmp", 2), ("raw", 1), ("u32", 0)]
        if can_jin(cfg):
            a.append(("jin", 1))
        if cfg.key not in BIG:
            a += [("jmp", 3), ("dbl", 0)]
        if cfg.adv and task["part"]:
            a += [("adv", cfg.block + 1), ("adv", 2**(cfg.adv["bits"] - 2) + 1)]
        for seq in itertools.product(a, repeat=task["n"]):
            if any(o[0] in ("jmp", "jin") for o in seq):
                if task["part"] and not any(o[0] == "adv" for o in seq):
                    continue
                if check(list(seq)):
                    return res.out()
    res.d["states"] = len(seen)
    res.sample(f"{cfg.key}: {task['kind']}: {len(seen)} histories")
    return res.out()


def replay(case):
    if "distance" in case:
        m = mt_distance()
        return [m] if m else []
    if "compose" in case:
        m = mt_compose()
        return [m] if m else []
    m = play(BYKEY[case["cfg"]], [tuple(x) for x in case["seq"]], case.get("long"))
    return [m] if m else []
