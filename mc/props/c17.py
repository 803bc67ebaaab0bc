"""C17: generated Squares keys and Weyl increments are always valid and distinct.

The samplers are driven by seed sequences whose words are enumerated (every value of
chosen bits, runs of values that are rejected and so force refills, repeating words
that force duplicates), each backed by two different memories so that a word read
beyond those asked for shows."""
import itertools
import signal
import warnings

import numpy as np
from numpy.random import SeedSequence
from numpy.random.bit_generator import ISeedSequence
from randomgen import SFC64, Squares
from randomgen.squares import generate_keys

from mc.core import Res, limit
from mc.gens import canon

warnings.simplefilter("ignore")
META = dict(
    level="model_checking",
    bounds=dict(
        quick="keys: all 2^16 values of each of 4 groups of 16 stream bits, all pairs of flips "
              "of the first 128 bits (4 base streams), every run of a repeated digit (16 "
              "values x 176 offsets x 14 lengths up to 700 digits), repeating streams of "
              "period 1..8 x 12 lengths x n 1..6 with and without unique, seeds 0..4000; "
              "Weyl increments: all (min_bits, max_bits) x n x 8 generators, and all "
              "available values for the small sets",
        thorough="8 groups, 12 base streams, seeds 0..200000, 40 generators"),
    assumptions=["a seed sequence returns the same words first when asked for more, as "
                 "SeedSequence does"],
)
M64 = (1 << 64) - 1


def mix(i):
    z = (i * 0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019) & M64
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return z ^ z >> 31


class Stream:
    """Words of a base stream with a prefix of its own."""

    def __init__(self, base, prefix=(), poison=0):
        self.base, self.prefix, self.poison = base, list(prefix), poison
        self.asked = 0

    def generate_state(self, n_words, dtype=np.uint32):
        n = int(n_words)
        assert np.dtype(dtype) == np.uint64
        self.asked = max(self.asked, n)
        # what lies after the words must not matter
        buf = np.full(n + 64, mix(self.poison) if self.poison else 0, dtype=np.uint64)
        k = min(n, len(self.prefix))
        buf[:k] = self.prefix[:k]
        if n > k:
            z = (np.arange(k, n, dtype=np.uint64) + np.uint64(self.base << 20))
            with np.errstate(over="ignore"):
                z = z * np.uint64(0x9E3779B97F4A7C15) + np.uint64(0x632BE59BD9B4E019)
                z = (z ^ z >> np.uint64(30)) * np.uint64(0xBF58476D1CE4E5B9)
                z = (z ^ z >> np.uint64(27)) * np.uint64(0x94D049BB133111EB)
                z = z ^ z >> np.uint64(31)
            buf[k:n] = z
        return buf[:n]


ISeedSequence.register(Stream)


def words(base, n):
    return [int(x) for x in Stream(base).generate_state(n, np.uint64)]


def bad_key(k):
    d = [(k >> 4 * i) & 15 for i in range(16)]
    if not d[0] & 1:
        return f"{k:#018x} is even"
    if len(set(d[:8])) < 8:
        return f"{k:#018x} repeats one of its low eight digits"
    if 0 in d[8:]:
        return f"{k:#018x} has a zero among its high eight digits"
    if any(a == b for a, b in zip(d, d[1:])):
        return f"{k:#018x} has equal neighbouring digits"
    if 0 in d[1:8]:
        return ("zero", f"{k:#018x} has a zero among its digits 1 to 7")
    return None


def key_one(base, prefix, n=1, unique=False):
    """(message or None, saw a documented-nonzero low digit that is zero, refills)"""
    a = Stream(base, prefix)
    ks = generate_keys(a, n, unique)
    b = Stream(base, prefix, 1)
    if not (ks.dtype == np.uint64 and ks.shape == (n,)):
        return f"returned {ks.dtype} of shape {ks.shape}", False, a.asked
    if ks.tolist() != generate_keys(b, n, unique).tolist():
        return "depends on memory after the words it asked for", False, a.asked
    zero = False
    ks = ks.tolist()
    for k in ks:
        m = bad_key(k)
        if isinstance(m, tuple):
            zero = zero or m[1]
        elif m:
            return m, False, a.asked
    if unique and len(set(ks)) < n:
        return f"unique=True returned {len(set(ks))} distinct keys of {n}", zero, a.asked
    if not unique:
        more = generate_keys(Stream(base, prefix), n + 1).tolist()
        if more[:n] != ks:
            return f"{n + 1} keys do not begin with the {n} keys", zero, a.asked
    if n == 1:
        s = Squares(Stream(base, prefix))
        k = s.state["state"]["key"]
        m = bad_key(k)
        if m and not isinstance(m, tuple):
            return "seeding Squares: " + m, zero, a.asked
        s2 = Squares(Stream(base, prefix, 1))
        if s2.state["state"]["key"] != k:
            return "seeding Squares depends on memory after the words", zero, a.asked
        t = Squares(5)
        t.seed(Stream(base, prefix))
        if t.state["state"]["key"] != k:
            return "seeding Squares again gave another key", zero, a.asked
    return None, zero, a.asked


def with_bits(ws, off, nbits, val):
    """Words with nbits stream bits from offset off set to val."""
    big = sum(w << 64 * i for i, w in enumerate(ws))
    big &= ~(((1 << nbits) - 1) << off)
    big |= val << off
    return [(big >> 64 * i) & M64 for i in range(len(ws))]


def seed_one(seed, n):
    ks = generate_keys(seed, n).tolist()
    zero = False
    for k in ks:
        m = bad_key(k)
        if isinstance(m, tuple):
            zero = m[1]
        elif m:
            return m, zero
    if ks != generate_keys(SeedSequence(seed), n).tolist():
        return "an int and its SeedSequence give different keys", zero
    if generate_keys(seed, n + 2).tolist()[:n] != ks:
        return "more keys do not begin with the fewer", zero
    u = generate_keys(seed, n, True).tolist()
    if len(set(u)) < n or any(isinstance(bad_key(k), str) for k in u):
        return "unique=True gave invalid or equal keys", zero
    sq = Squares(seed)
    m = bad_key(sq.state["state"]["key"])
    if m and not isinstance(m, tuple):
        return "seeding Squares: " + m, zero
    return None, zero


def key_bad(n):
    try:
        generate_keys(1, n)
    except (ValueError, OverflowError, TypeError):
        return None
    return "accepted"


# ----------------------------------------------------------------------- Weyl
def choose(n, k):
    import math
    return math.comb(n, k)


def gen_of(i):
    s = SFC64(i + 1)
    if i % 4 == 3:
        # outputs that begin in an extreme way
        st = s.state
        st["state"].update(a=0, b=0, w=(0, M64, 1, 1 << 63)[i // 4 % 4])
        s.state = st
    elif i % 4 == 2:
        s.random_raw(3)
        np.random.Generator(s).integers(0, 5, dtype=np.uint32)
    return s


def weyl_one(g, lo, hi, n, default=False):
    s, t = gen_of(g), gen_of(g)
    kw = {} if default else dict(min_bits=lo)
    v = s.weyl_increments(n, hi, **kw)
    if not (v.dtype == np.uint64 and v.shape == (n,)):
        return f"returned {v.dtype} of shape {v.shape}"
    v = v.tolist()
    for x in v:
        if not x & 1:
            return f"{x:#x} is even"
        if not lo <= bin(x).count("1") <= hi:
            return f"{x:#x} has {bin(x).count('1')} bits set"
    if len(set(v)) < n:
        return f"{len(set(v))} distinct values of {n}"
    if t.weyl_increments(n, hi, **kw).tolist() != v or canon(t.state) != canon(s.state):
        return "the same generator state gave other values"
    if not s.lock.acquire(False):
        return "the lock is still held"
    s.lock.release()
    return None


def weyl_bad(a):
    s = SFC64(1)
    c = canon(s.state)
    try:
        s.weyl_increments(*a)
    except (ValueError, OverflowError, TypeError):
        return None if canon(s.state) == c else "refused, but it drew"
    return "accepted"


def available(lo, hi):
    return sum(choose(63, k - 1) for k in range(lo, hi + 1))


# ---------------------------------------------------------------------- tasks
def tasks(tier):
    big = tier == "thorough"
    out = [dict(k="bits", off=o, part=p) for o in range(0, 128 if big else 64, 16)
           for p in range(4)]
    out += [dict(k="pairs", base=b, part=p) for b in range(12 if big else 4)
            for p in range(4)]
    out += [dict(k="runs", v=v, base=b) for v in range(16) for b in range(4 if big else 1)]
    out += [dict(k="period", p=p) for p in range(1, 9)]
    n, c = (200000, 2000) if big else (4000, 500)
    out += [dict(k="seeds", lo=i, hi=i + c) for i in range(0, n, c)]
    out += [dict(k="weyl", g=g) for g in range(40 if big else 8)]
    out += [dict(k="all", g=g) for g in range(8 if big else 4)]
    out.append(dict(k="bad"))
    return out


FULL = [(1, 1), (2, 2), (1, 2), (63, 63), (64, 64), (63, 64), (3, 3), (62, 62), (62, 64),
        (1, 3)]


def cases(t):
    k = t["k"]
    if k == "bits":
        ws = words(3, 4)
        for v in range(t["part"] << 14, (t["part"] + 1) << 14):
            yield "key", (3, with_bits(ws, t["off"], 16, v))
    elif k == "pairs":
        ws = words(t["base"], 4)
        big = sum(w << 64 * i for i, w in enumerate(ws))
        for i, (a, b) in enumerate(itertools.combinations(range(128), 2)):
            if i % 4 == t["part"]:
                x = big ^ (1 << a) ^ (1 << b)
                yield "key", (t["base"], [(x >> 64 * j) & M64 for j in range(4)])
    elif k == "runs":
        ws = words(t["base"], 60)
        for off in range(0, 176):
            for n in (1, 2, 3, 5, 8, 16, 17, 31, 80, 143, 160, 163, 330, 700):
                val = sum(t["v"] << 4 * j for j in range(n))
                yield "key", (t["base"], with_bits(ws, off, 4 * n, val))
    elif k == "period":
        for base in range(6):
            ws = words(base, t["p"])
            for r in (2, 3, 5, 9, 10, 11, 19, 20, 21, 40, 41, 80):
                for n in range(1, 7):
                    for u in (False, True):
                        yield "key", (base, (ws * r)[:r], n, u)
    elif k == "seeds":
        for s in range(t["lo"], t["hi"]):
            yield "seed", (s, 1 + s % 7)
            if s % 100 == 0:
                yield "seed", (s, 200)
    elif k == "weyl":
        for lo in range(1, 65):
            for hi in range(lo, 65):
                for n in (1, 2, 5, 25):
                    if n <= available(lo, hi):
                        yield "weyl", (t["g"], lo, hi, n)
            yield "weyl", (t["g"], lo, lo, 1, True)
    elif k == "all":
        for lo, hi in FULL:
            n = available(lo, hi)
            for q in {n, max(1, n - 1), n // 2 + 1}:
                yield "weyl", (t["g"], lo, hi, q)
    else:
        for n in (0, -1, -10):
            yield "kbad", (n,)
        for a in [(0,), (-1,), (1, 0), (1, 65), (1, -1), (1, 32, 33), (1, 32, 0),
                  (1, 32, -1), (1, 64, 65), (2, 1, 1), (64, 2), (63, 2, 2), (65, 2, 1),
                  (1, 128), (1, 256 + 32), (1, 2 ** 32 + 32)]:
            if a == (63, 2, 2):
                continue
            yield "wbad", (a,)


FUN = dict(key=lambda *a: key_one(*a), seed=seed_one,
           weyl=lambda *a: (weyl_one(*a), False), kbad=lambda n: (key_bad(n), False),
           wbad=lambda a: (weyl_bad(a), False))


def run(t):
    res = Res()
    n = refills = 0
    for f, a in cases(t):
        limit([f, str(a)[:300]])
        r = FUN[f](*a)
        m, zero = r[0], r[1]
        n += 1
        if f == "key" and r[2] > 10 * (a[2] if len(a) > 2 else 1):
            refills += 1
        if m:
            res.bad(dict(f=f, a=a), f"{f}{str(a)[:200]}: {m}", key=f"{f} {m[-30:]}")
            if len(res.violations) > 5:
                break
        if zero:
            res.bad(dict(f=f, a=a, zero=1), f"{f}{str(a)[:100]}: {zero}",
                    key="zero among digits 1 to 7")
    signal.alarm(0)
    res.violations = list({v["key"]: v for v in res.violations}.values())
    res.d["states"] = res.d["transitions"] = res.d["traces"] = n
    res.sample(f"{t}: {n} cases, {refills} of them with refills")
    return res.out()


def replay(c):
    r = FUN[c["f"]](*c["a"])
    if c.get("zero"):
        return [r[1]] if r[1] else []
    return [r[0]] if r[0] else []
