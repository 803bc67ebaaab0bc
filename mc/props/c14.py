"""C14: uniform floats are the exact documented function of the raw bits.

float32: every one of the 2^32 words. long double: an enumerated set of boundary
words. double: from every boundary state of every real generator, and from states
made so that the next words are boundary words. out: the product of array layouts,
dtypes, shapes and size arguments."""
import copy
import itertools
import struct

import numpy as np
from numpy.random import Generator
from randomgen import ExtendedGenerator

from mc import chelp
from mc.core import Res
from mc.gens import BYKEY, CONFIGS, canon

META = dict(
    level="model_checking",
    bounds=dict(
        quick="float32: all 2^32 words; long double: all words with <= 3 bits set or "
              "clear, every run of ones, +-8 around every power of two; double: C06's "
              "boundary states of every generator and injected boundary words; out: 26 "
              "arrays x 12 size arguments x 3 dtypes",
        thorough="also long double words with 4 bits set or clear and 2^24 consecutive "
                 "words at 16 places, and C06's thorough states"),
    assumptions=["x87 80-bit long double, as on this platform"],
)
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
LD = np.longdouble
INV64 = LD(1) / LD(2) ** 64
CH = 1 << 20


def words64(k):
    s = set()
    for r in range(k + 1):
        for c in itertools.combinations(range(64), r):
            v = sum(1 << b for b in c)
            s.add(v)
            s.add(v ^ M64)
    for i in range(64):
        for j in range(i, 64):
            v = ((1 << (j - i + 1)) - 1) << i
            s.add(v & M64)
            s.add(~v & M64)
    for i in range(65):
        for d in range(-8, 9):
            s.add(((1 << i) + d) & M64)
    for hi in (0, 1, (1 << 53) - 1, 1 << 52, (1 << 52) - 1, 0x15555555555555):
        for lo in range(2048):
            s.add(hi << 11 | lo)
    return sorted(s)


def tasks(tier):
    out = [dict(kind="f32", lo=i << 26, hi=(i + 1) << 26) for i in range(64)]
    out.append(dict(kind="ld", k=3 if tier == "quick" else 4, tier=tier))
    if tier == "thorough":
        out += [dict(kind="ldrun", base=(i * 0x1111111111111111) & M64) for i in range(16)]
    out += [dict(kind="dbl", cfg=c.key, tier=tier) for c in CONFIGS]
    out += [dict(kind="inj", cfg=c.key, tier=tier) for c in CONFIGS]
    out += [dict(kind="out", dt=d, i=i) for d in ("d", "f", "longdouble") for i in range(4)]
    return out


def f32_chunk(lo, n, how):
    s = chelp.Source(ctr=lo)
    e = ExtendedGenerator(s.bg)
    if how == "out":
        got = np.empty(n, np.float32)
        e.random(dtype="f", out=got)
    elif how == "scalar":
        got = np.array([e.random(dtype=np.float32) for _ in range(n)])
    else:
        got = e.random(n, dtype="f")
    u = (np.arange(lo, lo + n, dtype=np.uint64) & np.uint64(M32)).astype(np.uint32)
    want = (u >> np.uint32(9)).astype(np.float64) / 8388608.0
    if not (got.astype(np.float64) == want).all():
        i = int(np.flatnonzero(got.astype(np.float64) != want)[0])
        return f"float32 of word {int(u[i]):#x} ({how}) is {got[i]!r}, not {want[i]!r}"
    if ((got < 0) | (got >= 1)).any():
        return "a float32 outside [0, 1)"
    return None


def ld_words(ws, how):
    s = chelp.Source(tape=ws)
    e = ExtendedGenerator(s.bg)
    if how == "array":
        got = e.random(len(ws), dtype="longdouble")
    elif how == "out":
        got = np.empty((len(ws), 1), LD)
        got = e.random(None, "longdouble", got)[:, 0]
    else:
        got = np.array([e.random(dtype=np.longdouble) for _ in ws])
    want = np.array(ws, dtype=np.uint64).astype(LD) * INV64
    bad = np.flatnonzero(~(got == want))
    if bad.size:
        i = int(bad[0])
        return f"long double of word {int(ws[i]):#x} ({how}) is {got[i]!r}, not {want[i]!r}"
    if ((got < 0) | (got >= 1)).any():
        return "a long double outside [0, 1)"
    return None


def compose(cfg, raws):
    """The documented double of the next raw values and how many it takes."""
    if cfg.dbl == "dsfmt":
        return struct.unpack("<d", struct.pack("<Q", raws[0]))[0] - 1.0
    if cfg.dbl == "mt":
        if cfg.dec == "s32hl":
            a, b = raws[0] >> 32, raws[0] & M32
        elif cfg.dec == "s32lh":
            a, b = raws[0] & M32, raws[0] >> 32
        else:
            a, b = raws[0], raws[1]
        return ((a >> 5) * 67108864.0 + (b >> 6)) / 9007199254740992.0
    u = raws[0] << 32 | raws[1] if cfg.dec == "w32" else raws[0]
    return (u >> 11) / 9007199254740992.0


def dbl_one(bg, cfg, st, n=1):
    """From this state, doubles through three interfaces against raw values."""
    per = 2 if cfg.dec == "w32" else 1
    bg.state = st
    raws = bg.random_raw(per * n).tolist()
    want = [compose(cfg, raws[per * i:per * i + per]) for i in range(n)]
    e = ExtendedGenerator(bg)
    for name, f in (("random()", lambda: [e.random() for _ in range(n)]),
                    ("random(n)", lambda: e.random(n).tolist()),
                    ("Generator.random", lambda: Generator(bg).random(n).tolist()),
                    ("ctypes", lambda: [bg.ctypes.next_double(bg.ctypes.state)
                                        for _ in range(n)])):
        if name == "ctypes" and n == 1:
            continue
        bg.state = st
        got = f()
        if got != want:
            return f"{name} of words {[hex(r) for r in raws[:4]]} gave {got[:3]}, not {want[:3]}"
        if not all(0.0 <= v < 1.0 for v in got):
            return f"{name} gave {got}"
    return None


def mt_untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & M32


def mt64_untemper(y):
    y ^= y >> 43
    y = y ^ ((y << 37) & 0xFFF7EEE000000000)
    x = y
    for _ in range(5):
        x = y ^ ((x << 17) & 0x71D67FFFEDA60000)
    y = x & M64
    x = y
    for _ in range(4):
        x = y ^ ((x >> 29) & 0x5555555555555555)
    return x & M64


EDGE32 = [0, 1, 31, 32, 33, 63, 64, 65, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, M32,
          M32 - 1, M32 - 31, M32 - 32, M32 - 63, M32 - 64, 0x55555555, 0xAAAAAAAA]
EDGE64 = sorted({v & M64 for i in (0, 9, 10, 11, 12, 31, 32, 33, 52, 53, 62, 63, 64)
                 for d in (-2048, -1025, -1024, -1023, -1, 0, 1, 1023, 1024, 2047)
                 for v in [(1 << i) + d]} | {0x5555555555555555, 0xAAAAAAAAAAAAAAAA})


def inject(cfg, base):
    """States after which the next raw values are (meant to be) boundary words. What
    they really are is read back, so nothing rests on these inversions."""
    c = cfg.cls
    w32 = cfg.word_bits == 32
    ws = [x for p in itertools.product(EDGE32, repeat=2) for x in p] if w32 else EDGE64
    inv3 = pow(5, -1, 1 << 64), pow(9, -1, 1 << 64)

    def rotr(x, k):
        return (x >> k | x << 64 - k) & M64

    def new():
        return copy.deepcopy(base)

    def blocks(n):
        for i in range(0, len(ws), n):
            yield (ws + ws)[i:i + n]

    if c == "MT19937":
        for b in blocks(624):
            st = new()
            st["state"]["key"][:] = [mt_untemper(x) for x in b]
            st["state"]["pos"] = 0
            yield st, 624 // 2
    elif c == "MT64":
        for b in blocks(312):
            b = (b * 312)[:312]
            st = new()
            st["state"]["key"][:] = [mt64_untemper(x) for x in b]
            st["state"]["pos"] = 0
            yield st, 312
    elif c in ("Philox", "ThreeFry"):
        n = len(base["buffer"])
        k = int(base["number"])
        for b in blocks(k):
            st = new()
            st["buffer"][:k] = b
            st["buffer_pos"] = 0
            yield st, k // 2 if cfg.dec == "w32" else k
    elif c == "SFC64":
        for x in ws:
            st = new()
            st["state"].update(a=0, b=0, w=x)
            yield st, 1
    elif c == "JSF":
        for x in (EDGE32 if cfg.dec == "w32" else EDGE64):
            st = new()
            st["state"].update(a=x, b=0, c=0, d=0)
            yield st, 1
    elif c in ("Xoshiro256", "Xoshiro512", "Xoroshiro128", "Xorshift1024", "LXM", "Romu"):
        for x in ws:
            for pos in (0, 1):
                st = new()
                for k in ("s", "x"):
                    a = st.get(k, st.get("state", {}).get(k)
                               if isinstance(st.get("state"), dict) else None)
                    if isinstance(a, np.ndarray):
                        a[:] = 0
                        a[pos] = rotr(x * inv3[1] & M64, 7) * inv3[0] & M64 if pos else x
                        if not a.any():
                            a[-1] = 1
                if isinstance(st.get("state"), np.ndarray):
                    a = st["state"]
                    a[:] = 0
                    a[pos] = rotr(x * inv3[1] & M64, 7) * inv3[0] & M64 if pos else x
                    if not a.any():
                        a[-1] = 1
                elif c == "Romu":
                    st["state"].update({"x": x, "y": 1})
                yield st, 1
    elif c in ("LCG128Mix", "PCG64", "PCG64DXSM"):
        for x in ws:
            st = new()
            st["state"]["state"] = x << 64 | 1
            yield st, 1
            st = new()
            st["state"]["state"] = x
            yield st, 1
            st = new()
            m = st["state"].get("multiplier", 47026247687942121848144207491837523525)
            st["state"]["state"] = (x - st["state"]["inc"]) * pow(m, -1, 1 << 128) % (1 << 128)
            yield st, 1
    elif c == "DSFMT":
        for b in blocks(382):
            b = (b * 382)[:382]
            st = new()
            a = st["state"]["state"]
            v = (np.array(b, dtype=np.uint64) >> np.uint64(12)) | np.uint64(0x3FF << 52)
            a[:382] = v
            st["state"]["idx"] = 0
            if "buffer_loc" in st:
                st["buffer_loc"] = 382
            yield st, 382
    elif c == "SFMT":
        for b in blocks(312):
            b = (b * 312)[:312]
            st = new()
            a = st["state"]["state"]
            a[:] = np.array(b, dtype=np.uint64).view(a.dtype)
            st["state"]["idx"] = 0
            yield st, 300
    elif c in ("AESCounter", "SPECK128", "ChaCha", "HC128"):
        sub = "s" if c == "AESCounter" else "state"
        for k, a in base[sub].items():
            name = {"AESCounter": "state", "SPECK128": "buffer", "ChaCha": "block",
                    "HC128": "buffer"}[c]
            if k != name:
                continue
            nb = a.size * a.dtype.itemsize
            per = nb // (4 if w32 else 8)
            for b in blocks(per):
                b = (b * per)[:per]
                st = new()
                t = np.array(b, dtype=np.uint32 if w32 else np.uint64)
                st[sub][k][:] = t.view(a.dtype)
                if "offset" in st[sub]:
                    st[sub]["offset"] = 0
                n = per // cfg.raw_words
                if c == "ChaCha":
                    st["state"]["ctr"][0] = 2
                    n -= 1
                if c == "HC128":
                    st["state"]["buffer_idx"] = 2
                    n -= 1
                yield st, n


# ------------------------------------------------------------------------- out
class Sub(np.ndarray):
    pass


def arrays(dt):
    """name -> (backing array, out argument, may it be filled)"""
    t = np.dtype(dt)
    S = t.itemsize
    o = {}

    def add(name, back, view, ok):
        o[name] = (back, view, ok)

    def guard(shape, order="C"):
        n = int(np.prod(shape, dtype=int))
        b = np.full(n + 4, 9, dtype=t)
        return b, b[2:2 + n].reshape(shape, order=order)

    for name, shape in (("1", (1,)), ("5", (5,)), ("0", (0,)), ("2x3", (2, 3)),
                        ("1x5", (1, 5)), ("5x1", (5, 1)), ("2x0", (2, 0)),
                        ("2x1x3", (2, 1, 3)), ("700", (700,))):
        add(name, *guard(shape), True)
    b, v = guard(())
    add("0-d", b, v, True)
    b, v = guard((2, 3), "F")
    add("F2x3", b, v, True)
    b, v = guard((2, 1, 3), "F")
    add("F2x1x3", b, v, True)
    b, v = guard((3, 2))
    add("3x2.T", b, v.T, True)
    b, v = guard((5,))
    add("subclass", b, v.view(Sub), True)
    b = np.full(12, 9, dtype=t)
    add("strided", b, b[1:11:2], False)
    b = np.full(9, 9, dtype=t)
    add("reversed", b, b[6:1:-1], False)
    b = np.full((4, 4), 9, dtype=t)
    add("window", b, b[1:3, 1:4], False)
    b = np.full(7, 9, dtype=t)
    v = b[1:6]
    v.flags.writeable = False
    add("read-only", b, v, False)
    b = np.full(9 * S, 9, dtype=np.uint8)
    add("misaligned", b, b[S + 1:S + 1 + 5 * S].view(t), False)
    b = np.full(7, 9, dtype=t)
    add("swapped", b, b[1:6].view(t.newbyteorder()), False)
    for other in ("f8", "f4", "g", "c8", "i8", "u8", "O", "c16", "i4"):
        if np.dtype(other) != t:
            b = np.full(7, 9, dtype=other)
            add("dtype " + other, b, b[1:6], False)
    b = np.full(3, 9, dtype=t)
    add("broadcast", b, np.broadcast_to(b[1:2], (5,)), False)
    add("list", np.zeros(1), [9.0] * 5, False)
    add("int", np.zeros(1), 5, False)
    add("str", np.zeros(1), "abcde", False)
    add("bytes", np.zeros(1), bytearray(40), False)
    return o


SIZES = [None, (), 0, 1, 5, 6, (5,), [5], np.int64(5), (2, 3), (3, 2), (1, 5), (5, 1),
         (2, 1, 3), (0,), (2, 0), (1,), 700]


def norm(size):
    if size is None:
        return None
    if isinstance(size, (list, tuple)):
        return tuple(int(x) for x in size)
    return (int(size),)


def out_one(dt, name, si, prior):
    back, view, ok = arrays(dt)[name]
    size = SIZES[si]
    tape = [(i * 0x9E3779B97F4A7C15 + 12345) & M64 for i in range(1500)]
    if dt == "f":
        tape = [x & M32 for x in tape]
    s = chelp.Source(tape=tape)
    e = ExtendedGenerator(s.bg)
    for _ in range(prior):
        e.uintegers()
    if dt == "d":
        vals = [(x >> 11) / 9007199254740992.0 for x in tape]
    elif dt == "f":
        vals = [(x >> 9) / 8388608.0 for x in tape]
    else:
        vals = [LD(x) * INV64 for x in tape]
    before = back.tobytes() if isinstance(back, np.ndarray) else None
    vb = copy.deepcopy(view) if not isinstance(view, np.ndarray) else None
    if ok and size is not None and norm(size) != view.shape:
        ok = False
    try:
        r = e.random(size, dt, view)
    except Exception as x:
        if ok:
            return f"refused: {type(x).__name__} {x}"
        if not isinstance(x, (ValueError, TypeError)):
            return f"refused with {type(x).__name__}"
        if before is not None and back.tobytes() != before:
            return "refused, but the array was changed"
        if vb is not None and view != vb:
            return "refused, but the argument was changed"
        if s.st.pos != prior:
            return f"refused after drawing {s.st.pos - prior} words"
        if not s.bg.lock.acquire(False):
            return "refused, and the lock is still held"
        s.bg.lock.release()
        return None
    if not ok:
        return "accepted"
    if r is not view:
        return "the result is not the out argument"
    n = view.size
    if s.st.pos != prior + n:
        return f"drew {s.st.pos - prior} words for {n} values"
    got = np.ravel(np.asarray(view), order="K")
    want = np.array(vals[prior:prior + n], dtype=dt)
    if not np.array_equal(got, want):
        return f"filled with {got[:4]}, not {want[:4]}"
    # nothing next to it was touched
    rest = back.copy()
    if not ((rest[:2] == 9).all() and (rest[len(rest) - 2:] == 9).all()):
        return "memory next to the array was changed"
    return None


def run(t):
    res = Res()
    k = t["kind"]

    def count(n):
        res.d["states"] += n
        res.d["transitions"] += n
        res.d["traces"] += n

    if k == "f32":
        for i, lo in enumerate(range(t["lo"], t["hi"], CH)):
            how = "out" if i % 8 == 3 else "array"
            m = f32_chunk(lo, CH, how)
            count(CH)
            if m:
                res.bad(dict(kind="f32", lo=lo, n=CH, how=how), m, key="f32 " + how)
        m = f32_chunk(t["hi"] - 1000, 2000, "scalar")
        if m:
            res.bad(dict(kind="f32", lo=t["hi"] - 1000, n=2000, how="scalar"), m)
    elif k == "ld":
        ws = words64(t["k"])
        for i in range(0, len(ws), 5000):
            w = ws[i:i + 5000]
            for how in ("array", "out") + (("scalar",) if i % 20000 == 0 else ()):
                m = ld_words(w, how)
                count(len(w))
                if m:
                    res.bad(dict(kind="ld", ws=w, how=how), m, key="ld " + how)
        res.sample(f"long double: {len(ws)} boundary words")
    elif k == "ldrun":
        for lo in range(0, 1 << 24, CH):
            ws = [(t["base"] + lo + i) & M64 for i in range(0, CH)]
            m = ld_words(ws, "array")
            count(CH)
            if m:
                res.bad(None, m, key="ldrun")
    elif k == "dbl":
        from mc.props import c06
        cfg = BYKEY[t["cfg"]]
        bg = cfg.make(1)
        step = 1 if t["tier"] == "thorough" else 3
        for i, (st, n) in enumerate(c06.states(cfg, "quick", cfg.make(1).state)):
            if i % step:
                continue
            m = dbl_one(bg, cfg, st)
            count(1)
            if m:
                res.bad(dict(kind="dbl", cfg=cfg.key, idx=i), f"{cfg.key}: {m}",
                        key=f"{cfg.key} dbl")
                break
        bg2 = cfg.make(3)
        m = dbl_one(bg2, cfg, bg2.state, 1500)
        if m:
            res.bad(dict(kind="stream", cfg=cfg.key), f"{cfg.key}: {m}")
    elif k == "inj":
        cfg = BYKEY[t["cfg"]]
        bg = cfg.make(1)
        seen = set()
        for i, (st, n) in enumerate(inject(cfg, cfg.make(1).state)):
            m = dbl_one(bg, cfg, st, n)
            count(n)
            if m:
                res.bad(dict(kind="inj", cfg=cfg.key, idx=i), f"{cfg.key}: {m}",
                        key=f"{cfg.key} inj")
                break
            bg.state = st
            seen.update(bg.random_raw(n).tolist())
        if seen:
            hit = len(seen & set(EDGE32 if cfg.word_bits == 32 and cfg.dec == "w32"
                                 else EDGE64))
            res.sample(f"{cfg.key}: {hit} boundary words injected as raw values")
    else:
        names = sorted(arrays(t["dt"]))
        for name in names[t["i"]::4]:
            for si in range(len(SIZES)):
                for prior in (0, 1):
                    m = out_one(t["dt"], name, si, prior)
                    count(1)
                    if m:
                        res.bad(dict(kind="out", dt=t["dt"], name=name, si=si, prior=prior),
                                f"random(size={SIZES[si]}, dtype={t['dt']!r}, out={name}): {m}",
                                key=f"out {t['dt']} {name} {m[:20]}")
    return res.out()


def replay(c):
    k = c["kind"]
    if k == "f32":
        m = f32_chunk(c["lo"], c["n"], c["how"])
    elif k == "ld":
        m = ld_words(c["ws"], c["how"])
    elif k in ("dbl", "inj"):
        from mc.props import c06
        cfg = BYKEY[c["cfg"]]
        base = cfg.make(1).state
        it = c06.states(cfg, "quick", base) if k == "dbl" else inject(cfg, base)
        st, n = next(itertools.islice(it, c["idx"], None))
        m = dbl_one(cfg.make(1), cfg, st, 1 if k == "dbl" else n)
    elif k == "stream":
        cfg = BYKEY[c["cfg"]]
        bg = cfg.make(3)
        m = dbl_one(bg, cfg, bg.state, 1500)
    else:
        m = out_one(c["dt"], c["name"], c["si"], c["prior"])
    return [m] if m else []
