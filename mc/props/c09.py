"""C09: equivalent encodings of integer arguments agree; invalid ones are refused."""
import copy
import itertools
import warnings

import numpy as np

import randomgen as rg

from mc import refs
from mc.core import Res
from mc.gens import BYKEY, CONFIGS
from mc.props.c08 import exact, inc_bits, inc_case, key_bits

META = dict(
    level="model_checking",
    bounds=dict(
        quick="every power of two of the width and its neighbours, all products of five "
              "boundary words over all words of the value, in every encoding (int, every "
              "numpy integer type it fits, list, tuple, arrays of several layouts, padded "
              "and not); every invalid kind at every word position",
        thorough="all products of seven boundary words"),
    assumptions=["the Python int is the meaning of a value; C08 shows that it arrives"],
)
M64 = (1 << 64) - 1
NPI = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]
SCALAR = {  # (class, argument) -> bits
    ("PCG32", "inc"): 64, ("PCG64", "inc"): 128, ("PCG64DXSM", "inc"): 128,
    ("LCG128Mix", "inc"): 128, ("Squares", "key"): 64, ("Squares", "counter"): 64,
    ("Tyche", "idx"): 32, ("LXM", "b"): 64, ("SFC64", "w"): 64, ("SFC64", "k"): 64,
}
WORDKEY = ["aes", "chacha20", "hc128", "speck128", "philox2x32", "philox4x32",
           "philox2x64", "philox4x64", "threefry2x32", "threefry4x32", "threefry2x64",
           "threefry4x64"]
SEEDED = ["jsf64", "pcg64-dxsm", "mt19937", "philox4x64", "sfc64", "squares64", "hc128",
          "xoshiro256", "romu-quad", "lxm", "pcg32", "tyche"]


def words(v, n=None):
    w = []
    while v or not w:
        w.append(v & M64)
        v >>= 64
    return w + [0] * ((n or 0) - len(w))


def npints(v):
    for t in NPI:
        i = np.iinfo(t)
        if i.min <= v <= i.max:
            yield t.__name__, t(v)


def strided(w):
    a = np.full(2 * len(w) + 1, 0xDEADBEEFDEADBEEF, np.uint64)
    a[::2][:len(w)] = w
    return a[::2][:len(w)]


def valid(v, nw):
    """(name, encoding, must be accepted)"""
    yield "int", v, True
    for n, x in npints(v):
        yield n, x, True
    if v in (0, 1):
        yield "bool", bool(v), False
    for n in sorted({len(words(v)), nw}):
        w = words(v, n)
        yield f"list{n}", list(w), True
        yield f"tuple{n}", tuple(w), True
        yield f"list of uint64 {n}", [np.uint64(x) for x in w], True
        a = np.array(w, np.uint64)
        yield f"array{n}", a, True
        yield f"strided{n}", strided(w), True
        yield f"reversed{n}", np.array(w[::-1], np.uint64)[::-1], True
        r = np.array(w, np.uint64)
        r.flags.writeable = False
        yield f"read-only{n}", r, True
        yield f"object{n}", np.array(w, object), False
        yield f"big-endian{n}", a.astype(">u8"), False
        for t in (np.int64, np.uint32, np.float64, np.uint8):
            if all(int(t(0).astype(t)) == 0 and 0 <= x < 100 for x in w):
                yield f"{t.__name__} array{n}", np.array(w, t), False
        if all(x < 2**53 for x in w):
            yield f"floats{n}", [float(x) for x in w], False
    yield "padded", words(v, nw + 1), False
    yield "padded array", np.array(words(v, nw + 1), np.uint64), False
    if v <= M64:
        yield "0-d", np.array(v, np.uint64), False
        yield "1x1", np.array([[v]], np.uint64), False
    if v < 2**53:
        yield "float", float(v), False


def invalid(bits, nw):
    top = 1 << bits
    for v in [-1, -2, -top, -(1 << bits - 1), top, top + 1, 2 * top, top + (1 << 64),
              top << 64, 1 << 400]:
        yield f"{v:#x}", v
    for t in (np.int8, np.int16, np.int32, np.int64):
        yield f"{t.__name__}(-1)", t(-1)
        yield f"{t.__name__} min", t(np.iinfo(t).min)
    if bits < 64:
        yield "uint64 too large", np.uint64(top)
    yield from [("1.5", 1.5), ("0.5", 0.5), ("-0.5", -0.5), ("nan", float("nan")),
                ("inf", float("inf")), ("-inf", float("-inf")), ("float64 1.5", np.float64(1.5)),
                ("str", "1"), ("bytes", b"1"), ("complex", 1 + 1j), ("dict", {}),
                ("object", object()), ("empty list", []), ("empty", np.array([], np.uint64)),
                ("empty tuple", ()), ("1e300", 1e300)]
    good = [3, 2**63 + 1, M64, 5]
    for n in range(1, nw + 1):
        for i in range(n):
            base = good[:n] if n <= 4 else good * 2
            if n * 64 > bits:
                base = [1] + [0] * (n - 1)
            for nm, x in [("-1", -1), ("2**64", 2**64), ("2**70", 2**70), ("-2**63", -2**63),
                          ("1.5", 1.5), ("nan", float("nan")), ("inf", float("inf")),
                          ("None", None), ("str", "1"), ("nested", [1]), ("int64(-1)", np.int64(-1))]:
                w = list(base)
                w[i] = x
                if nm == "nested" and n == 1:
                    w = [[1], [2]]
                yield f"list{n}[{i}]={nm}", w
                if nm in ("-1", "1.5", "nan", "inf", "-2**63"):
                    yield f"array{n}[{i}]={nm}", np.array(w)
    yield "2-d", np.array([[3, 4], [5, 6]], np.uint64)
    yield "2-d row", np.array([[3, 4]], np.uint64)
    yield "too long", [1] * (nw + 1)
    yield "too long array", np.array([1] * (nw + 1), np.uint64)
    if bits < 64:
        yield "list too large", [top]
        yield "array too large", np.array([top], np.uint64)


def values(bits, tier):
    s = {0}
    for k in range(bits + 1):
        s |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    B = [0, 1, 2**63 - 1, 2**63, M64]
    if tier == "thorough":
        B += [2**32, 2**53 + 1]
    nw = -(-bits // 64)
    for w in itertools.product(B, repeat=nw):
        s.add(sum(x << (64 * i) for i, x in enumerate(w)))
    return sorted(v for v in s if 0 <= v < 1 << bits)


def make(cfg, arg, x, seed=3):
    kw = dict(cfg.kw)
    kw[arg] = x
    if arg == "key":
        seed = None
    if arg == "counter":
        kw["key"] = 0x12345 if cfg.cls != "Squares" else 0x12345
        seed = None
    if cfg.cls == "SFC64" and arg in ("w", "k"):
        kw.setdefault("w", 1)
    return getattr(rg, cfg.cls)(seed, **kw)


def reseeded(cfg, arg, x):
    """The same through seed()."""
    kw = {arg: x}
    if arg == "counter":
        kw["key"] = 0x12345
    elif arg != "key":
        kw["seed"] = 3
    g = cfg.make(9)
    if cfg.cls in ("Tyche", "Squares"):
        g.seed(kw.pop("seed", None), **kw)
    else:
        g.seed(**kw)
    return g


def fields(cfg, bg):
    st = bg.state
    return (refs.CLASS[cfg.cls].of(st), st.get("has_uint32", 0))


def attempt(f):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(), None
    except Exception as e:
        return None, e


def touched(x, was):
    """The caller's own list or array has been written to."""
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.dtype != was.dtype or x.shape != was.shape or x.tobytes() != was.tobytes()
    return isinstance(x, list) and repr(x) != repr(was)


def check_arg(cfg, arg, name, x, want, must):
    """want: state fields or None for an encoding that has to be refused."""
    for how in (make, reseeded):
        if how is reseeded and arg in ("b", "w", "k"):
            continue
        was = copy.copy(x)
        got, e = attempt(lambda: fields(cfg, how(cfg, arg, x)))
        if touched(x, was):
            return f"{cfg.key}: {arg} as {name} ({was!r}) was overwritten with {x!r}"
        if e is not None:
            if want is not None and must:
                return f"{cfg.key}: {arg} as {name} ({x!r}) was refused: {e!r}"
        elif want is None:
            return f"{cfg.key}: {arg}={x!r} ({name}, invalid) was accepted by {how.__name__}"
        elif got != want:
            return (f"{cfg.key}: {arg} as {name} ({x!r}) gives {str(got)[:150]} instead of "
                    f"{str(want)[:150]} ({how.__name__})")
    return None


def arg_bits(cfg, arg):
    if cfg.cls in ("Squares",) or arg in ("inc", "idx", "b", "w", "k"):
        return SCALAR[cfg.cls, arg]
    return key_bits(cfg)[0 if arg == "key" else 1]


def encodings(cfg, arg, v):
    bits = arg_bits(cfg, arg)
    nw = -(-bits // 64)
    scalar = (cfg.cls, arg) in SCALAR
    for name, x, must in valid(v, nw):
        if scalar and isinstance(x, (list, tuple, np.ndarray)):
            must = False
            if np.ndim(x) and len(x) > 1:
                continue
        yield name, x, must


def same_as_int(what, go, v, name, x, must):
    was = copy.copy(x)
    got, e = attempt(lambda: go(x))
    if touched(x, was):
        return f"{what}({was!r}) has written {x!r} to its argument"
    if v is None:
        return None if e is not None else f"{what}({x!r}) was accepted"
    want, e2 = attempt(lambda: go(v))
    if e2 is not None:
        return None if e is not None else f"{what}({x!r}) was accepted, but not {v}"
    if e is not None:
        return f"{what}({x!r}) refused: {e!r}" if must else None
    if got != want:
        return f"{what}({x!r}) as {name} gives {got} instead of {want}"
    return None


def advance_case(cfg, v, name, x, must):
    kws = [{}]
    if "kw" in cfg.adv:
        kws = [dict(counter=False), dict(counter=True), {}]
    for kw in kws:
        for pos in (1, 4):
            def go(a):
                g = cfg.make(4)
                g.random_raw(pos)
                g.advance(a, **kw)
                return fields(cfg, g), g.random_raw(3).tolist()

            m = same_as_int(f"{cfg.key}: advance{kw or ''} from {pos}", go, v, name, x, must)
            if m:
                return m
    return None


# the classes that work out the distance of all the jumps first
LONGJUMP = ("AESCounter", "SPECK128", "Philox", "ThreeFry", "PCG32", "PCG64", "LCG128Mix")


def jump_encodings(cfg):
    vals = {0, 1, 2, 3, 5, 8, 100, 127, 128, 200}
    if cfg.cls in LONGJUMP:
        for k in range(63):
            vals |= {1 << k, (1 << k) - 1}
    if not cfg.adv:
        vals -= {100, 127, 128, 200}
    for v in sorted(vals):
        for n, x in npints(v):
            yield v, n, x, True
        yield v, "0-d", np.array(v), False
        yield v, "float", float(v), False
        yield v, "bool", bool(v), False
    # fractions are left out: parameters of C integer types truncate them
    for x in [float("nan"), None, {}, 1 + 1j, np.array([1, 2]), np.array([], int), object()]:
        yield None, "invalid", x, False


def jump_case(cfg, v, name, x, must):
    if name in ("0-d", "float", "bool") and x != v:
        return None
    for how in ("jumped", "jump"):
        def go(a):
            g = cfg.make(4)
            g.random_raw(1)
            r = getattr(g, how)(a)
            g = g if r is None else r
            return fields(cfg, g), g.random_raw(3).tolist()

        if not hasattr(cfg.make(1), how) or attempt(lambda: go(1))[1]:
            continue
        m = same_as_int(f"{cfg.key}: {how}", go, v, name, x, must)
        if m:
            return m
    return None


def adv_encodings(cfg):
    neg = cfg.adv.get("neg", True)
    top = cfg.adv["bits"]
    vals = {0, 1, 2, 3, 100}
    for k in range(0, top + (3 if neg else 0)):
        vals |= {1 << k, (1 << k) - 1}
    if neg:
        vals |= {-v for v in vals}
    for v in sorted(vals):
        yield v, "int", v, True
        for n, x in npints(v):
            yield v, n, x, True
        yield v, "0-d", np.array(v), False
        if abs(v) < 2**53:
            yield v, "float", float(v), False
    bad = [1.5, 0.5, -0.5, float("nan"), float("inf"), "1", None, [1, 2], {}, 1 + 1j,
           np.float64(2.5), np.array([1, 2]), np.array([], int), (1, 2), "", object()]
    if not neg:
        bad += [-1, 2**64, np.int64(-1), -2**63, 2**65]
    for x in bad:
        yield None, "invalid", x, False


def seed_case(cfg, v, name, x):
    def go(s):
        return fields(cfg, cfg.make(s))

    was = copy.copy(x)
    got, e = attempt(lambda: go(x))
    if touched(x, was):
        return f"{cfg.key}: seed {was!r} was overwritten with {x!r}"
    if v is None:
        return None if e is not None else f"{cfg.key}: seed {x!r} was accepted"
    if e is not None:
        return f"{cfg.key}: seed {x!r} ({name}) refused: {e!r}"
    if got != go(v):
        return f"{cfg.key}: seed {x!r} ({name}) differs from {v}"
    return None


def seed_encodings():
    vals = {0}
    for k in range(0, 200):
        vals |= {1 << k, (1 << k) - 1}
    for v in sorted(vals):
        for n, x in npints(v):
            yield v, n, x
        w, t = [], v
        while t or not w:
            w.append(t & 0xFFFFFFFF)
            t >>= 32
        yield v, "list of words", w
        yield v, "tuple of words", tuple(w)
        yield v, "uint32 array", np.array(w, np.uint32)
        yield v, "uint64 array of words", np.array(w, np.uint64)
        yield v, "int64 array of words", np.array(w, np.int64)
        yield v, "list of uint32", [np.uint32(i) for i in w]
    for x in [-1, np.int64(-1), [-1], [1, -1], np.array([-1]), 1.5, [1.5], np.array([1.5]),
              float("nan"), "x", ["x"], 1j, object(), np.array([1 + 1j])]:
        yield None, "invalid", x


def tasks(tier):
    out = []
    for k in WORDKEY:
        for a in ("key", "counter"):
            if a == "counter" and key_bits(BYKEY[k])[1] is None:
                continue
            n = 4 if k == "hc128" else 2
            out += [dict(kind="arg", cfg=k, arg=a, tier=tier, part=p, parts=n)
                    for p in range(n)]
    for (c, a) in SCALAR:
        cfg = next(x for x in CONFIGS if x.cls == c)
        out.append(dict(kind="arg", cfg=cfg.key, arg=a, tier=tier, part=0, parts=1))
    for c in CONFIGS:
        if c.adv:
            out.append(dict(kind="adv", cfg=c.key))
        if c.has_jump:
            out.append(dict(kind="jump", cfg=c.key))
    out += [dict(kind="seed", cfg=k) for k in SEEDED]
    return out


def run(task):
    res = Res()
    cfg = BYKEY[task["cfg"]]
    k = task["kind"]
    res.d["traces"] = 0

    def note(m, **case):
        res.d["traces"] += 1
        res.d["transitions"] += 2
        if m:
            res.bad(dict(task=task, **case), m, key=f"{cfg.key} {k} {sorted(case.items())}"[:150])

    if k == "arg":
        arg = task["arg"]
        bits = arg_bits(cfg, arg)
        vs = values(bits, task["tier"])
        if cfg.cls == "HC128":
            vs = vs[::6] if task["tier"] == "quick" else vs
        if cfg.cls == "Squares" and arg == "key":
            vs = [v | 1 for v in vs]
        for v in vs[task["part"]::task["parts"]]:
            want = fields(cfg, make(cfg, arg, v))
            res.d["states"] += 1
            m = None
            if arg in ("key",) and cfg.cls != "Squares":
                m = exact(cfg, v, None)
            elif arg == "counter" and cfg.cls != "Squares":
                m = exact(cfg, 0x12345 % (1 << key_bits(cfg)[0]), v)
            elif arg in ("inc", "idx"):
                m = inc_case(cfg, 3, v)
            elif cfg.cls == "Squares":
                m = exact(cfg, v if arg == "key" else 0x12345, v if arg == "counter" else None)
            else:
                st = make(cfg, arg, v).state["state"]
                # 12 rounds are made when seeding; w is the counter of the rounds
                w = {"b": v | 1, "k": v, "w": v + 12 & M64}[arg]
                if int(st[arg]) != w:
                    m = f"{cfg.key}: {arg}={v:#x} gives {st}"
            note(m, v=v, name="int")
            for name, x, must in encodings(cfg, arg, v):
                note(check_arg(cfg, arg, name, x, want, must), v=v, name=name)
            if len(res.violations) > 10:
                return res.out()
        if task["part"] == 0:
            for name, x in invalid(bits, -(-bits // 64)):
                if (cfg.cls, arg) in SCALAR and name in ("2-d row",):
                    continue
                note(check_arg(cfg, arg, name, x, None, False), v=None, name=name)
        res.sample(f"{cfg.key} {arg}: {len(vs)} values, e.g. {vs[-2]:#x}")
    elif k == "adv":
        for v, name, x, must in adv_encodings(cfg):
            res.d["states"] += 1
            note(advance_case(cfg, v, name, x, must), v=v, name=name + repr(x)[:40])
    elif k == "jump":
        for v, name, x, must in jump_encodings(cfg):
            res.d["states"] += 1
            note(jump_case(cfg, v, name, x, must), v=v, name=name + repr(x)[:40])
    else:
        for v, name, x in seed_encodings():
            res.d["states"] += 1
            note(seed_case(cfg, v, name, x), v=v, name=name + repr(x)[:40])
    return res.out()


def replay(case):
    t = case["task"]
    cfg, v, name = BYKEY[t["cfg"]], case["v"], case["name"]
    if t["kind"] == "arg":
        arg = t["arg"]
        bits = arg_bits(cfg, arg)
        if v is None:
            for n, x in invalid(bits, -(-bits // 64)):
                if n == name:
                    m = check_arg(cfg, arg, n, x, None, False)
                    if m:
                        return [m]
            return []
        r = run(dict(t, only=v, part=0, parts=1))
        return [x["msg"] for x in r["violations"] if x["case"]["v"] == v]
    it = (adv_encodings(cfg) if t["kind"] == "adv" else jump_encodings(cfg)
          if t["kind"] == "jump" else ((a, b, c, 1) for a, b, c in seed_encodings()))
    for w, n, x, must in it:
        if w == v and n + repr(x)[:40] == name:
            m = (advance_case(cfg, w, n, x, must) if t["kind"] == "adv" else
                 jump_case(cfg, w, n, x, must) if t["kind"] == "jump" else
                 seed_case(cfg, w, n, x))
            if m:
                return [m]
    return []
