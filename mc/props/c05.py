"""C05: every draw interface consumes one stream, in one documented order.

Explicit-state search: a state is (words consumed, pending 32-bit half); it is
reached by a live history (never by restoring a state), every draw operation of
every interface is applied to it, and the value as well as what follows is
compared with the reference composition of the word tape."""
import itertools

import numpy as np

from randomgen import ExtendedGenerator

from mc.core import Res
from mc.gens import BYKEY, CONFIGS, Model, Tape

META = dict(
    level="model_checking",
    bounds=dict(
        quick="all positions with/without pending half up to two internal blocks "
              "(boundary windows for blocks > 40), every operation in each, all "
              "sequences of <= 2 operations of different interfaces",
        thorough="every position up to three blocks, all sequences of <= 3 operations"),
    assumptions=["the word tape is what random_raw(n) returns in bulk; "
                 "C06 ties it to the published algorithms"],
)


class Rig:
    """A generator seen through all of its interfaces."""

    def __init__(self, cfg, seed=1, via=None):
        self.cfg = cfg
        self.bg = (via or cfg).make(seed)
        self.eg = ExtendedGenerator(self.bg)
        self.eg2 = ExtendedGenerator(self.bg)
        self.np = np.random.Generator(self.bg)
        self.ct = self.bg.ctypes
        self.cf = self.bg.cffi
        if via is not None:
            # built as another variant of the class, the state of this one set
            self.bg.random_raw()
            self.bg.state = cfg.make(1).state
            self.ct, self.cf = self.bg.ctypes, self.bg.cffi
            self.np = np.random.Generator(self.bg)

    def do(self, op):
        k, n = op
        bg, eg, g, ct, cf = self.bg, self.eg, self.np, self.ct, self.cf
        if k == "raw":
            v = bg.random_raw(n)
        elif k == "rawshape":
            v = bg.random_raw((2, n))
            if v.shape != (2, n) or v.dtype != np.uint64:
                return ["shape", v.shape]
        elif k == "rawdrop":
            v = bg.random_raw(n, output=False)
            return [] if v is None else ["not None", v]
        elif k == "raw0d":
            v = bg.random_raw(())
            if v.shape != ():
                return ["shape", v.shape]
        elif k == "rawdrop0d":
            v = bg.random_raw((), output=False)
            return [] if v is None else ["not None", v]
        elif k == "rawdropshape":
            v = bg.random_raw((n, 3), False)
            return [] if v is None else ["not None", v]
        elif k == "u64":
            v = eg.uintegers(n, bits=64)
        elif k == "u32":
            v = eg.uintegers(n, bits=32)
            if n is not None and v.dtype != np.uint32:
                return ["dtype", str(v.dtype)]
        elif k == "u32shape":
            v = self.eg2.uintegers((n, 2), bits=32)
            if v.shape != (n, 2):
                return ["shape", v.shape]
        elif k == "dbl":
            v = eg.random(n)
        elif k == "dblshape":
            v = eg.random((2, n))
            if v.shape != (2, n):
                return ["shape", v.shape]
        elif k == "dblout":
            v = np.full(n, -1.0)
            if eg.random(out=v) is not v:
                return ["out is not returned"]
        elif k == "flt":
            v = eg.random(n, dtype=np.float32)
        elif k == "fltout":
            v = np.full(n, -1.0, np.float32)
            self.eg2.random(out=v, dtype=np.float32)
        elif k == "ldbl":
            v = eg.random(n, dtype=np.longdouble)
            return [v] if n is None else list(v.ravel())
        elif k == "np-dbl":
            v = g.random(n)
        elif k == "np-flt":
            v = g.random(n, dtype=np.float32)
        elif k == "np-u32":
            v = g.integers(0, 2**32, size=n, dtype=np.uint32)
        elif k == "np-u64":
            v = g.integers(0, 2**64, size=n, dtype=np.uint64)
        elif k == "np-bytes":
            return list(g.bytes(n))
        elif k == "ct-u64":
            v = ct.next_uint64(ct.state)
        elif k == "ct-u32":
            v = ct.next_uint32(ct.state)
        elif k == "ct-dbl":
            v = ct.next_double(ct.state)
        elif k == "cf-u64":
            v = cf.next_uint64(cf.state)
        elif k == "cf-u32":
            v = cf.next_uint32(cf.state)
        elif k == "cf-dbl":
            v = cf.next_double(cf.state)
        else:
            raise KeyError(k)
        if isinstance(v, np.ndarray):
            return v.ravel().tolist()
        return [v.item() if isinstance(v, np.generic) else v]


def ref(m, op):
    k, n = op
    c = 1 if n is None else n
    if k in ("raw", "rawshape", "raw0d"):
        return [m.raw() for _ in range(c * (2 if k == "rawshape" else 1))]
    if k in ("rawdrop", "rawdropshape", "rawdrop0d"):
        for _ in range(c * (3 if k == "rawdropshape" else 1)):
            m.raw()
        return []
    if k in ("u64", "np-u64", "ct-u64", "cf-u64"):
        return [m.u64() for _ in range(c)]
    if k in ("u32", "np-u32", "ct-u32", "cf-u32", "u32shape"):
        return [m.u32() for _ in range(c * (2 if k == "u32shape" else 1))]
    if k in ("dbl", "dblout", "np-dbl", "ct-dbl", "cf-dbl", "dblshape"):
        return [m.dbl() for _ in range(c * (2 if k == "dblshape" else 1))]
    if k in ("flt", "fltout"):
        return [m.flt() for _ in range(c)]
    if k == "np-flt":
        return [m.npflt() for _ in range(c)]
    if k == "ldbl":
        return [m.ldbl() for _ in range(c)]
    if k == "np-bytes":
        b = b"".join(m.u32().to_bytes(4, "little") for _ in range((n + 3) // 4))
        return list(b[:n])
    raise KeyError(k)


ALPHA = [("raw", None), ("raw", 1), ("raw", 3), ("raw", 0), ("rawshape", 2),
         ("rawdrop", None), ("rawdrop", 2), ("rawdrop", 0), ("rawdropshape", 2),
         ("raw0d", None), ("rawdrop0d", None),
         ("u64", None), ("u64", 3), ("u32", None), ("u32", 1), ("u32", 2), ("u32", 3),
         ("u32", 0), ("u32shape", 2),
         ("dbl", None), ("dbl", 3), ("dblshape", 2), ("dblout", 2), ("dbl", 0),
         ("flt", None), ("flt", 3), ("fltout", 2), ("ldbl", None), ("ldbl", 3),
         ("np-dbl", None), ("np-dbl", 3), ("np-flt", None), ("np-flt", 3),
         ("np-u32", None), ("np-u32", 3), ("np-u64", None), ("np-u64", 2),
         ("np-bytes", 5), ("ct-u64", None), ("ct-u32", None), ("ct-dbl", None),
         ("cf-u64", None), ("cf-u32", None), ("cf-dbl", None)]
SHORT = [("raw", None), ("raw", 3), ("rawdrop", 2), ("u64", None), ("u32", None),
         ("u32", 3), ("dbl", None), ("dbl", 2), ("flt", None), ("ldbl", None),
         ("np-dbl", 2), ("np-flt", None), ("np-u32", None), ("ct-u64", None),
         ("ct-u32", None), ("ct-dbl", None), ("cf-u32", None)]
# longer than a block, to make bulk calls cross refills
TAIL = [("u32", None), ("raw", None), ("u32", None), ("dbl", None), ("u32", 2)]


def bulk(cfg):
    n = cfg.block + 3
    return [("raw", n), ("rawdrop", n), ("u64", n), ("u32", 2 * n + 1), ("dbl", n),
            ("flt", 2 * n + 1), ("ldbl", n), ("np-dbl", n), ("np-u32", 2 * n + 1),
            ("np-bytes", 8 * n + 3)]


def same(a, b):
    if len(a) != len(b):
        return False
    return all(x == y for x, y in zip(a, b))


def play(cfg, tape, seq, via=None):
    """None or what is wrong with the last operations of seq."""
    r, m = Rig(cfg, via=via), Model(tape)
    for op in seq:
        got, want = r.do(op), ref(m, op)
        if not same(got, want):
            return (f"{cfg.key}: {op} at word {m.pos} in {seq} gave {str(got)[:160]}, "
                    f"documented {str(want)[:160]}")
    return None


def positions(cfg, tier):
    """Raw draws that precede the state, with and without a pending half."""
    raws = cfg.block // cfg.raw_words
    if raws <= 40:
        return list(range((2 if tier == "quick" else 3) * raws + 2))
    if tier == "quick":
        p = set(range(3)) | set(range(raws - 4, raws + 3)) | set(
            range(2 * raws - 3, 2 * raws + 2))
        return sorted(p)
    return list(range(2 * raws + 2))


def tasks(tier):
    out = []
    for c in CONFIGS:
        p = positions(c, tier)
        step = 16 if tier == "quick" else 64
        for i in range(0, len(p), step):
            out.append(dict(cfg=c.key, kind="pos", pos=p[i:i + step]))
        out.append(dict(cfg=c.key, kind="seq", n=2 if tier == "quick" else 3))
        for o in CONFIGS:
            if o.cls == c.cls and o.key != c.key:
                out.append(dict(cfg=c.key, kind="via", via=o.key))
    out.sort(key=lambda t: t["kind"] != "seq")
    return out


def run(task):
    res = Res()
    cfg = BYKEY[task["cfg"]]
    tape = Tape(cfg, cfg.make(1))
    seen = set()

    via = BYKEY[task["via"]] if "via" in task else None

    def check(seq):
        m = Model(tape)
        for op in seq:
            ref(m, op)
            seen.add(m.key())
            res.d["transitions"] += 1
        what = play(cfg, tape, seq, via)
        res.d["traces"] += 1
        if what:
            res.bad(dict(cfg=cfg.key, seq=seq, via=task.get("via")), what,
                    key=f"{cfg.key} {seq[-1]} {len(res.violations)}"[:80])

    if task["kind"] == "pos":
        for p in task["pos"]:
            # arrive in bulk, one by one, and by 32-bit draws (w/o pending half)
            pres = [[("raw", p)]]
            if p:
                pres.append([("rawdrop", p - 1), ("u32", None)])
            pres.append([("raw", p), ("u32", None)])
            for pre in pres:
                for op in ALPHA + bulk(cfg):
                    check(pre + [op] + TAIL)
                    if len(res.violations) > 8:
                        return res.out()
    elif via is not None:
        for op in ALPHA + bulk(cfg):
            for pre in ([], [("u32", None)]):
                check(pre + [op] + TAIL)
    else:
        n = task["n"]
        for k in range(1, n + 1):
            for seq in itertools.product(ALPHA if k <= 2 else SHORT, repeat=k):
                check(list(seq) + TAIL[:3])
                if len(res.violations) > 8:
                    return res.out()
    res.d["states"] = len(seen)
    res.sample(f"{cfg.key}: {task['kind']} {str(task)[:80]}, {res.d['traces']} traces")
    return res.out()


def replay(case):
    cfg = BYKEY[case["cfg"]]
    seq = [(a, b) for a, b in case["seq"]]
    m = play(cfg, Tape(cfg, cfg.make(1)), seq,
             BYKEY[case["via"]] if case.get("via") else None)
    return [m] if m else []
