"""C15: UserBitGenerator derives every draw from the user's functions as documented.

Every subset of supplied functions x word size x state pointer x constructor (Python
functions, compiled functions, numba-like callbacks) x sequence of draws up to the
depth through every interface. Each user function writes a log, and the log and the
values are compared with the documented composition."""
import ctypes
import gc
import itertools
import sys
import types

import numpy as np
from numpy.random import Generator
from randomgen import ExtendedGenerator, UserBitGenerator

from mc import chelp
from mc.core import Res

META = dict(
    level="model_checking",
    bounds=dict(
        quick="2 word sizes x 8 subsets of functions x 4 kinds of state pointer x all draw "
              "sequences of length <= 3 over 15 operations; every boundary word or pair of "
              "boundary words through every operation; all getter/setter combinations; "
              "compiled functions likewise; every invalid argument kind",
        thorough="sequences of length <= 4"),
    assumptions=["numba is not installed: from_cfunc is driven with a stand-in CFunc class"],
)
M32, M64 = (1 << 32) - 1, (1 << 64) - 1
D53 = 9007199254740992.0
TAG = dict(next_raw=0, next_64=0xA5A5A5A5A5A5A5A5, next_32=0x5A5A5A5A, next_double=3)

OPS = ["raw", "raw3", "rawoff", "u64", "u64x2", "u32", "u32x3", "dbl", "dblx2", "flt", "ldbl",
       "np53", "npint", "ct", "cf"]


def words(bits, n=64):
    return [(i * 0x9E3779B97F4A7C15 + 0x123456789ABCDEF) & (M64 if bits == 64 else M32)
            for i in range(n)]


class Model:
    def __init__(self, bits, subset, tape):
        self.bits, self.subset, self.tape, self.pos, self.log = bits, subset, tape, 0, []

    def w(self, name):
        self.log.append(name)
        v = self.tape[self.pos]
        self.pos += 1
        return v

    def raw(self):
        return self.w("next_raw")

    def u64(self):
        if "next_64" in self.subset:
            return self.w("next_64") ^ TAG["next_64"]
        if self.bits == 64:
            return self.raw()
        a = self.raw()
        return a << 32 | self.raw()

    def u32(self):
        if "next_32" in self.subset:
            return (self.w("next_32") ^ TAG["next_32"]) & M32
        return self.raw() if self.bits == 32 else self.raw() >> 32

    def dbl(self):
        if "next_double" in self.subset:
            return ((self.w("next_double") ^ TAG["next_double"]) >> 11) / D53
        if self.bits == 64:
            return (self.raw() >> 11) / D53
        a, b = self.raw() >> 5, self.raw() >> 6
        return (a * 67108864.0 + b) / D53

    def do(self, op):
        if op == "raw":
            return [self.raw()]
        if op == "raw3":
            return [self.raw() for _ in range(3)]
        if op == "rawoff":
            self.raw(), self.raw()
            return []
        if op in ("u64", "npint"):
            return [self.u64()]
        if op == "u64x2":
            return [self.u64(), self.u64()]
        if op == "u32":
            return [self.u32()]
        if op == "u32x3":
            return [self.u32() for _ in range(3)]
        if op in ("dbl", "np53"):
            return [self.dbl()]
        if op == "dblx2":
            return [self.dbl(), self.dbl()]
        if op == "flt":
            return [(self.u32() >> 9) / 8388608.0]
        if op == "ldbl":
            return [np.longdouble(self.u64()) * (np.longdouble(1) / np.longdouble(2) ** 64)]
        return [self.u64(), self.u32(), self.dbl()]


class Real:
    """A generator over Python functions that write a log."""

    def __init__(self, bits, subset, tape, state=None, getter=None, setter=None):
        self.tape, self.pos, self.log, self.args = tape, 0, [], set()

        def make(name):
            def f(p):
                self.log.append(name)
                self.args.add(p)
                v = self.tape[self.pos] ^ TAG[name]
                self.pos += 1
                if name == "next_32":
                    return v & M32
                return v if name != "next_double" else (v >> 11) / D53
            return f
        kw = {n: make(n) for n in subset}
        if state is not None:
            kw["state"] = state
        self.bg = UserBitGenerator(make("next_raw"), bits, state_getter=getter,
                                   state_setter=setter, **kw)
        self.wrap()

    def wrap(self):
        self.eg, self.g = ExtendedGenerator(self.bg), Generator(self.bg)

    def do(self, op):
        e = self.eg
        if op == "raw":
            return [self.bg.random_raw()]
        if op == "raw3":
            return self.bg.random_raw(3).tolist()
        if op == "rawoff":
            self.bg.random_raw(2, output=False)
            return []
        if op == "u64":
            return [e.uintegers()]
        if op == "u64x2":
            return e.uintegers(2).tolist()
        if op == "u32":
            return [e.uintegers(bits=32)]
        if op == "u32x3":
            return e.uintegers(3, bits=32).tolist()
        if op == "dbl":
            return [e.random()]
        if op == "dblx2":
            return e.random(2).tolist()
        if op == "flt":
            return [float(e.random(dtype=np.float32))]
        if op == "ldbl":
            return [e.random(dtype="longdouble")]
        if op == "np53":
            return [self.g.random()]
        if op == "npint":
            return [int(self.g.integers(0, M64, dtype=np.uint64, endpoint=True))]
        if op == "ct":
            i = self.bg.ctypes
            return [i.next_uint64(i.state), i.next_uint32(i.state), i.next_double(i.state)]
        i = self.bg.cffi
        return [int(i.next_uint64(i.state)), int(i.next_uint32(i.state)),
                i.next_double(i.state)]


class CReal(Real):
    """Over compiled functions; the log is their call counts."""

    def __init__(self, tape, cfunc=False, getter=None, setter=None, state="ptr"):
        s = chelp.Source(tape=tape)
        L = chelp.lib()
        self.s, self.tape = s, tape
        fs = [L.mc_raw, L.mc_64, L.mc_32, L.mc_double]
        ptr = ctypes.pointer(s.st) if state == "typed" else s.ptr
        if cfunc:
            self.bg = with_numba(fs, ptr, getter, setter)
        else:
            self.bg = UserBitGenerator.from_ctypes(*fs, ptr, state_getter=getter,
                                                   state_setter=setter)
        self.wrap()

    @property
    def log(self):
        return list(self.s.st.calls)


class CModel(Model):
    def __init__(self, tape):
        Model.__init__(self, 64, ("next_64", "next_32", "next_double"), tape)

    def u64(self):
        return self.w("next_64")

    def u32(self):
        return self.w("next_32") & M32

    def dbl(self):
        return (self.w("next_double") >> 11) / D53

    def counts(self):
        return [self.log.count(n) for n in ("next_raw", "next_64", "next_32", "next_double")]


def with_numba(fs, ptr, getter, setter):
    class CFunc:
        def __init__(self, f):
            self.ctypes = f
    mods = {n: types.ModuleType(n) for n in ("numba", "numba.core", "numba.core.ccallback")}
    mods["numba.core.ccallback"].CFunc = CFunc
    mods["numba"].core = mods["numba.core"]
    mods["numba.core"].ccallback = mods["numba.core.ccallback"]
    old = {n: sys.modules.get(n) for n in mods}
    sys.modules.update(mods)
    try:
        return UserBitGenerator.from_cfunc(*[CFunc(f) for f in fs], ptr,
                                           state_getter=getter, state_setter=setter)
    finally:
        for n, m in old.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m


SUBSETS = [c for r in range(4)
           for c in itertools.combinations(("next_64", "next_32", "next_double"), r)]
_buf = (ctypes.c_uint64 * 4)()
STATES = dict(none=None, void=ctypes.c_void_p(ctypes.addressof(_buf) + 8),
              pointer=ctypes.pointer(_buf), null=ctypes.c_void_p(0),
              high=ctypes.c_void_p((1 << 64) - 8))


def address(kind):
    return {"none": None, "null": None, "void": ctypes.addressof(_buf) + 8,
            "pointer": ctypes.addressof(_buf), "high": (1 << 64) - 8}[kind]


def seq_one(bits, subset, st, ops, tape=None):
    tape = tape or words(bits)
    m = Model(bits, subset, tape)
    r = Real(bits, subset, tape, STATES[st])
    for i, op in enumerate(ops):
        want, got = m.do(op), r.do(op)
        if r.log != m.log:
            return f"step {i} {op}: called {r.log[-6:]}, not {m.log[-6:]}"
        if got != want:
            return f"step {i} {op}: gave {got}, not {want}"
    if r.args - {address(st)}:
        return f"functions were given {r.args}, not {address(st)}"
    return None


def cseq_one(cfunc, state, ops, tape=None):
    tape = tape or words(64)
    m, r = CModel(tape), CReal(tape, cfunc, state=state)
    for i, op in enumerate(ops):
        want, got = m.do(op), r.do(op)
        if r.log != m.counts():
            return f"step {i} {op}: call counts {r.log}, not {m.counts()}"
        if got != want:
            return f"step {i} {op}: gave {got}, not {want}"
    return None


def state_one(kind, getter, setter):
    """State access goes through the user's functions only."""
    log = []
    token, value = object(), {"any": [1, 2]}

    def get():
        log.append("get")
        return token

    def put(v):
        log.append(("set", v))
    g, s = get if getter else None, put if setter else None
    if kind == "python":
        r = Real(64, (), words(64), getter=g, setter=s)
    else:
        r = CReal(words(64), kind == "cfunc", getter=g, setter=s)
    first = list(r.log)
    for who in (r.bg, r.eg):
        try:
            v = who.state
            if not getter:
                return "reading the state without a getter did not raise"
            if v is not token:
                return "the state read is not what the getter returned"
        except NotImplementedError:
            if getter:
                return "reading the state raised NotImplementedError"
        if log != (["get"] if getter else []):
            return f"reading the state called {log}"
        log.clear()
        try:
            who.state = value
            if not setter:
                return "setting the state without a setter did not raise"
        except NotImplementedError:
            if setter:
                return "setting the state raised NotImplementedError"
        if setter and not (len(log) == 1 and log[0][0] == "set" and log[0][1] is value):
            return f"setting the state called {log}"
        if not setter and log:
            return f"setting the state called {log}"
        log.clear()
    if list(r.log) != first:
        return "state access drew values"
    return None


def life_one(kind, bits):
    """Nothing but the generator keeps the functions and the state pointer alive."""
    calls = []

    def build():
        n = [0]

        def f(p, n=n):
            n[0] += 1
            calls.append(p)
            return n[0]
        if kind == "python":
            p = ctypes.c_void_p(ctypes.addressof(_buf))
            return UserBitGenerator(f, bits, state=p)
        T = [ctypes.CFUNCTYPE(t, ctypes.c_void_p) for t in
             (ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double)]
        return UserBitGenerator.from_ctypes(*[t(f) for t in T],
                                            ctypes.c_void_p(ctypes.addressof(_buf)))
    bgs = [build() for _ in range(4)]
    gc.collect()
    trash = [ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)(lambda p: 99)
             for _ in range(50)]
    for bg in bgs:
        e = ExtendedGenerator(bg)
        if bg.random_raw(2).tolist() != [1, 2]:
            return "raw values are not those of the function given"
        got = [e.uintegers(), e.uintegers(bits=32), bg.random_raw()]
        if kind == "ctypes":
            want = [3, 4, 5]
        elif bits == 64:
            want = [3, 0, 5]
        else:
            want = [3 << 32 | 4, 5, 6]
        if got != want:
            return f"gave {got}, not {want}"
    if set(calls) != {ctypes.addressof(_buf)}:
        return f"functions were given {set(calls)}"
    del trash
    return None


def bad_one(what):
    L = chelp.lib()
    f = [L.mc_raw, L.mc_64, L.mc_32, L.mc_double]
    wrong = ctypes.CFUNCTYPE(ctypes.c_int16, ctypes.c_void_p)(lambda p: 1)
    p = ctypes.c_void_p(0)
    kind, i, v = what

    def raw(x):
        return 1
    try:
        if kind == "bits":
            UserBitGenerator(raw, v)
        elif kind == "callable":
            a = [raw, 64, None, None, None]
            a[(0, 2, 3, 4)[i]] = [7, "f", b"x"][v]
            UserBitGenerator(*a)
        elif kind == "ctypes":
            g = list(f)
            g[i] = [wrong, raw, 7, None][v]
            UserBitGenerator.from_ctypes(*g, p)
        else:
            g = list(f)
            g[i] = [raw, f[i], None][v]
            with_numba_bad(g, p, i)
    except (TypeError, ValueError):
        return None
    return "accepted"


def with_numba_bad(g, p, i):
    class CFunc:
        def __init__(self, f):
            self.ctypes = f
    m = types.ModuleType("numba.core.ccallback")
    m.CFunc = CFunc
    mods = {"numba": types.ModuleType("numba"), "numba.core": types.ModuleType("numba.core"),
            "numba.core.ccallback": m}
    sys.modules.update(mods)
    try:
        UserBitGenerator.from_cfunc(*[x if k == i else CFunc(x) for k, x in enumerate(g)], p)
    finally:
        for n in mods:
            sys.modules.pop(n, None)


BAD = ([("bits", 0, v) for v in (0, 16, 31, 33, 63, 65, 128, -32, -64, "64", None)] +
       [("callable", i, v) for i in range(4) for v in range(3)] +
       [("ctypes", i, v) for i in range(4) for v in range(4)] +
       [("cfunc", i, v) for i in range(4) for v in range(3)])

EDGE32 = [0, 1, 31, 32, 33, 63, 64, 65, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, M32,
          M32 - 1, M32 - 31, M32 - 32, M32 - 63, M32 - 64, 0x55555555, 0xAAAAAAAA]
EDGE64 = sorted({v & M64 for i in (0, 8, 9, 10, 11, 12, 31, 32, 33, 52, 53, 62, 63, 64)
                 for d in (-2048, -1025, -1024, -1023, -1, 0, 1, 1023, 1024, 2047)
                 for v in [(1 << i) + d]} | {0x5555555555555555, 0xAAAAAAAAAAAAAAAA})


def tasks(tier):
    depth = 3 if tier == "quick" else 4
    out = [dict(k="seq", bits=b, s=list(s), st=st, depth=depth if st == "void" else 1 + (st == "none"))
           for b in (32, 64) for s in SUBSETS for st in STATES]
    out += [dict(k="edge", bits=b, s=list(s)) for b in (32, 64) for s in SUBSETS]
    out += [dict(k="cseq", cfunc=c, st=st, depth=depth) for c in (False, True)
            for st in ("ptr", "typed")]
    out.append(dict(k="misc"))
    return out


def cases(t):
    k = t["k"]
    if k == "seq":
        # every step of a sequence is judged, so this covers the shorter ones
        for ops in itertools.product(OPS, repeat=t["depth"]):
            if t["depth"] == 4 and len(set(ops)) < 3:
                continue
            yield "seq", (t["bits"], t["s"], t["st"], ops)
    elif k == "edge":
        if t["bits"] == 32:
            tapes = [[a, b] + [a, b] * 3 for a in EDGE32 for b in EDGE32]
        else:
            tapes = [[a, a ^ M64] * 4 for a in EDGE64]
        for tape in tapes:
            for op in OPS:
                yield "seq", (t["bits"], t["s"], "none", (op,), tape)
    elif k == "cseq":
        for ops in itertools.product(OPS, repeat=t["depth"]):
            yield "cseq", (t["cfunc"], t["st"], ops)
        for a in EDGE64:
            for op in OPS:
                yield "cseq", (t["cfunc"], t["st"], (op,), [a, a ^ M64] * 4)
    else:
        for kind in ("python", "ctypes", "cfunc"):
            for g in (False, True):
                for s in (False, True):
                    yield "state", (kind, g, s)
        for kind in ("python", "ctypes"):
            for b in (32, 64):
                yield "life", (kind, b)
        for b in BAD:
            yield "bad", (list(b),)


FUN = dict(seq=seq_one, cseq=cseq_one, state=state_one, life=life_one, bad=bad_one)


def run(t):
    res = Res()
    n = 0
    for f, a in cases(t):
        m = FUN[f](*a)
        n += 1
        if m:
            res.bad(dict(f=f, a=a), f"{f}{a}: {m}", key=f"{f} {a[:3]} {m[:20]}")
            if len(res.violations) > 5:
                break
    res.d["states"] = res.d["traces"] = n
    res.d["transitions"] = n
    res.sample(f"{t}: {n} cases")
    return res.out()


def replay(c):
    m = FUN[c["f"]](*c["a"])
    return [m] if m else []
