"""Catalogue of the bit generator configurations and of how each composes draws.

Only the public Python API of the build under test is used.
"""
import ctypes
import struct
import warnings

import numpy as np
import randomgen as rg
from randomgen import ExtendedGenerator

warnings.simplefilter("ignore")

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1
PHI64 = 0x9E3779B97F4A7C15
PHI128 = 0x9E3779B97F4A7C15F39CC0605CEDC834


class Cfg:
    """One generator configuration.

    dec   how draws are composed from the underlying words
          b64    word = 64 bits = raw; 32-bit draws hand out low then high half
          w32    word = 32 bits = raw; a 64-bit draw is first<<32 | second
          s32lh  word = 32 bits; raw = 64-bit draw = second<<32 | first
          s32hl  word = 32 bits; raw = 64-bit draw = first<<32 | second
          dsfmt  word = raw = bit pattern of a double in [1,2)
    dbl   "53": (u64>>11)*2^-53; "mt": two words (a>>5, b>>6); "dsfmt": word-1
    block number of words made by one internal refill
    adv   None or dict(unit=words per unit, bits=log2(period in units), kw, neg)
    jump  documented distance of one jump in words, or None
    """

    def __init__(self, key, cls, kw=None, dec="b64", dbl="53", block=1,
                 adv=None, jump=None, has_jump=False, seeds="seed"):
        self.key, self.cls, self.kw = key, cls, dict(kw or {})
        self.dec, self.dbl, self.block = dec, dbl, block
        self.adv, self.jump = adv, jump
        self.has_jump = has_jump or jump is not None
        self.seeds = seeds

    def make(self, seed=1, **extra):
        kw = dict(self.kw)
        kw.update(extra)
        return getattr(rg, self.cls)(seed, **kw)

    @property
    def phase(self):
        """Raw draws after which position dependent bookkeeping repeats."""
        return dict(HC128=512, Xorshift1024=16, EFIIX64=32, MT19937=624,
                    MT64=312).get(self.cls, max(8, self.block // self.raw_words))

    @property
    def word_bits(self):
        return 64 if self.dec in ("b64", "dsfmt") else 32

    @property
    def raw_words(self):
        return 2 if self.dec.startswith("s32") else 1


CONFIGS = []


def _add(*a, **k):
    CONFIGS.append(Cfg(*a, **k))


_add("aes", "AESCounter", block=8, adv=dict(unit=1, bits=129), jump=2**64)
_add("chacha8", "ChaCha", dict(rounds=8), dec="s32lh", block=16)
_add("chacha20", "ChaCha", dict(rounds=20), dec="s32lh", block=16)
_add("dsfmt", "DSFMT", dec="dsfmt", dbl="dsfmt", block=382, has_jump=True)
_add("efiix64", "EFIIX64", block=32)
_add("hc128", "HC128", dec="s32lh", block=16)
_add("jsf64", "JSF")
_add("jsf64-ss3", "JSF", dict(seed_size=3))
_add("jsf64-pqr", "JSF", dict(p=39, q=11, r=0, seed_size=2))
_add("jsf32", "JSF", dict(size=32), dec="w32")
_add("jsf32-ss2", "JSF", dict(size=32, seed_size=2, p=9, q=16, r=0), dec="w32")
for _o in ("xsl-rr", "dxsm", "murmur3", "upper", "lower"):
    _add("lcg128-" + _o, "LCG128Mix", dict(output=_o), adv=dict(unit=1, bits=128),
         jump=PHI128)
_add("lcg128-pre", "LCG128Mix",
     dict(output="dxsm", post=False, multiplier=0xDA942042E4DD58B5,
          dxsm_multiplier=0xDA942042E4DD58B5),
     adv=dict(unit=1, bits=128), jump=PHI128)
_add("lxm", "LXM", jump=2**128)
_add("lxm-b", "LXM", dict(b=2**63 + 12345), jump=2**128)
_add("mt19937", "MT19937", dec="w32", dbl="mt", block=624, jump=2**128)
_add("mt64", "MT64", block=312)
_add("pcg32", "PCG32", dec="w32", dbl="mt", adv=dict(unit=1, bits=64), jump=PHI64 + 1)
for _v in ("xsl-rr", "dxsm", "dxsm-128"):
    _add("pcg64-" + _v, "PCG64", dict(variant=_v), adv=dict(unit=1, bits=128),
         jump=PHI128)
_add("pcg64dxsm", "PCG64DXSM", adv=dict(unit=1, bits=128), jump=PHI128)
for _c in ("Philox", "ThreeFry"):
    for _n in (2, 4):
        for _w in (32, 64):
            _add(f"{_c.lower()}{_n}x{_w}", _c, dict(number=_n, width=_w),
                 dec="w32" if _w == 32 else "b64",
                 dbl="mt" if _w == 32 else "53", block=_n,
                 adv=dict(unit=1, bits=_n * _w + _n // 2, kw=dict(counter=False)),
                 jump=None, has_jump=True)
_add("romu-quad", "Romu")
_add("romu-trio", "Romu", dict(variant="trio"))
_add("sfc64", "SFC64")
_add("sfc64-w", "SFC64", dict(w=None, k=0x1234567))
_add("sfmt", "SFMT", block=312, has_jump=True)
_add("speck128", "SPECK128", block=12, adv=dict(unit=1, bits=129), jump=2**64)
_add("speck128-r28", "SPECK128", dict(rounds=28), block=12,
     adv=dict(unit=1, bits=129), jump=2**64)
_add("squares64", "Squares", adv=dict(unit=1, bits=64, neg=False), jump=PHI64)
_add("squares32", "Squares", dict(variant=32), dec="s32lh", dbl="mt",
     adv=dict(unit=1, bits=64, neg=False), jump=PHI64)
_add("tyche", "Tyche", dec="s32hl", dbl="mt")
_add("tyche-openrand", "Tyche", dict(original=False), dec="s32hl", dbl="mt")
_add("xoroshiro128", "Xoroshiro128", jump=2**64)
_add("xoroshiro128pp", "Xoroshiro128", dict(plusplus=True), jump=2**64)
_add("xorshift1024", "Xorshift1024", jump=2**512)
_add("xoshiro256", "Xoshiro256", jump=2**128)
_add("xoshiro512", "Xoshiro512", jump=2**256)

BYKEY = {c.key: c for c in CONFIGS}


# ----------------------------------------------------------------- word tape
class Tape:
    """The underlying word sequence of a generator, taken with bulk raw draws
    from a private generator, and the documented composition of every draw."""

    def __init__(self, cfg, bg):
        self.cfg, self.bg, self.words = cfg, bg, []

    def word(self, i):
        while i >= len(self.words):
            raws = self.bg.random_raw(max(64, self.cfg.block * 2)).tolist()
            d = self.cfg.dec
            if d == "s32lh":
                for r in raws:
                    self.words += (r & M32, r >> 32)
            elif d == "s32hl":
                for r in raws:
                    self.words += (r >> 32, r & M32)
            else:
                self.words += raws
        return self.words[i]


class Model:
    """Reference state machine over a word tape: a position and at most one
    pending 32-bit half."""

    def __init__(self, tape, pos=0, half=None):
        self.t, self.cfg, self.pos, self.half = tape, tape.cfg, pos, half

    def _w(self):
        v = self.t.word(self.pos)
        self.pos += 1
        return v

    def raw(self):
        d = self.cfg.dec
        if d == "s32lh":
            a = self._w()
            return self._w() << 32 | a
        if d == "s32hl":
            a = self._w()
            return a << 32 | self._w()
        return self._w()

    def u64(self):
        d = self.cfg.dec
        if d == "w32":
            a = self._w()
            return a << 32 | self._w()
        if d == "dsfmt":
            a = (self._w() >> 16) & M32
            return a << 32 | ((self._w() >> 16) & M32)
        return self.raw()

    def u32(self):
        d = self.cfg.dec
        if d == "b64":
            if self.half is not None:
                v, self.half = self.half, None
                return v
            w = self._w()
            self.half = w >> 32
            return w & M32
        if d == "dsfmt":
            return (self._w() >> 16) & M32
        return self._w()

    def dbl(self):
        k = self.cfg.dbl
        if k == "53":
            return (self.u64() >> 11) * (1.0 / 9007199254740992.0)
        if k == "mt":
            a, b = self._w() >> 5, self._w() >> 6
            return (a * 67108864.0 + b) / 9007199254740992.0
        return struct.unpack("<d", struct.pack("<Q", self._w()))[0] - 1.0

    def flt(self):
        return (self.u32() >> 9) / 8388608.0

    def npflt(self):
        return (self.u32() >> 8) / 16777216.0

    def ldbl(self):
        return np.longdouble(self.u64()) * (
            np.longdouble(1) / np.longdouble(18446744073709551616))

    def key(self):
        return (self.pos, self.half)


# ------------------------------------------------------------------- helpers
def canon(x):
    """Hashable, comparison-exact form of a (nested) state."""
    if isinstance(x, dict):
        return tuple((k, canon(x[k])) for k in sorted(x))
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, np.generic):
        return x.item()
    return x


def apply_model(m, op):
    """The reference result of a draw op, as a list of exact values."""
    k, n = op[0], op[1]
    f = {"raw": m.raw, "u64": m.u64, "u32": m.u32, "dbl": m.dbl, "flt": m.flt,
         "ldbl": m.ldbl}[k]
    return [f() for _ in range(n if n else 1)]


def apply_real(bg, eg, op):
    """The same draw through the public API. size None when op[1] == 0."""
    k, n = op[0], op[1]
    size = n if n else None
    if k == "raw":
        v = bg.random_raw(size)
    elif k == "u64":
        v = eg.uintegers(size, bits=64)
    elif k == "u32":
        v = eg.uintegers(size, bits=32)
    elif k == "dbl":
        v = eg.random(size)
    elif k == "flt":
        v = eg.random(size, dtype=np.float32)
    elif k == "ldbl":
        v = eg.random(size, dtype=np.longdouble)
    else:
        raise KeyError(k)
    if n == 0:
        return [v]
    return list(v) if k == "ldbl" else v.tolist()


class Box:
    """A bit generator and an extended generator over it, plus history ops."""

    def __init__(self, bg):
        self.bg = bg
        self.eg = ExtendedGenerator(bg)

    def do(self, cfg, op):
        k = op[0]
        if k in ("raw", "u64", "u32", "dbl", "flt", "ldbl"):
            return apply_real(self.bg, self.eg, op)
        if k == "adv":
            self.bg.advance(op[1], **cfg.adv.get("kw", {}))
        elif k == "advc":
            self.bg.advance(op[1], counter=True)
        elif k == "jmp":
            self.__init__(self.bg.jumped(op[1]))
        elif k == "jin":
            self.bg.jump(op[1])
        elif k == "seed":
            self.bg.seed(op[1])
        elif k == "state":
            self.bg.state = self.bg.state
        elif k == "get":
            self.bg.state
        elif k == "norm":
            return [complex(v) for v in self.eg.complex_normal(size=op[1])]
        else:
            raise KeyError(k)
        return []
