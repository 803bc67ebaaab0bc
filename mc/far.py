"""Words at any distance in the stream of a generator with advance, obtained
without advance or jump: by the closed form of the linear congruential state, or
by constructing the generator with the counter of the block wanted."""
import randomgen as rg

from mc.gens import M64, Model

# LCG multipliers and the bits of the state, by configuration prefix
MULT128 = 47026247687942121848144207491837523525  # 0x2360ED051FC65DA44385DF649FCCF645
CHEAP = 0xDA942042E4DD58B5
MULT64 = 6364136223846793005


def lcg_at(s, a, c, n, bits):
    """State after n steps of s -> a s + c mod 2**bits."""
    m = 1 << bits
    n %= m
    aa, cc = 1, 0
    ca, ccur = a, c
    while n:
        if n & 1:
            aa, cc = aa * ca % m, (cc * ca + ccur) % m
        ca, ccur = ca * ca % m, (ccur * ca + ccur) % m
        n >>= 1
    return (s * aa + cc) % m


def lcg_params(cfg, st):
    if cfg.cls == "PCG32":
        return MULT64, 64
    if cfg.cls == "PCG64DXSM" or cfg.key == "pcg64-dxsm":
        return CHEAP, 128
    if cfg.cls == "LCG128Mix":
        return st["state"]["multiplier"], 128
    return MULT128, 128


KEYS = {"AESCounter": 0x0123456789ABCDEF_1122334455667788,
        "SPECK128": 0x0123456789ABCDEF_1122334455667788_99AABBCCDDEEFF00_1,
        "Squares": 0x7692B45E81D3FC19}


class FarTape:
    """word(i) for any i modulo the period."""

    def __init__(self, cfg, counter0=5, seed=1, state=None):
        self.cfg, self.c0, self.seed = cfg, counter0, seed
        self.period = (1 << cfg.adv["bits"])
        self.lcg = cfg.cls in ("PCG32", "PCG64", "PCG64DXSM", "LCG128Mix")
        self.chunks = {}
        if self.lcg:
            self.st = state if state is not None else cfg.make(seed).state
        # words of one counter value
        self.per = {"AESCounter": 2, "SPECK128": 2, "Squares": 1}.get(
            cfg.cls, cfg.kw.get("number", 1))

    def start(self):
        """A generator whose next word is word 0."""
        return self._gen(0)

    def _gen(self, i):
        """A generator whose next word is word i (a multiple of per)."""
        cfg = self.cfg
        if self.lcg:
            a, bits = lcg_params(cfg, self.st)
            st = dict(self.st)
            st["state"] = dict(st["state"])
            st["state"]["state"] = lcg_at(st["state"]["state"], a,
                                          st["state"]["inc"], i, bits)
            g = cfg.make(9)
            g.state = st
            return g
        c = self.c0 + i // self.per
        if cfg.cls == "Squares":
            return rg.Squares(key=KEYS["Squares"], counter=c % 2**64, **cfg.kw)
        if cfg.cls in KEYS:
            return getattr(rg, cfg.cls)(key=KEYS[cfg.cls], counter=c % 2**128, **cfg.kw)
        n, w = cfg.kw["number"], cfg.kw["width"]
        kb = n * w // (2 if cfg.cls == "Philox" else 1)
        key = 0x0123456789ABCDEFFEDCBA98765432101122334455667788AABBCCDDEEFF0099 % (1 << kb)
        return getattr(rg, cfg.cls)(key=key, counter=c % (1 << (n * w)), **cfg.kw)

    def word(self, i):
        i %= self.period
        b, r = divmod(i, 64)
        ch = self.chunks.get(b)
        if ch is None:
            if len(self.chunks) > 20000:
                self.chunks.clear()
            raws = self._gen(b * 64).random_raw(
                64 // (2 if self.cfg.dec == "s32lh" else 1)).tolist()
            if self.cfg.dec == "s32lh":
                raws = [x for v in raws for x in (v & 0xFFFFFFFF, v >> 32)]
            ch = self.chunks[b] = raws
        return ch[r]


def model(tape, pos=0, half=None):
    return Model(tape, pos, half)
