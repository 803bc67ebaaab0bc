"""The published algorithms, written from their specifications in Python.

A reference is loaded with a state dictionary (the layout the state property
documents), gives the values random_raw returns, and tells its successor state as
the same fields. Fields that hold nothing (consumed buffer words) are left out."""
import numpy as np

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1
M128 = (1 << 128) - 1


def rl64(x, k):
    return ((x << k) | (x >> (64 - k))) & M64 if k else x


def rr64(x, k):
    return ((x >> k) | (x << (64 - k))) & M64 if k else x


def rl32(x, k):
    return ((x << k) | (x >> (32 - k))) & M32 if k else x


def ints(a):
    return [int(v) for v in a]


# ------------------------------------------------------------------ AES-128 CTR
def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x11B
        b >>= 1
    return r


def _sbox():
    s = []
    for x in range(256):
        y = 0
        if x:
            for c in range(1, 256):
                if _gmul(x, c) == 1:
                    y = c
                    break
        v = y
        for i in range(1, 5):
            v ^= ((y << i) | (y >> (8 - i))) & 255
        s.append(v ^ 0x63)
    return s


_S = None
_G2 = _G3 = None


def _aes_tables():
    global _S, _G2, _G3
    if _S is None:
        _S = _sbox()
        _G2 = [_gmul(x, 2) for x in range(256)]
        _G3 = [_gmul(x, 3) for x in range(256)]


def aes_expand(key):
    """FIPS 197 key expansion: 16 bytes -> 176 bytes."""
    _aes_tables()
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rcon = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [_S[t[1]] ^ rcon, _S[t[2]], _S[t[3]], _S[t[0]]]
            rcon = _gmul(rcon, 2)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return bytes(b for x in w for b in x)


def aes_encrypt(block, rk):
    """FIPS 197 cipher on bytes with 11 expanded round keys."""
    _aes_tables()
    S, G2, G3 = _S, _G2, _G3
    s = [a ^ b for a, b in zip(block, rk[:16])]
    for r in range(1, 11):
        s = [S[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < 10:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [G2[a] ^ G3[b] ^ d ^ e, a ^ G2[b] ^ G3[d] ^ e,
                      a ^ b ^ G2[d] ^ G3[e], G3[a] ^ b ^ d ^ G2[e]]
            s = t
        k = rk[16 * r:16 * r + 16]
        s = [a ^ b for a, b in zip(s, k)]
    return bytes(s)


class AES:
    def load(self, st):
        s = st["s"]
        self.rk = np.asarray(s["seed"], "<u8").tobytes()
        c = ints(s["counter"])
        self.ctr = [c[2 * i] | c[2 * i + 1] << 64 for i in range(4)]
        self.buf = np.asarray(s["state"], np.uint8).tobytes()
        self.off = int(s["offset"])

    def raw(self):
        if self.off >= 64:
            self.buf = b"".join(aes_encrypt(c.to_bytes(16, "little"), self.rk)
                                for c in self.ctr)
            self.ctr = [(c + 4) & M128 for c in self.ctr]
            self.off = 0
        v = int.from_bytes(self.buf[self.off:self.off + 8], "little")
        self.off += 8
        return v

    def fields(self):
        return (tuple(self.ctr), self.rk, self.off, self.buf[self.off:])

    @staticmethod
    def of(st):
        r = AES()
        r.load(st)
        return r.fields()


# ---------------------------------------------------------------------- ChaCha
def chacha_block(key8, ctr4, rounds):
    x = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574] + list(key8) + list(ctr4)
    inp = list(x)

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & M32
        x[d] = rl32(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M32
        x[b] = rl32(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M32
        x[d] = rl32(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M32
        x[b] = rl32(x[b] ^ x[c], 7)

    for _ in range(0, rounds, 2):
        qr(0, 4, 8, 12), qr(1, 5, 9, 13), qr(2, 6, 10, 14), qr(3, 7, 11, 15)
        qr(0, 5, 10, 15), qr(1, 6, 11, 12), qr(2, 7, 8, 13), qr(3, 4, 9, 14)
    return [(a + b) & M32 for a, b in zip(x, inp)]


class ChaCha:
    def load(self, st):
        s = st["state"]
        self.key = ints(s["keysetup"])
        c = ints(s["ctr"])
        self.c = c[0] | c[1] << 64
        self.block = ints(s["block"])
        self.rounds = int(s["rounds"])

    def n32(self):
        i = self.c % 16
        if i == 0:
            b = self.c >> 4
            self.block = chacha_block(self.key, [(b >> (32 * j)) & M32 for j in range(4)],
                                      self.rounds)
        self.c = (self.c + 1) & M128
        return self.block[i]

    def raw(self):
        a = self.n32()
        return a | self.n32() << 32

    def fields(self):
        i = self.c % 16
        return (self.c, tuple(self.key), self.rounds,
                tuple(self.block[i:]) if i else ())

    @staticmethod
    def of(st):
        r = ChaCha()
        r.load(st)
        return r.fields()


# ----------------------------------------------------------------------- dSFMT
class DSFMT:
    N, POS1, SL1, SR = 191, 117, 19, 12
    MSK = (0x000FFAFFFFFFFB3F, 0x000FFDFFFC90FFFD)

    def load(self, st):
        w = ints(st["state"]["state"])
        self.s = w[:382]
        self.l = w[382:]
        self.buf = np.asarray(st["buffered_uniforms"], "<f8").view("<u8").tolist()
        self.loc = int(st["buffer_loc"])

    def gen(self):
        s, n = self.s, self.N
        L0, L1 = self.l
        m0, m1 = self.MSK
        for i in range(n):
            j = 2 * i
            p = 2 * ((i + self.POS1) % n)
            t0, t1 = s[j], s[j + 1]
            h0, h1 = L0, L1
            L0 = (t0 << 19 ^ h1 >> 32 ^ h1 << 32 ^ s[p]) & M64
            L1 = (t1 << 19 ^ h0 >> 32 ^ h0 << 32 ^ s[p + 1]) & M64
            s[j] = L0 >> 12 ^ L0 & m0 ^ t0
            s[j + 1] = L1 >> 12 ^ L1 & m1 ^ t1
        self.l = [L0, L1]
        self.buf = list(s)

    def raw(self):
        if self.loc >= 382:
            self.gen()
            self.loc = 0
        v = self.buf[self.loc]
        self.loc += 1
        return v

    def fields(self):
        return (tuple(self.s), tuple(self.l), tuple(self.buf[self.loc:]), self.loc)

    @staticmethod
    def of(st):
        r = DSFMT()
        r.load(st)
        return r.fields()


# ----------------------------------------------------------------------- EFIIX
class EFIIX:
    def load(self, st):
        s = st["state"]
        self.ind, self.it = ints(s["indirection_table"]), ints(s["iteration_table"])
        self.i, self.a, self.b, self.c = (int(s[k]) for k in "iabc")

    def raw(self):
        i, a, b, c = self.i, self.a, self.b, self.c
        iterated, indirect = self.it[i % 32], self.ind[c % 16]
        self.ind[c % 16] = (iterated + a) & M64
        self.it[i % 32] = indirect
        old = a ^ b
        self.a = (b + i) & M64
        self.i = (i + 1) & M64
        self.b = (c + indirect) & M64
        self.c = (old + rl64(c, 25)) & M64
        return self.b ^ iterated

    def fields(self):
        return (tuple(self.ind), tuple(self.it), self.i, self.a, self.b, self.c)

    @staticmethod
    def of(st):
        r = EFIIX()
        r.load(st)
        return r.fields()


# ---------------------------------------------------------------------- HC-128
class HC128:
    def load(self, st):
        s = st["state"]
        self.p, self.q = ints(s["p"]), ints(s["q"])
        self.buf = ints(s["buffer"])
        self.i, self.loc = int(s["hc_idx"]), int(s["buffer_idx"])

    @staticmethod
    def g1(x, y, z):
        return (rl32(x, 22) ^ rl32(z, 9)) + rl32(y, 24)

    @staticmethod
    def g2(x, y, z):
        return (rl32(x, 10) ^ rl32(z, 23)) + rl32(y, 8)

    def step(self):
        """One step of the keystream generation of the specification."""
        i = self.i
        j = i % 512
        p, q, g = (self.p, self.q, self.g1) if i < 512 else (self.q, self.p, self.g2)
        p[j] = (p[j] + g(p[(j - 3) % 512], p[(j - 10) % 512], p[(j - 511) % 512])) & M32
        x = p[(j - 12) % 512]
        self.i = (i + 1) % 1024
        return ((q[x & 255] + q[256 + (x >> 16 & 255)]) & M32) ^ p[j]

    def n32(self):
        if self.loc % 16 == 0:
            self.buf = [self.step() for _ in range(16)]
            self.loc = 0
        v = self.buf[self.loc]
        self.loc += 1
        return v

    def raw(self):
        a = self.n32()
        return a | self.n32() << 32

    def fields(self):
        k = self.loc % 16
        return (tuple(self.p), tuple(self.q), self.i, k, tuple(self.buf[k:]) if k else ())

    @staticmethod
    def of(st):
        r = HC128()
        r.load(st)
        return r.fields()


# ------------------------------------------------------------------------- JSF
class JSF:
    def load(self, st):
        s = st["state"]
        self.size = int(st["size"])
        self.v = [int(s[k]) for k in "abcd"]
        self.r = [int(s[k]) for k in "pqr"]

    def raw(self):
        a, b, c, d = self.v
        p, q, r = self.r
        m = (1 << self.size) - 1
        rl = rl64 if self.size == 64 else rl32
        e = (a - rl(b, p)) & m
        a = b ^ rl(c, q)
        b = (c + rl(d, r)) & m
        c = (d + e) & m
        d = (e + a) & m
        self.v = [a, b, c, d]
        return d

    def fields(self):
        return (tuple(self.v), tuple(self.r), self.size)

    @staticmethod
    def of(st):
        r = JSF()
        r.load(st)
        return r.fields()


# ------------------------------------------------------------------- LCG based
def rr(v, r):
    return rr64(v, r & 63)


def xsl_rr(h, l):
    return rr(h ^ l, h >> 58)


def dxsm(h, l, m):
    l |= 1
    h ^= h >> 32
    h = h * m & M64
    h ^= h >> 48
    return h * l & M64


def murmur3(k):
    """The 64-bit finalizer with the constants the documentation shows."""
    k = (k ^ k >> 30) * 0xBF58476D1CE4E5B9 & M64
    k = (k ^ k >> 27) * 0x94D049BB133111EB & M64
    return k ^ k >> 31


MULT = 0x2360ED051FC65DA44385DF649FCCF645
CHEAP = 0xDA942042E4DD58B5


class LCG:
    def load(self, st):
        s = st["state"]
        self.s, self.inc = int(s["state"]), int(s["inc"])
        cls = st["bit_generator"]
        if "LCG128Mix" in cls:
            self.m, self.dm = int(s["multiplier"]), int(s["dxsm_multiplier"])
            self.post, self.out = bool(s["post"]), s["output_func"]
        elif "DXSM" in cls or st["variant"] == "dxsm":
            self.m, self.dm, self.post, self.out = CHEAP, CHEAP, False, "dxsm"
        else:
            self.m, self.dm, self.post = MULT, CHEAP, True
            self.out = {"xsl-rr": "xsl-rr", "dxsm-128": "dxsm"}[st["variant"]]

    def raw(self):
        old = self.s
        self.s = (self.s * self.m + self.inc) & M128
        v = self.s if self.post else old
        h, l = v >> 64, v & M64
        if self.out == "xsl-rr":
            return xsl_rr(h, l)
        if self.out == "dxsm":
            return dxsm(h, l, self.dm)
        if self.out == "murmur3":
            return murmur3(h)
        return h if self.out == "upper" else l

    def fields(self):
        return (self.s, self.inc, self.m, self.dm, self.post, self.out)

    @staticmethod
    def of(st):
        r = LCG()
        r.load(st)
        return r.fields()


class PCG32:
    def load(self, st):
        self.s, self.inc = int(st["state"]["state"]), int(st["state"]["inc"])

    def raw(self):
        old = self.s
        self.s = (old * 6364136223846793005 + self.inc) & M64
        x = ((old >> 18 ^ old) >> 27) & M32
        r = old >> 59
        return (x >> r | x << (32 - r)) & M32

    def fields(self):
        return (self.s, self.inc)

    @staticmethod
    def of(st):
        r = PCG32()
        r.load(st)
        return r.fields()


# --------------------------------------------------------------- small 64-bit
class LXM:
    def load(self, st):
        s = st["state"]
        self.x, self.l, self.b = ints(s["x"]), int(s["lcg_state"]), int(s["b"])

    def raw(self):
        x = self.x
        k = murmur3((x[0] + self.l) & M64)
        self.l = (2862933555777941757 * self.l + self.b) & M64
        self.x = xoshiro256_step(x)
        return k

    def fields(self):
        return (tuple(self.x), self.l, self.b)

    @staticmethod
    def of(st):
        r = LXM()
        r.load(st)
        return r.fields()


def xoshiro256_step(s):
    s = list(s)
    t = s[1] << 17 & M64
    s[2] ^= s[0]
    s[3] ^= s[1]
    s[1] ^= s[2]
    s[0] ^= s[3]
    s[2] ^= t
    s[3] = rl64(s[3], 45)
    return s


class Xoshiro256:
    """xoshiro256**"""

    def load(self, st):
        self.s = ints(st["s"])

    def raw(self):
        v = rl64(self.s[1] * 5 & M64, 7) * 9 & M64
        self.s = xoshiro256_step(self.s)
        return v

    def fields(self):
        return tuple(self.s)

    @staticmethod
    def of(st):
        return tuple(ints(st["s"]))


class Xoshiro512:
    """xoshiro512**"""

    def load(self, st):
        self.s = ints(st["s"])

    def raw(self):
        s = self.s
        v = rl64(s[1] * 5 & M64, 7) * 9 & M64
        t = s[1] << 11 & M64
        s[2] ^= s[0]
        s[5] ^= s[1]
        s[1] ^= s[2]
        s[7] ^= s[3]
        s[3] ^= s[4]
        s[4] ^= s[5]
        s[0] ^= s[6]
        s[6] ^= s[7]
        s[6] ^= t
        s[7] = rl64(s[7], 21)
        return v

    def fields(self):
        return tuple(self.s)

    of = Xoshiro256.of


class Xoroshiro128:
    def load(self, st):
        self.s, self.pp = ints(st["s"]), bool(st["plusplus"])

    def raw(self):
        a, b = self.s
        v = (a + b) & M64
        b ^= a
        if self.pp:
            v = (rl64(v, 17) + a) & M64
            self.s = [rl64(a, 49) ^ b ^ (b << 21 & M64), rl64(b, 28)]
        else:
            self.s = [rl64(a, 24) ^ b ^ (b << 16 & M64), rl64(b, 37)]
        return v

    def fields(self):
        return (tuple(self.s), self.pp)

    @staticmethod
    def of(st):
        return (tuple(ints(st["s"])), bool(st["plusplus"]))


class Xorshift1024:
    """xorshift1024*phi"""

    def load(self, st):
        self.s, self.p = ints(st["state"]["s"]), int(st["state"]["p"])

    def raw(self):
        s0 = self.s[self.p]
        self.p = (self.p + 1) & 15
        s1 = self.s[self.p]
        s1 ^= s1 << 31 & M64
        v = s1 ^ s0 ^ s1 >> 11 ^ s0 >> 30
        self.s[self.p] = v
        return v * 0x9E3779B97F4A7C13 & M64

    def fields(self):
        return (tuple(self.s), self.p)

    @staticmethod
    def of(st):
        return (tuple(ints(st["state"]["s"])), int(st["state"]["p"]))


class Romu:
    def load(self, st):
        s = st["state"]
        self.v = [int(s[k]) for k in "wxyz"]
        self.quad = s["variant"] == "quad"

    def raw(self):
        w, x, y, z = self.v
        if self.quad:
            self.v = [15241094284759029579 * z & M64, (z + rl64(w, 52)) & M64,
                      (y - x) & M64, rl64((y + w) & M64, 19)]
        else:
            self.v = [w, 15241094284759029579 * z & M64, rl64((y - x) & M64, 12),
                      rl64((z - y) & M64, 44)]
        return x

    def fields(self):
        return (tuple(self.v[0 if self.quad else 1:]), self.quad)

    @staticmethod
    def of(st):
        r = Romu()
        r.load(st)
        return r.fields()


class SFC64:
    def load(self, st):
        s = st["state"]
        self.v = [int(s[k]) for k in "abcwk"]

    def raw(self):
        a, b, c, w, k = self.v
        out = (a + b + w) & M64
        self.v = [b ^ b >> 11, (c + (c << 3)) & M64, (rl64(c, 24) + out) & M64,
                  (w + k) & M64, k]
        return out

    def fields(self):
        return tuple(self.v)

    @staticmethod
    def of(st):
        r = SFC64()
        r.load(st)
        return r.fields()


class Squares:
    def load(self, st):
        self.k, self.c = int(st["state"]["key"]), int(st["state"]["counter"])
        self.var = int(st["variant"])

    def _rounds(self, n):
        y = x = self.c * self.k & M64
        z = (y + self.k) & M64
        self.c = (self.c + 1) & M64
        x = (x * x + y) & M64
        x = rl64(x, 32)
        x = (x * x + z) & M64
        x = rl64(x, 32)
        x = (x * x + y) & M64
        x = rl64(x, 32)
        x = (x * x + z) & M64
        if n == 4:
            return x >> 32
        t = x
        x = rl64(x, 32)
        return t ^ ((x * x + y) & M64) >> 32

    def raw(self):
        if self.var == 64:
            return self._rounds(5)
        a = self._rounds(4)
        return a | self._rounds(4) << 32

    def fields(self):
        return (self.k, self.c, self.var)

    @staticmethod
    def of(st):
        r = Squares()
        r.load(st)
        return r.fields()


class Tyche:
    def load(self, st):
        s = st["state"]
        self.v = [int(s[k]) for k in "abcd"]
        self.orig = bool(s["original"])

    def n32(self):
        a, b, c, d = self.v
        if self.orig:
            a = (a + b) & M32
            d = rl32(d ^ a, 16)
            c = (c + d) & M32
            b = rl32(b ^ c, 12)
            a = (a + b) & M32
            d = rl32(d ^ a, 8)
            c = (c + d) & M32
            b = rl32(b ^ c, 7)
        else:
            b = rl32(b, 7) ^ c
            c = (c - d) & M32
            d = rl32(d, 8) ^ a
            a = (a - b) & M32
            b = rl32(b, 12) ^ c
            c = (c - d) & M32
            d = rl32(d, 16) ^ a
            a = (a - b) & M32
        self.v = [a, b, c, d]
        return b if self.orig else a

    def raw(self):
        a = self.n32()
        return a << 32 | self.n32()

    def fields(self):
        return (tuple(self.v), self.orig)

    @staticmethod
    def of(st):
        r = Tyche()
        r.load(st)
        return r.fields()


# ------------------------------------------------------------ Mersenne twisters
class MT19937:
    N, M = 624, 397

    def load(self, st):
        self.k, self.pos = ints(st["state"]["key"]), int(st["state"]["pos"])

    def gen(self):
        k = self.k
        for i in range(624):
            y = (k[i] & 0x80000000) | (k[(i + 1) % 624] & 0x7FFFFFFF)
            k[i] = k[(i + 397) % 624] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0)

    def raw(self):
        if self.pos >= 624:
            self.gen()
            self.pos = 0
        y = self.k[self.pos]
        self.pos += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9D2C5680
        y ^= (y << 15) & 0xEFC60000
        return y ^ y >> 18

    def fields(self):
        return (tuple(self.k), self.pos)

    @classmethod
    def of(cls, st):
        return (tuple(ints(st["state"]["key"])), int(st["state"]["pos"]))


class MT64(MT19937):
    def gen(self):
        k = self.k
        for i in range(312):
            y = (k[i] & 0xFFFFFFFF80000000) | (k[(i + 1) % 312] & 0x7FFFFFFF)
            k[i] = k[(i + 156) % 312] ^ (y >> 1) ^ (0xB5026F5AA96619E9 if y & 1 else 0)

    def raw(self):
        if self.pos >= 312:
            self.gen()
            self.pos = 0
        x = self.k[self.pos]
        self.pos += 1
        x ^= (x >> 29) & 0x5555555555555555
        x ^= (x << 17) & 0x71D67FFFEDA60000
        x ^= (x << 37) & 0xFFF7EEE000000000
        return x ^ x >> 43


class SFMT:
    N, POS1 = 156, 122
    MASK = 0xDFFFFFEF | 0xDDFECB7F << 32 | 0xBFFAFFFF << 64 | 0xBFFFFFF6 << 96
    # what a 32-bit lane shift keeps
    R11 = ((1 << 21) - 1) * (1 | 1 << 32 | 1 << 64 | 1 << 96)
    L18 = (((1 << 14) - 1) << 18) * (1 | 1 << 32 | 1 << 64 | 1 << 96)

    def load(self, st):
        w = np.asarray(st["state"]["state"], "<u4").tobytes()
        self.s = [int.from_bytes(w[16 * i:16 * i + 16], "little") for i in range(156)]
        self.buf, self.loc = ints(st["buffered_uint64"]), int(st["buffer_loc"])

    def gen(self):
        s = self.s
        r1, r2 = s[154], s[155]
        for i in range(156):
            a, b = s[i], s[(i + 122) % 156]
            r = (a ^ (a << 8 & M128) ^ ((b >> 11) & self.R11 & self.MASK) ^ (r1 >> 8)
                 ^ (r2 << 18 & self.L18))
            s[i] = r
            r1, r2 = r2, r
        self.buf = [x for v in s for x in (v & M64, v >> 64)]

    def raw(self):
        if self.loc >= 312:
            self.gen()
            self.loc = 0
        v = self.buf[self.loc]
        self.loc += 1
        return v

    def fields(self):
        return (tuple(self.s), tuple(self.buf[self.loc:]), self.loc)

    @staticmethod
    def of(st):
        r = SFMT()
        r.load(st)
        return r.fields()


# ------------------------------------------------------------- counter ciphers
PHILOX = {
    (2, 32): ((0xD256D193,), (0x9E3779B9,)),
    (2, 64): ((0xD2B74407B1CE6E93,), (0x9E3779B97F4A7C15,)),
    (4, 32): ((0xD2511F53, 0xCD9E8D57), (0x9E3779B9, 0xBB67AE85)),
    (4, 64): ((0xD2E7470EE14C6C93, 0xCA5A826395121157),
              (0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B)),
}


def philox_block(n, w, ctr, key, rounds=10):
    m = (1 << w) - 1
    mul, bump = PHILOX[n, w]
    c, k = list(ctr), list(key)
    for r in range(rounds):
        if r:
            k = [(a + b) & m for a, b in zip(k, bump)]
        if n == 2:
            p = mul[0] * c[0]
            c = [(p >> w) ^ k[0] ^ c[1], p & m]
        else:
            p, q = mul[0] * c[0], mul[1] * c[2]
            c = [(q >> w) ^ c[1] ^ k[0], q & m, (p >> w) ^ c[3] ^ k[1], p & m]
    return c


TF_ROT = {
    (4, 64): ((14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)),
    (2, 64): (16, 42, 12, 31, 16, 32, 24, 21),
    (4, 32): ((10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)),
    (2, 32): (13, 15, 26, 6, 17, 29, 16, 24),
}


def threefry_block(n, w, ctr, key, rounds=20):
    m = (1 << w) - 1
    rl = rl64 if w == 64 else rl32
    par = 0x1BD11BDAA9FC1A22 if w == 64 else 0x1BD11BDA
    ks = list(key)
    for k in key:
        par ^= k
    ks.append(par)
    x = [(a + b) & m for a, b in zip(ctr, ks)]
    for r in range(rounds):
        rot = TF_ROT[n, w][r % 8]
        if n == 2:
            x[0] = (x[0] + x[1]) & m
            x[1] = rl(x[1], rot) ^ x[0]
        else:
            i, j = (1, 3) if r % 2 == 0 else (3, 1)
            x[0] = (x[0] + x[i]) & m
            x[i] = rl(x[i], rot[0]) ^ x[0]
            x[2] = (x[2] + x[j]) & m
            x[j] = rl(x[j], rot[1]) ^ x[2]
        if r % 4 == 3:
            s = r // 4 + 1
            x = [(x[i] + ks[(s + i) % (n + 1)]) & m for i in range(n)]
            x[n - 1] = (x[n - 1] + s) & m
    return x


class Counter:
    """Philox and ThreeFry: the counter is incremented before each block."""

    def load(self, st):
        self.n, self.w = int(st["number"]), int(st["width"])
        self.c, self.key = ints(st["state"]["counter"]), ints(st["state"]["key"])
        self.buf = ints(st["buffer"])
        # both sizes use the position 4 or number for an empty buffer
        self.pos = min(int(st["buffer_pos"]), self.n)
        self.f = philox_block if "Philox" in st["bit_generator"] else threefry_block

    def raw(self):
        if self.pos >= self.n:
            v = sum(x << (self.w * i) for i, x in enumerate(self.c)) + 1
            m = (1 << self.w) - 1
            self.c = [v >> (self.w * i) & m for i in range(self.n)]
            self.buf = self.f(self.n, self.w, self.c, self.key)
            self.pos = 0
        v = self.buf[self.pos]
        self.pos += 1
        return v

    def fields(self):
        return (self.n, self.w, tuple(self.c), tuple(self.key), self.pos,
                tuple(self.buf[self.pos:]))

    @staticmethod
    def of(st):
        r = Counter()
        r.load(st)
        return r.fields()


class SPECK:
    def load(self, st):
        s = st["state"]
        c = ints(s["ctr"])
        self.ctr = [c[2 * i] | c[2 * i + 1] << 64 for i in range(6)]
        self.rk = ints(s["round_key"])[::2]
        self.buf, self.off = ints(s["buffer"]), int(s["offset"])
        self.rounds = int(s["rounds"])

    def raw(self):
        if self.off == 96:
            self.buf = []
            for c in self.ctr:
                y, x = c & M64, c >> 64
                for k in self.rk[:self.rounds]:
                    x = (rr64(x, 8) + y & M64) ^ k
                    y = rl64(y, 3) ^ x
                self.buf += [y, x]
            self.ctr = [(c + 6) & M128 for c in self.ctr]
            self.off = 0
        v = self.buf[self.off // 8]
        self.off += 8
        return v

    def fields(self):
        return (tuple(self.ctr), tuple(self.rk), self.off, self.rounds,
                tuple(self.buf[self.off // 8:]))

    @staticmethod
    def of(st):
        r = SPECK()
        r.load(st)
        return r.fields()


def speck_expand(key):
    """SPECK128/256 key schedule: four words -> 34 round keys."""
    a, l = key[0], list(key[1:])
    out = []
    for i in range(34):
        out.append(a)
        x = (rr64(l[i % 3], 8) + a & M64) ^ i
        l[i % 3] = x
        a = rl64(a, 3) ^ x
    return out


CLASS = dict(AESCounter=AES, ChaCha=ChaCha, DSFMT=DSFMT, EFIIX64=EFIIX, HC128=HC128,
             JSF=JSF, LCG128Mix=LCG, LXM=LXM, MT19937=MT19937, MT64=MT64, PCG32=PCG32,
             PCG64=LCG, PCG64DXSM=LCG, Philox=Counter, ThreeFry=Counter, Romu=Romu,
             SFC64=SFC64, SFMT=SFMT, SPECK128=SPECK, Squares=Squares, Tyche=Tyche,
             Xoroshiro128=Xoroshiro128, Xorshift1024=Xorshift1024,
             Xoshiro256=Xoshiro256, Xoshiro512=Xoshiro512)
