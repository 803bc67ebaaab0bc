"""C06: from every state that can be set, each generator computes its published
algorithm.

The real generator is put into each state of an enumerated boundary set through
the state property, stepped, and compared with the reference transition system in
mc/refs.py: every value that comes out, and the successor state."""
import copy
import itertools

import numpy as np

from mc import refs
from mc.core import Res
from mc.gens import BYKEY, CONFIGS

META = dict(
    level="model_checking",
    bounds=dict(
        quick="product of boundary words over all state words (4 to 10 values each, "
              "at most ~15000 states a generator), every single bit set and cleared, "
              "counters at every power of two +- 8, every buffer position and table "
              "index; the linear generators from every unit state of every second bit; "
              "4 words or 3 blocks from each",
        thorough="larger boundary sets, all pairs of bits of the scalar generators, "
                 "every unit state of every word and bit of the linear generators"),
    assumptions=["the references in mc/refs.py are written from the published "
                 "algorithms"],
)
M32, M64, M128 = refs.M32, refs.M64, refs.M128
W64 = [0, M64, 1 << 63, 1, M32, 1 << 32, 0x5555555555555555, (1 << 63) + 1,
       0x0123456789ABCDEF, M64 ^ 1, 1 << 31, 0xFEDCBA9876543210]
W32 = [0, M32, 1 << 31, 1, 0xFFFF, 1 << 16, 0x55555555, 0x80000001, 0x01234567, M32 ^ 1]


def words(n, w, tier, cap):
    """All products of boundary words, then single and cleared bits."""
    B = W64 if w == 64 else W32
    k = 2
    while k < len(B) and (k + 1) ** n <= cap:
        k += 1
    yield from itertools.product(B[:k], repeat=n)
    m = (1 << w) - 1
    bg = [[0] * n, [m] * n, [B[8] ^ (i * 0x1357 & m) for i in range(n)]]
    for base in bg:
        for i in range(n):
            for b in range(w):
                v = list(base)
                v[i] ^= 1 << b
                yield tuple(v)
    if tier == "thorough":
        for (i, b), (j, c) in itertools.combinations(
                itertools.product(range(n), range(0, w, 1 if n < 3 else 3)), 2):
            v = list(bg[2])
            v[i] ^= 1 << b
            v[j] ^= 1 << c
            yield tuple(v)


def counters(bits, tier, step=1, near=8):
    """Both sides of every power of two."""
    s = set()
    for k in range(0, bits + 1):
        for d in range(-near, near + 1, step):
            s.add(((1 << k) + d) % (1 << bits))
    return sorted(s)


def split(v, n, w=64):
    return [v >> (w * i) & ((1 << w) - 1) for i in range(n)]


def states(cfg, tier, base):
    """The state dictionaries of the boundary set and how many raw draws to do."""
    c = cfg.cls
    cap = 15000 if tier == "quick" else 100000

    def cp():
        return copy.deepcopy(base)

    def scalars(names, w, where="state", force=lambda v: v, n=4):
        for v in words(len(names), w, tier, cap):
            st = cp()
            v = force(list(v))
            for k, x in zip(names, v):
                st[where][k] = x
            yield st, n

    if c == "JSF":
        w = int(base["size"])
        yield from scalars("abcd", w)
        st0 = refs.JSF()
        for p, q, r in itertools.product(range(1, w), (1, 13, w - 1), (0, 1, w - 1)):
            for order in itertools.permutations((p, q, r)):
                if 0 in order[:2]:
                    continue
                st = cp()
                st["state"].update(zip("pqr", order))
                yield st, 4
    elif c in ("LCG128Mix", "PCG64", "PCG64DXSM"):
        for a, b, x, y in words(4, 64, tier, cap):
            st = cp()
            st["state"]["state"] = a << 64 | b
            st["state"]["inc"] = x << 64 | y | 1
            yield st, 4
        if c == "LCG128Mix":
            for a, b in words(2, 64, tier, 200):
                st = cp()
                st["state"]["multiplier"] = a << 64 | b | 5
                st["state"]["dxsm_multiplier"] = b | 1
                yield st, 4
                st = copy.deepcopy(st)
                st["state"]["post"] = not st["state"]["post"]
                yield st, 4
        for r in range(64):  # each rotation of xsl-rr
            st = cp()
            st["state"]["state"] = r << 122 | 0x0123456789ABCDEF
            yield st, 3
    elif c == "PCG32":
        yield from scalars(["state", "inc"], 64, force=lambda v: [v[0], v[1] | 1])
        for r in range(32):
            for lo in W64:
                st = cp()
                st["state"]["state"] = r << 59 | lo >> 5
                yield st, 3
    elif c == "LXM":
        for v in words(6, 64, tier, cap):
            st = cp()
            if not any(v[:4]):
                v = (1,) + v[1:]
            st["state"].update(x=np.array(v[:4], "u8"), lcg_state=v[4], b=v[5] | 1)
            yield st, 4
    elif c == "Romu":
        yield from scalars("wxyz", 64, force=lambda v: v if any(v[1:]) else [v[0], 1, 0, 0])
    elif c == "SFC64":
        yield from scalars("abcwk", 64, force=lambda v: v[:4] + [v[4] | 1])
    elif c == "Tyche":
        yield from scalars("abcd", 32)
    elif c in ("Xoroshiro128", "Xoshiro256", "Xoshiro512"):
        n = base["s"].shape[0]
        for v in words(n, 64, tier, cap):
            st = cp()
            if not any(v):
                continue
            st["s"] = np.array(v, "u8")
            yield st, 4
    elif c == "Xorshift1024":
        for p in range(16):
            st = cp()
            st["state"]["p"] = p
            yield st, 40
            for i, b in itertools.product(range(16), range(0, 64, 5 if tier == "quick" else 1)):
                for m in (0, M64):
                    st = cp()
                    s = [m] * 16
                    s[i] ^= 1 << b
                    st["state"].update(s=np.array(s, "u8"), p=p)
                    yield st, 18
    elif c == "Squares":
        keys = [int(base["state"]["key"]), 1, M64, 0x8000000000000001, 0xF0F0F0F1E2D3C4B5]
        keys += [1 | 1 << k for k in range(1, 64)]
        for k in keys:
            for x in counters(64, tier, 1, 2):
                st = cp()
                st["state"].update(key=k, counter=x)
                yield st, 4
    elif c == "EFIIX64":
        T = [0, M64, 1 << 63, 1, 0x0123456789ABCDEF]
        n32, n16 = 32, 16
        tabs = [([t] * n16, [u] * n32) for t in T for u in T]
        tabs.append((base["state"]["indirection_table"].tolist(),
                     base["state"]["iteration_table"].tolist()))
        tabs.append(([1 << i for i in range(16)], [1 << (i + 20) for i in range(32)]))
        for it, (ti, tt) in enumerate(tabs):
            full = it >= 25 or tier == "thorough"
            for i in list(range(32)) + [M64, M64 - 1, M32, 1 << 32, M64 - 31]:
                for c0 in range(16):
                    for a, b in ((0, 0), (M64, M64), (1 << 63, 1), (5, M64)) if full \
                            else ((M64, 1 << 63),):
                        st = cp()
                        st["state"].update(
                            indirection_table=np.array(ti, "u8"),
                            iteration_table=np.array(tt, "u8"), i=i, a=a, b=b,
                            c=(c0 * 0x1000000000000001) & M64)
                        yield st, 5
    elif c == "HC128":
        P = base["state"]["p"].tolist()
        Q = base["state"]["q"].tolist()
        pats = [(P, Q), ([0] * 512, [0] * 512), ([M32] * 512, [M32] * 512),
                ([(i * 0x01010101) & M32 for i in range(512)],
                 [(i * 0x01000193) & M32 for i in range(512)])]
        for p, q in pats:
            for i in range(0, 1024, 16):
                st = cp()
                st["state"].update(p=np.array(p, "u4"), q=np.array(q, "u4"), hc_idx=i,
                                   buffer_idx=0)
                yield st, 24
        # the 12th word before the current one selects the table words
        for i in range(0, 1024, 16):
            j = i % 512
            for x in range(0, 256, 15 if tier == "quick" else 1):
                p, q = list(P), list(Q)
                (p if i < 512 else q)[(j - 12) % 512] = x | (255 - x) << 16 | 0x5A00A500
                st = cp()
                st["state"].update(p=np.array(p, "u4"), q=np.array(q, "u4"), hc_idx=i,
                                   buffer_idx=16)
                yield st, 8
        for k in range(1, 17):
            st = cp()
            st["state"].update(buffer=np.arange(5, 21, dtype="u4"), buffer_idx=k)
            yield st, 20
    elif c == "ChaCha":
        rounds = range(2, 42, 2) if cfg.key == "chacha20" else (8,)
        for r in rounds:
            for v in (0, 16, M128 - 15):
                st = cp()
                st["state"].update(rounds=r, ctr=np.array(split(v, 2), "u8"))
                yield st, 9
        for v in counters(128, tier, 1, 4):
            st = cp()
            st["state"]["ctr"] = np.array(split((v << 4) & M128, 2), "u8")
            yield st, 9
        for k in range(16):  # inside a block
            for v in (0, M64 + 1 - 16, M128 - 15, (1 << 36) - 16, (1 << 68) - 16):
                st = cp()
                st["state"].update(ctr=np.array(split(v + k, 2), "u8"),
                                   block=np.arange(7, 23, dtype="u4"))
                yield st, 18
        for v in words(8, 32, tier, 300):
            st = cp()
            st["state"].update(keysetup=np.array(v, "u4"), ctr=np.array([0, 0], "u8"))
            yield st, 8
    elif c in ("Philox", "ThreeFry"):
        n, w = base["number"], base["width"]
        nk = base["state"]["key"].shape[0]
        dt = base["buffer"].dtype
        for v in counters(n * w, tier, 1, 3):
            st = cp()
            st["state"]["counter"] = np.array(split(v, n, w), dt)
            yield st, 3 * n
        for v in words(n + nk, w, tier, 600):
            st = cp()
            st["state"].update(counter=np.array(v[:n], dt), key=np.array(v[n:], dt))
            yield st, n + 1
        for k in range(n + 1):
            st = cp()
            st.update(buffer=np.arange(3, 3 + n, dtype=dt), buffer_pos=k)
            yield st, 3 * n
    elif c == "AESCounter":
        for v in counters(128, tier, 1, 8 if tier == "thorough" else 5):
            st = cp()
            st["s"].update(counter=np.array(sum((split((v + i) & M128, 2) for i in range(4)),
                                                []), "u8"), offset=64)
            yield st, 9
        for r in range(22):
            for b in range(0, 64, 9 if tier == "quick" else 1):
                st = cp()
                k = [0] * 22
                k[r] = 1 << b
                st["s"].update(seed=np.array(k, "u8"), offset=64)
                yield st, 8
        for b in range(256):  # every entry of the cipher's tables
            st = cp()
            st["s"].update(seed=np.array([b * 0x0101010101010101 & M64] * 22, "u8"),
                           counter=np.array([0] * 8, "u8"), offset=64)
            yield st, 8
        for k in range(0, 65, 8):
            st = cp()
            st["s"].update(state=np.arange(64, dtype="u1"), offset=k)
            yield st, 18
    elif c == "SPECK128":
        for v in counters(128, tier, 1, 10 if tier == "thorough" else 8):
            st = cp()
            st["state"].update(ctr=np.array(sum((split((v + i) & M128, 2)
                                                 for i in range(6)), []), "u8"), offset=96)
            yield st, 25
        for r in range(34):
            for b in range(0, 64, 7 if tier == "quick" else 1):
                st = cp()
                k = base["state"]["round_key"].tolist()
                k[2 * r] = k[2 * r + 1] = 1 << b
                st["state"].update(round_key=np.array(k, "u8"), offset=96)
                yield st, 12
        for r in range(1, 35):
            st = cp()
            st["state"].update(rounds=r, offset=96)
            yield st, 13
        for k in range(0, 97, 8):
            st = cp()
            st["state"].update(buffer=np.arange(9, 21, dtype="u8"), offset=k)
            yield st, 25
    elif c in ("MT19937", "MT64"):
        n, w = (624, 32) if c == "MT19937" else (312, 64)
        key = base["state"]["key"].tolist()
        dt = base["state"]["key"].dtype
        for pos in range(n + 1):
            st = cp()
            st["state"]["pos"] = pos
            yield st, 3
        for m in (0, (1 << w) - 1):
            for i in range(n):
                hi = [0, 1, w - 1, w - 2, 30, 31]
                for b in sorted(set(hi) | set(range(i % 2, w, 2))) if tier == "quick" else range(w):
                    k = [m] * n
                    k[i] ^= 1 << b
                    st = cp()
                    st["state"].update(key=np.array(k, dt), pos=n)
                    yield st, 1 if i % 13 else n
    elif c == "SFMT":
        z = np.zeros(624, "u4")
        for i in range(624):
            for b in range(i % 2, 32, 2) if tier == "quick" else range(32):
                for inv in (False, True) if b % 8 == 0 else (False,):
                    st = cp()
                    k = z.copy()
                    k[i] = 1 << b
                    st["state"]["state"] = ~k if inv else k
                    st["buffer_loc"] = 312
                    yield st, 312 if i % 31 == 0 else 1
        for k in range(313):
            st = cp()
            st.update(buffered_uint64=np.arange(100, 412, dtype="u8"), buffer_loc=k)
            yield st, 2
    elif c == "DSFMT":
        one = 0x3FF0000000000000
        for i in range(384):
            for b in range(i % 2, 52, 2) if tier == "quick" else range(52):
                st = cp()
                k = np.array([one] * 382 + [0, 0], "u8")
                k[i] ^= np.uint64(1 << b)
                st["state"]["state"] = k
                st["buffer_loc"] = 382
                yield st, 382 if i % 31 == 0 else 1
        buf = (np.arange(100, 482, dtype="u8") + np.uint64(one)).view("f8")
        for k in range(383):
            st = cp()
            st.update(buffered_uniforms=buf.copy(), buffer_loc=k)
            yield st, 2
    else:
        raise KeyError(c)


SLICES = dict(SFMT=8, DSFMT=6, MT19937=8, MT64=8, AESCounter=6, EFIIX64=3, HC128=4,
              SPECK128=4, Squares=4, Xorshift1024=3, ChaCha=4)


def tasks(tier):
    out = []
    for c in CONFIGS:
        n = SLICES.get(c.cls, 2) * (4 if tier == "thorough" else 1)
        out += [dict(c=c.key, tier=tier, i=i, n=n) for i in range(n)]
    out += [dict(keys=k, tier=tier) for k in ("aes", "speck128", "chacha20", "hc128")]
    out.sort(key=lambda t: -SLICES.get(BYKEY[t["c"]].cls, 2) if "c" in t else 0)
    return out


def one(bg, R, st, n):
    bg.state = st
    r = R()
    r.load(st)
    want = [r.raw() for _ in range(n)]
    got = bg.random_raw(n).tolist()
    if got != want:
        i = next(i for i in range(n) if got[i] != want[i])
        return f"word {i} is {got[i]:#x}, not {want[i]:#x}"
    f, g = r.fields(), R.of(bg.state)
    if f != g:
        return f"successor state differs after {n} words: " + "; ".join(
            f"{str(b)[:200]} is not {str(a)[:200]}" for a, b in zip(f, g) if a != b)[:700]
    return None


def keyed(cfg, tier):
    """(message) of wrong expansions of the keys given to the constructor."""
    n, bad = 0, []
    if cfg.key == "aes":
        ks = [sum(w << (64 * i) for i, w in enumerate(v)) for v in words(2, 64, tier, 200)]
        ks += [b * (M128 // 255) for b in range(256)]
        for k in ks:
            n += 1
            want = refs.aes_expand(k.to_bytes(16, "little"))
            got = cfg.make(None, key=k).state["s"]["seed"].astype("<u8").tobytes()
            if got != want:
                bad.append(f"aes: key {k:#x} is not expanded as FIPS 197 says")
    elif cfg.key == "speck128":
        for v in words(4, 64, tier, 700):
            n += 1
            k = sum(w << (64 * i) for i, w in enumerate(v))
            got = cfg.make(None, key=k).state["state"]["round_key"].tolist()
            want = refs.speck_expand(list(v))
            if got[::2] != want or got[1::2] != want:
                bad.append(f"speck128: key {k:#x} is not expanded as specified")
    elif cfg.key == "chacha20":
        for v in words(4, 64, tier, 700):
            n += 1
            k = sum(w << (64 * i) for i, w in enumerate(v))
            got = cfg.make(None, key=k).state["state"]["keysetup"].tolist()
            if got != split(k, 8, 32):
                bad.append(f"chacha: key {k:#x} is used as {got}")
    else:
        for v in words(4, 64, tier, 300):
            n += 1
            k = sum(w << (64 * i) for i, w in enumerate(v))
            st = cfg.make(None, key=k).state["state"]
            p, q = hc128_init(split(k, 8, 32))
            if st["p"].tolist() != p or st["q"].tolist() != q:
                bad.append(f"hc128: key {k:#x} does not initialize as specified")
    return n, bad


def hc128_init(kiv):
    """HC-128 initialization; kiv = four key words, four words of the vector."""
    def f1(x):
        return refs.rl32(x, 25) ^ refs.rl32(x, 14) ^ x >> 3

    def f2(x):
        return refs.rl32(x, 15) ^ refs.rl32(x, 13) ^ x >> 10
    w = kiv[:4] * 2 + kiv[4:] * 2
    for i in range(16, 1280):
        w.append((f2(w[i - 2]) + w[i - 7] + f1(w[i - 15]) + w[i - 16] + i) & M32)
    h = refs.HC128()
    h.p, h.q, h.i = w[256:768], w[768:1280], 0
    for i in range(1024):
        v = h.step()
        (h.p if i < 512 else h.q)[i % 512] = v
    return h.p, h.q


def run(t):
    r = Res()
    if "keys" in t:
        n, bad = keyed(BYKEY[t["keys"]], t["tier"])
        r.d["states"] += n
        r.d["transitions"] += n
        r.d["traces"] += n
        for m in bad:
            r.bad(None, m)
        return r.out()
    cfg = BYKEY[t["c"]]
    R = refs.CLASS[cfg.cls]
    bg = cfg.make(1)
    base = cfg.make(1).state
    for idx, (st, n) in enumerate(states(cfg, t["tier"], base)):
        if idx % t["n"] != t["i"]:
            continue
        r.d["states"] += 1
        r.d["transitions"] += n
        r.d["traces"] += 1
        m = one(bg, R, st, n)
        if m:
            r.bad(dict(c=cfg.key, idx=idx, tier=t["tier"]), f"{cfg.key}: {m} (from {short(st)})",
                  f"{cfg.key}: {m[:24]}")
            if len(r.violations) > 5:
                break
        elif idx % 997 == 0:
            r.sample(f"{cfg.key}: state {idx} {short(st)[:200]}: {n} words and successor agree")
    return r.out()


def short(st):
    def f(x):
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        if isinstance(x, np.ndarray):
            return [hex(int(v)) for v in x[:6].view("u8" if x.dtype.itemsize == 8 else x.dtype)]
        return hex(x) if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else x
    return str(f(st))[:700]


def replay(case):
    cfg = BYKEY[case["c"]]
    base = cfg.make(1).state
    st, n = next(itertools.islice(states(cfg, case["tier"], base), case["idx"], None))
    m = one(cfg.make(1), refs.CLASS[cfg.cls], st, n)
    return [f"{cfg.key}: {m}"] if m else []
