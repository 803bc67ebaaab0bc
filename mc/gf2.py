"""Polynomials over GF(2) as Python integers, and jumps of linear generators."""
import numpy as np


def bm(bits):
    """Minimal polynomial (bit i for x**i) of a bit sequence, and its degree."""
    n = len(bits)
    hist = 0
    for i, v in enumerate(bits):
        if v:
            hist |= 1 << (n - 1 - i)      # s[i] at bit n-1-i
    c, b, ln, m = 1, 1, 0, 1
    for i in range(n):
        # window: bit j is s[i-j]  ==  hist >> (n-1-i), low ln+1 bits
        w = hist >> (n - 1 - i)
        if (c & w).bit_count() & 1:
            t = c
            c ^= b << m
            if 2 * ln <= i:
                ln = i + 1 - ln
                b, m = t, 1
                continue
        m += 1
    p = 0
    s = bin(c)[2:][::-1]
    for j, ch in enumerate(s):
        if ch == "1":
            p |= 1 << (ln - j)
    return p, ln


def square(x):
    return int(bin(x)[2:], 4)


def mod(x, p, deg):
    d = x.bit_length() - 1
    while d >= deg:
        x ^= p << (d - deg)
        d = x.bit_length() - 1
    return x


def mul(a, b):
    r = 0
    while b:
        low = b & -b
        r ^= a << (low.bit_length() - 1)
        b ^= low
    return r


def xpow2(k, p, deg):
    """x**(2**k) mod p."""
    r = 2
    for _ in range(k):
        r = mod(square(r), p, deg)
    return r


def polypow(q, k, p, deg):
    r = 1
    while k:
        if k & 1:
            r = mod(mul(r, q), p, deg)
        q = mod(square(q), p, deg)
        k >>= 1
    return r


def apply(q, seq, length):
    """sum of q_i seq[i : i + length] over GF(2), seq an array along axis 0."""
    idx = np.nonzero(np.frombuffer(bin(q)[2:][::-1].encode(), dtype=np.uint8) == 49)[0]
    out = np.zeros((length,) + seq.shape[1:], dtype=seq.dtype)
    for i in idx.tolist():
        out ^= seq[i:i + length]
    return out
