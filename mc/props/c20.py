"""C20: the multivariate samplers apply exactly the covariance asked for.

The standard draws behind every call are known (a twin generator in the same state),
so the linear map a call applied is solved for from its results. That map is compared
with the covariance, for every matrix of enumerated families, and what is not positive
semi-definite (decided in exact arithmetic) must be reported as check_valid asks."""
import itertools
import warnings
from fractions import Fraction

import numpy as np
from numpy.random import Generator
from randomgen import PCG64, ExtendedGenerator

from mc.core import Res
from mc.gens import canon
from mc.props.c16 import wishart_ref

META = dict(
    level="model_checking",
    bounds=dict(
        quick="multivariate_normal: every symmetric integer matrix with diagonal 0..4 (1x1), "
              "0..3 and off-diagonal -3..3 (2x2), diagonal 0..2 and off-diagonal -2..2 "
              "(3x3), LL' for all L in {-1,0,1}^(4x2), structured matrices up to 8x8, "
              "scaled by 2^-12..2^12; complex: gamma=AA^H, relation=AA^T for all A in "
              "{0,1,-1,i}^(2x3) and the grid of 1x1 cases; complex_normal: 11 x 17 x 17 "
              "dyadic grid; wishart: 2x2 and 3x3 families, df 1..dim+2, full and reduced "
              "rank; stacks of 1..3 of 6 matrices (4 definite, 2 not) and of 1..2 of 6 "
              "gammas with 1..2 of 6 relations, pairwise and as an outer product; every "
              "method and check_valid",
        thorough="also L in {-1,0,1}^(4x3), A in {0,1,-1,i}^(2x4), every 3x3 scale and "
                 "a 4x4 family of indefinite matrices"),
    assumptions=["numpy's Generator.standard_normal and chisquare are the standard draws",
                 "equality is judged to 1e-9 relative"],
)
TOL = 1e-9
_z = {}


class Two:
    def __init__(self):
        self.a, self.b = PCG64(11), PCG64(11)
        self.e = ExtendedGenerator(self.a)
        self.g = Generator(self.b)
        self.s0 = self.a.state
        self.c0 = canon(self.s0)

    def reset(self):
        self.a.state = self.s0
        self.b.state = self.s0

    def normals(self, m, n):
        """m rows of n standard normals, and the least squares inverse."""
        if (m, n) not in _z:
            self.reset()
            z = self.g.standard_normal((m, n))
            _z[m, n] = z, np.linalg.pinv(z), canon(self.b.state)
        return _z[m, n]


def call(t, f):
    """(result, reports, exception); reports counts RuntimeWarnings."""
    t.reset()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = f()
        except Exception as e:
            if canon(t.a.state) != t.c0:
                return None, 0, AssertionError(f"{type(e).__name__} after drawing")
            return None, 0, e
    return r, sum(issubclass(x.category, RuntimeWarning) for x in w), None


# ------------------------------------------------------------- exact definiteness
def det(m):
    n = len(m)
    m = [list(r) for r in m]
    d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            for c in range(i, n):
                m[r][c] -= f * m[i][c]
    return d


def definite(c):
    """'pd', 'psd' (singular) or 'no' in exact arithmetic."""
    m = [[Fraction(float(x)) for x in r] for r in c]
    n = len(m)
    if all(det([r[:k] for r in m[:k]]) > 0 for k in range(1, n + 1)):
        return "pd"
    for k in range(1, n + 1):
        for ix in itertools.combinations(range(n), k):
            if det([[m[i][j] for j in ix] for i in ix]) < 0:
                return "no"
    return "psd"


# ------------------------------------------------------------------------ families
def fam(name):
    if name == "1":
        for a in range(-2, 5):
            yield [[a]]
    elif name == "2":
        for a, b, c in itertools.product(range(-1, 4), range(-3, 4), range(-1, 4)):
            yield [[a, b], [b, c]]
    elif name.startswith("3."):
        a = int(name[2:])
        for b, c, d, e, f in itertools.product(range(3), range(3), *[range(-2, 3)] * 3):
            yield [[a, d, e], [d, b, f], [e, f, c]]
    elif name.startswith("L"):
        k = int(name[1])
        part = int(name[3:])
        seen = set()
        for i, L in enumerate(itertools.product((-1, 0, 1), repeat=4 * k)):
            L = np.array(L).reshape(4, k)
            c = L @ L.T
            h = c.tobytes()
            if h in seen:
                continue
            seen.add(h)
            if len(seen) % 8 == part:
                yield c.tolist()
    elif name == "big":
        for n in range(2, 9):
            i = np.arange(n)
            for rho in (0.5, -0.5, 0.875, 0.0):
                yield rho ** np.abs(i[:, None] - i).astype(float)
            yield np.full((n, n), 0.5) + 0.5 * np.eye(n)
            yield np.ones((n, n))
            yield n * np.eye(n) - np.ones((n, n))
            yield np.diag(2.0 ** (3 * i - 8))
            yield np.diag((i % 2).astype(float))
            yield np.minimum(i[:, None], i) + 1.0
            yield np.minimum(i[:, None], i) + 0.0
            v = np.where(i % 3 == 0, -1.0, 2.0)
            yield np.outer(v, v)
            yield np.eye(n)[::-1] @ np.diag(i + 1.0) @ np.eye(n)[::-1] + np.outer(v, v)
            yield np.zeros((n, n))
            yield np.diag(np.where(i == n - 1, -1.0, 1.0))
            yield np.diag(np.where(i == 0, -1.0, 1.0))
            yield np.eye(n) - np.full((n, n), 2.0 / n)
    elif name == "neg4":
        for a, b, c, d in itertools.product(range(-2, 3), repeat=4):
            yield [[1, a, b, 0], [a, 1, c, d], [b, c, 2, 1], [0, d, 1, 2]]


# -------------------------------------------------------------- multivariate_normal
def near(x, y):
    s = max(1e-300, np.abs(y).max())
    return np.abs(x - y).max() <= TOL * s if x.size else True


def mvn_one(t, cov, scale, method):
    c = np.array(cov, dtype=float) * scale
    n = len(c)
    kind = definite(cov)
    mean = np.arange(n) * 0.5 - 1
    m = n + 2
    z, zi, after = t.normals(m, n)

    def f(cv):
        return call(t, lambda: t.e.multivariate_normal(mean, c, (m,), check_valid=cv,
                                                       method=method))
    for cv in ("raise", "warn", "ignore"):
        r, rep, ex = f(cv)
        if isinstance(ex, AssertionError):
            return f"check_valid={cv}: {ex}"
        if kind == "no":
            if method == "cholesky":
                if ex is None:
                    return f"check_valid={cv}: not refused"
            elif cv == "raise" and not isinstance(ex, ValueError):
                return f"check_valid=raise gave {ex!r} for a matrix that is not PSD"
            elif cv == "warn" and (ex or rep != 1):
                return f"check_valid=warn gave {rep} warnings, {ex!r}"
            elif cv == "ignore" and (ex or rep):
                return f"check_valid=ignore gave {rep} warnings, {ex!r}"
            continue
        if method == "cholesky" and kind == "psd" and ex is not None:
            continue
        if ex is not None or rep:
            return f"check_valid={cv}: {kind} matrix reported: {ex!r}, {rep} warnings"
        F = zi @ (r - mean)
        if not near(z @ F + mean, r):
            return "the result is not mean plus a linear map of the standard draws"
        if canon(t.a.state) != after:
            return "the stream is not after the standard draws"
        G = F.T @ F
        if np.abs(G - c).max() > TOL * max(np.abs(c).max(), 1e-300) + 1e-14 * scale:
            return f"the map applied has covariance {G.tolist()}"
    return None


def factor_one(t, F0):
    F0 = np.array(F0, dtype=float)
    n = len(F0)
    z, zi, after = t.normals(n + 2, n)
    r, rep, ex = call(t, lambda: t.e.multivariate_normal(
        np.full(n, 2.0), F0, n + 2, method="factor", check_valid="raise"))
    if ex or rep:
        return f"reported: {ex!r}"
    F = zi @ (r - 2)
    if np.abs(F.T @ F - F0 @ F0.T).max() > 1e-9:
        return f"the map applied has covariance {(F.T @ F).tolist()}"
    t.reset()
    a = t.e.wishart(n, F0, method="factor", check_valid="raise")
    t.reset()
    w = t.e.standard_wishart(n, n, rescale=False)
    if np.abs(a - F0 @ w @ F0.T).max() > 1e-9 * max(1, np.abs(a).max()):
        return "wishart does not apply the factor"
    return None


def tol_one(t, method, tol, delta, n):
    c = np.eye(n)
    c[-1, -1] = -delta
    reported = delta > tol
    for cv in ("raise", "warn", "ignore"):
        r, rep, ex = call(t, lambda: t.e.multivariate_normal(
            np.zeros(n), c, check_valid=cv, tol=tol, method=method))
        want = reported and cv != "ignore"
        if (isinstance(ex, ValueError) or rep == 1) != want or \
                (ex is not None) != (want and cv == "raise"):
            return f"check_valid={cv}: {ex!r}, {rep} warnings"
    return None


# -------------------------------------------------------- multivariate_complex_normal
def mvc_one(t, gam, rel, method):
    g, r = np.array(gam, dtype=complex), np.array(rel, dtype=complex)
    n = len(g)
    top, bot = 0.5 * (g + r), 0.5 * (g - r)
    S = np.block([[top.real, -bot.imag], [top.imag, bot.real]])
    kind = definite(S)
    loc = np.arange(n) * 0.5 - 1 + 3j
    m = 2 * n + 2
    z, zi, after = t.normals(m, 2 * n)
    for cv in ("raise", "warn", "ignore"):
        x, rep, ex = call(t, lambda: t.e.multivariate_complex_normal(
            loc, g, r, (m,), check_valid=cv, method=method))
        if isinstance(ex, AssertionError):
            return f"check_valid={cv}: {ex}"
        if kind == "no":
            if method == "cholesky":
                if ex is None:
                    return f"check_valid={cv}: not refused"
            elif cv == "raise" and not isinstance(ex, ValueError):
                return f"check_valid=raise gave {ex!r} for what is not PSD"
            elif cv == "warn" and (ex or rep != 1):
                return f"check_valid=warn gave {rep} warnings, {ex!r}"
            elif cv == "ignore" and (ex or rep):
                return f"check_valid=ignore gave {rep} warnings, {ex!r}"
            continue
        if method == "cholesky" and kind == "psd" and ex is not None:
            continue
        if ex is not None or rep:
            return f"check_valid={cv}: {kind} but reported: {ex!r}, {rep} warnings"
        A = zi @ (x - loc)
        if np.abs(z @ A + loc - x).max() > 1e-9:
            return "the result is not loc plus a linear map of the standard draws"
        if canon(t.a.state) != after:
            return "the stream is not after the standard draws"
        # x = sum_k eps_k A[k]: E[x x^H] and E[x x^T]
        G, C = A.T @ A.conj(), A.T @ A
        if np.abs(G - g).max() > 1e-9 * max(1, np.abs(g).max()):
            return f"the covariance applied is {G.tolist()}"
        if np.abs(C - r).max() > 1e-9 * max(1, np.abs(g).max()):
            return f"the relation applied is {C.tolist()}"
    return None


def mvc_cases(part, parts, cols):
    seen = set()
    for A in itertools.product((0, 1, -1, 1j), repeat=2 * cols):
        A = np.array(A).reshape(2, cols)
        g, r = A @ A.conj().T, A @ A.T
        h = g.tobytes() + r.tobytes()
        if h in seen:
            continue
        seen.add(h)
        if len(seen) % parts == part:
            yield g, r
            if len(seen) % 7 == 0:
                yield g - np.eye(2), r
                yield g, 2 * r + np.eye(2)


# ------------------------------------------------------------------------- stacks
# indefinite ones last
STACK = [np.array(x, float) for x in ([[1, 0], [0, 1]], [[4, 2], [2, 3]], [[1, 1], [1, 1]],
                                      [[0, 0], [0, 2]], [[1, 2], [2, 1]],
                                      [[0, 0], [0, -1]])]
CSTACK = [(np.array(g, complex), np.array(r, complex)) for g, r in (
    ([[1, 0], [0, 1]], [[0, 0], [0, 0]]), ([[4, 1j], [-1j, 3]], [[1, 0.5j], [0.5j, 1]]),
    ([[1, 0], [0, 1]], [[1, 0], [0, -1]]), ([[2, 1], [1, 2]], [[0, 1j], [1j, 0]]),
    ([[1, 0], [0, 1]], [[2, 0], [0, 0]]), ([[1, 2], [2, 1]], [[0, 0], [0, 0]]))]


def judge_stack(t, f, bad, method, k, n, want):
    """f(check_valid) draws (m, k, n) values whose element j has the moments want(j)."""
    for cv in ("raise", "warn", "ignore"):
        x, rep, ex = call(t, lambda: f(cv))
        if isinstance(ex, AssertionError):
            return f"check_valid={cv}: {ex}"
        if bad and method == "cholesky":
            if ex is None:
                return f"check_valid={cv}: not refused"
            continue
        if bad and cv == "raise":
            if not isinstance(ex, ValueError):
                return f"check_valid=raise gave {ex!r}"
            continue
        if method == "cholesky" and ex is not None:
            continue
        if ex is not None:
            return f"check_valid={cv}: {ex!r}"
        if (rep > 0) != (bool(bad) and cv == "warn"):
            return f"check_valid={cv}: {rep} warnings"
        m = want(x, cv)
        if m:
            return m
    return None


def mvn_stack(t, ix, shape, method):
    C = np.stack([STACK[i] for i in ix]).reshape(tuple(shape) + (2, 2))
    k, m = len(ix), 4
    bad = [i for i in ix if i >= 4]
    t.reset()
    z = t.g.standard_normal((m, k, 2))

    def want(x, cv):
        x = x.reshape(m, k, 2)
        for j in range(k):
            if ix[j] >= 4:
                continue
            F = np.linalg.pinv(z[:, j]) @ (x[:, j] - 1)
            if np.abs(F.T @ F - STACK[ix[j]]).max() > 1e-9:
                return f"element {j} has covariance {(F.T @ F).tolist()}"
    return judge_stack(t, lambda cv: t.e.multivariate_normal(
        np.ones(2), C, (m,) + tuple(shape), check_valid=cv, method=method),
        bad, method, k, 2, want)


def mvc_stack(t, ig, ir, outer, method):
    """Gammas ig against relations ir: pairwise, or each with each (shapes (a,1) and (b))."""
    G = np.stack([CSTACK[i][0] for i in ig])
    R = np.stack([CSTACK[i][1] for i in ir])
    if outer:
        G = G[:, None]
        pairs = [(i, j) for i in ig for j in ir]
        shape = (len(ig), len(ir))
    else:
        pairs = list(zip(ig, ir))
        shape = (len(ig),)
    k, m = len(pairs), 6
    S = []
    for i, j in pairs:
        g, r = CSTACK[i][0], CSTACK[j][1]
        a, b = 0.5 * (g + r), 0.5 * (g - r)
        S.append(np.block([[a.real, -b.imag], [a.imag, b.real]]))
    bad = [p for p, s in zip(pairs, S) if definite(s) == "no"]
    t.reset()
    z = t.g.standard_normal((m, k, 4))

    def want(x, cv):
        x = x.reshape(m, k, 2)
        for e, (i, j) in enumerate(pairs):
            if (i, j) in bad:
                continue
            A = np.linalg.pinv(z[:, e]) @ (x[:, e] - 1j)
            if np.abs(A.T @ A.conj() - CSTACK[i][0]).max() > 1e-9:
                return f"element {e} has covariance {(A.T @ A.conj()).tolist()}"
            if np.abs(A.T @ A - CSTACK[j][1]).max() > 1e-9:
                return f"element {e} has relation {(A.T @ A).tolist()}"
    return judge_stack(t, lambda cv: t.e.multivariate_complex_normal(
        np.full(2, 1j), G, R, (m,) + shape, check_valid=cv, method=method),
        bad, method, k, 2, want)


def wis_stack(t, ix, shape, method):
    """Which stacks are reported, and the draws as from each alone."""
    C = np.stack([STACK[i] for i in ix]).reshape(tuple(shape) + (2, 2))
    bad = [i for i in ix if i >= 4]

    def want(x, cv):
        t.reset()
        x = x.reshape(-1, 2, 2)
        e = ExtendedGenerator(t.b)
        for j, i in enumerate(ix):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                y = e.wishart(3, STACK[i], check_valid="ignore", method=method)
            if np.abs(x[j] - y).max() > 1e-9 * max(1, np.abs(y).max()):
                return f"element {j} is {x[j].tolist()}, not {y.tolist()}"
    return judge_stack(t, lambda cv: t.e.wishart(3, C, check_valid=cv, method=method),
                       bad, method, len(ix), 2, want)


# ----------------------------------------------------------------- complex_normal
GAM = [0, 0.25, 0.5, 1, 1.5, 2, 2.5, 3, 5, 13, -1]
REL = [x / 4 for x in range(-8, 9)]
REL5 = [complex(a, b) for a in (-13, -5, -4, -3, 0, 3, 4, 5, 12, 13)
        for b in (-13, -12, -4, -3, 0, 3, 4, 5, 12)]


def cn_one(t, g, r):
    """Scalar, sized and array calls of one (gamma, relation)."""
    vr, vi, c = Fraction(g + r.real) / 2, Fraction(g - r.real) / 2, Fraction(r.imag) / 2
    ok = vr >= 0 and vi >= 0 and c * c <= vr * vi
    z, zi, after = t.normals(4, 2)
    loc = 2 - 1j
    calls = dict(
        scalar=lambda: np.array([t.e.complex_normal(loc, g, r) for _ in range(4)]),
        sized=lambda: t.e.complex_normal(loc, g, r, size=(2, 2)).ravel(),
        array=lambda: t.e.complex_normal(np.full(4, loc), g, r),
        gammas=lambda: t.e.complex_normal(loc, [g] * 4, [r]),
        sized_array=lambda: t.e.complex_normal(loc, g, [r], size=4),
        numpy=lambda: np.array([t.e.complex_normal(np.complex64(loc), np.float32(g),
                                                   np.array(r)) for _ in range(4)]))
    for name, f in calls.items():
        x, rep, ex = call(t, f)
        if not ok:
            if not isinstance(ex, ValueError):
                return f"{name}: not refused ({ex!r})"
            continue
        if ex is not None or rep:
            return f"{name}: refused: {ex!r}, {rep} warnings"
        y = np.stack([x.real - 2, x.imag + 1], axis=1)
        B = zi @ y
        if np.abs(z @ B - y).max() > 1e-9:
            return f"{name}: not a linear map of the standard draws"
        if canon(t.a.state) != after:
            return f"{name}: the stream is not after the standard draws"
        G = B.T @ B
        want = np.array([[vr, c], [c, vi]], dtype=float)
        if np.abs(G - want).max() > 1e-9 * max(1, abs(g)):
            return f"{name}: the covariance applied is {G.tolist()}, not {want.tolist()}"
    return None


# ------------------------------------------------------------------------ wishart
def wis_one(t, cov, df, method, rank):
    c = np.array(cov, dtype=float)
    n = len(c)
    kind = definite(cov)
    iu = np.triu_indices(n)
    q = len(iu[0])
    m = q + 2
    key = "w", df, n
    if key not in _z:
        t.reset()
        W = np.array([wishart_ref(t.g, df, n) for _ in range(m)])
        V = np.array([[w[i, j] for i, j in zip(*iu)] for w in W])
        _z[key] = V, np.linalg.pinv(V), canon(t.b.state)
    V, Vi, after = _z[key]
    for cv in ("raise", "warn", "ignore"):
        r, rep, ex = call(t, lambda: t.e.wishart(df, c, m, check_valid=cv, rank=rank,
                                                 method=method))
        if isinstance(ex, AssertionError):
            return f"check_valid={cv}: {ex}"
        if kind == "no":
            if method == "cholesky":
                if ex is None:
                    return f"check_valid={cv}: not refused"
            elif cv == "raise" and not isinstance(ex, ValueError):
                return f"check_valid=raise gave {ex!r}"
            elif cv == "warn" and (ex or rep != 1):
                return f"check_valid=warn gave {rep} warnings, {ex!r}"
            elif cv == "ignore" and (ex or rep):
                return f"check_valid=ignore gave {rep} warnings, {ex!r}"
            continue
        if method == "cholesky" and kind == "psd" and rank is None and ex is not None:
            continue
        if ex is not None or rep:
            return f"check_valid={cv}: {kind} but reported: {ex!r}, {rep} warnings"
        T = Vi @ r.reshape(m, n * n)
        if np.abs(V @ T - r.reshape(m, n * n)).max() > 1e-8 * max(1, np.abs(r).max()):
            return "the result is not a linear map of the standard Wishart draws"
        if canon(t.a.state) != after:
            return "the stream is not after the standard draws"
        M = T.reshape(q, n, n)
        s = 1e-7 * max(1, np.abs(c).max())
        tot = sum(M[k] for k in range(q) if iu[0][k] == iu[1][k])
        if np.abs(tot - c).max() > s:
            return f"A A' is {tot.tolist()}"
        for k in range(q):
            if iu[0][k] == iu[1][k]:
                e = np.linalg.eigvalsh((M[k] + M[k].T) / 2)
                if (np.abs(e[:-1]) > s * 10).any():
                    return "the map is not A W A'"
    return None


def wis_cases(name, big):
    for i, cov in enumerate(fam(name)):
        if name.startswith("3.") and not big and i % 5:
            continue
        n = len(cov)
        kind = definite(cov)
        r = int(np.linalg.matrix_rank(np.array(cov, float))) if kind != "no" else n
        for df in range(1, n + 3) if kind != "no" else (1, n + 1):
            yield cov, df, None
            if kind != "no" and 0 < r < n:
                yield cov, df, r


# -------------------------------------------------------------------------- tasks
METHODS = ("svd", "eigh", "cholesky")


def tasks(tier):
    big = tier == "thorough"
    fams = ["1", "2", "3.0", "3.1", "3.2", "big"] + [f"L2.{i}" for i in range(8)]
    if big:
        fams += [f"L3.{i}" for i in range(8)] + ["neg4"]
    out = [dict(f="mvn", n=f, m=m) for f in fams for m in METHODS]
    parts = 4 if not big else 32
    out += [dict(f="mvc", p=i, parts=parts, cols=4 if big else 3, m=m)
            for i in range(parts) for m in METHODS]
    out += [dict(f="mvc1", m=m) for m in METHODS]
    out += [dict(f="wis", n=f, m=m, big=big) for f in ("1", "2", "3.0", "3.1", "3.2")
            for m in METHODS]
    out += [dict(f="cn", i=i) for i in range(len(GAM))]
    out += [dict(f="cn5", i=i) for i in range(4)]
    out += [dict(f="stack", m=m, n=n) for m in METHODS for n in ((1, 2, 3, 4) if big else
                                                                 (1, 2, 3))]
    out += [dict(f="cstack", m=m, n=n, o=o) for m in METHODS
            for n in ((1, 2, 3) if big else (1, 2)) for o in (0, 1)]
    out += [dict(f="factor"), dict(f="tol")]
    return out


def cases(t):
    f = t["f"]
    if f == "mvn":
        for i, cov in enumerate(fam(t["n"])):
            cov = np.array(cov).tolist()
            yield "mvn", (cov, 1.0, t["m"])
            if t["n"] in ("1", "2") or t["n"] == "big" or i % 37 == 0:
                if definite(cov) != "no":
                    yield "mvn", (cov, 2.0 ** 12, t["m"])
                    yield "mvn", (cov, 2.0 ** -12, t["m"])
    elif f == "mvc":
        for g, r in mvc_cases(t["p"], t["parts"], t["cols"]):
            yield "mvc", (g, r, t["m"])
    elif f == "mvc1":
        for g in (0, 1, 2, 5):
            for a, b in itertools.product((-5, -4, -3, -1, 0, 1, 2, 3, 4, 5), repeat=2):
                yield "mvc", ([[g]], [[complex(a, b)]], t["m"])
    elif f == "wis":
        for cov, df, rank in wis_cases(t["n"], t["big"]):
            yield "wis", (cov, df, t["m"], rank)
    elif f == "cn":
        for a, b in itertools.product(REL, repeat=2):
            yield "cn", (GAM[t["i"]], complex(a, b))
    elif f == "cn5":
        for r in REL5:
            yield "cn", ((3, 4, 5, 13)[t["i"]], r)
    elif f == "stack":
        n = t["n"]
        for ix in itertools.product(range(6), repeat=n):
            for sh in {(n,), (1, n), (n, 1), (2, 2) if n == 4 else (n,)}:
                yield "mvn_stack", (list(ix), list(sh), t["m"])
                yield "wis_stack", (list(ix), list(sh), t["m"])
    elif f == "cstack":
        n, rng = t["n"], range(6)
        if n == 3:
            rng = (0, 1, 4) if t["o"] else (0, 1, 3, 5)
        for ig in itertools.product(rng, repeat=n):
            for ir in itertools.product(rng, repeat=n):
                yield "mvc_stack", (list(ig), list(ir), t["o"], t["m"])
    elif f == "factor":
        for F in itertools.product((-1, 0, 1, 2), repeat=4):
            yield "factor", (np.array(F).reshape(2, 2).tolist(),)
        for F in itertools.product((-1, 0, 2), repeat=6):
            yield "factor", ([[F[0], F[1], 1], [F[2], F[3], F[4]], [0, F[5], 3]],)
    else:
        for m in ("svd", "eigh"):
            for k in range(2, 11):
                for d in (2, 3, -2, -3):
                    for n in (1, 2, 3, 5):
                        yield "tol", (m, 10.0 ** -k, 10.0 ** (d - k), n)


FUN = dict(mvn=mvn_one, mvc=mvc_one, wis=wis_one, cn=cn_one, factor=factor_one,
           tol=tol_one, mvn_stack=mvn_stack, mvc_stack=mvc_stack,
           wis_stack=wis_stack)


def plain(x):
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, complex):
        return dict(re=x.real, im=x.imag)
    return x


def unplain(x):
    if isinstance(x, list):
        return [unplain(v) for v in x]
    if isinstance(x, dict):
        return complex(x["re"], x["im"])
    return x


def run(t):
    res = Res()
    two = Two()
    n = 0
    for f, a in cases(t):
        m = FUN[f](two, *a)
        n += 1
        if m:
            res.bad(dict(f=f, a=plain(a)), f"{f}{plain(a)}: {m}", key=f"{f} {m[:40]}")
    res.d["states"] = res.d["transitions"] = res.d["traces"] = n
    res.sample(f"{t}: {n} cases")
    return res.out()


def replay(c):
    m = FUN[c["f"]](Two(), *unplain(c["a"]))
    return [m] if m else []
