"""C16: array parameters sample like their broadcast elements.

Every combination of parameter shapes in the bounds x every size derived from the
broadcast shape x method. Each result is compared with single calls made one after
the other on a twin generator (their order is the specification), and the standard
Wishart draws with the Odell-Feiveson construction on numpy's own normal and
chi-square draws. Refused calls must leave the stream where it was."""
import itertools
import warnings

import numpy as np
from numpy.random import Generator
from randomgen import MT19937, PCG64, ExtendedGenerator, Philox

from mc.core import Res
from mc.gens import canon

META = dict(
    level="model_checking",
    bounds=dict(
        quick="parameter shapes: every shape of <= 2 dimensions of 1..3 elements, and of 3 "
              "dimensions of 1..2 (multivariate_complex_normal: <= 2 dimensions of 1..2), "
              "empty ones, all combinations; sizes: 14 kinds derived from the broadcast "
              "shape; N 1..3; 4 methods; 9 memory layouts and element types",
        thorough="also N 4, and multivariate_complex_normal with every shape of <= 2 "
                 "dimensions of 1..3 elements, and complex_normal of 3 dimensions"),
    assumptions=["numpy's broadcasting, Generator.standard_normal and Generator.chisquare"],
)
warnings.simplefilter("ignore")
RTOL = 1e-10


def shapes(nd, dims):
    for n in range(nd + 1):
        yield from itertools.product(dims, repeat=n)


LEADS = list(shapes(2, (1, 2, 3)))
LEADS3 = LEADS + list(itertools.product((1, 2), repeat=3)) + [(0,), (2, 0), (0, 1)]
SMALL = list(shapes(2, (1, 2)))


def bcast(*s):
    try:
        return np.broadcast_shapes(*s)
    except ValueError:
        return None


def sizes(b):
    """Sizes to ask for when the parameters broadcast to b."""
    k = len(b)
    out = [None, b, list(b), (2,) + b, (1,) + b, (0,) + b, (2, 3) + b, (1,) * k,
           (1,) + (1,) * k, b[1:], (), 0, 1, 2, np.int64(3)]
    for i in range(k):
        out.append(b[:i] + (b[i] + 1,) + b[i + 1:])
        out.append((2,) + b[:i] + (1,) + b[i + 1:])
        out.append(b[:i] + (0,) + b[i + 1:])
    if k == 2 and b[0] != b[1]:
        out.append(b[::-1])
    seen, res = set(), []
    for s in out:
        key = repr(s)
        if key not in seen:
            seen.add(key)
            res.append(s)
    return res


def astuple(size):
    return (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)


def shape_cn(b, size):
    """The documented output shape, or None if refused."""
    if b is None:
        return None
    if size is None:
        return b
    s = astuple(size)
    return s if bcast(s, b) == s else None


def shape_mvn(b, size):
    if b is None:
        return None
    if size is None:
        return b
    s = astuple(size)
    if len(s) < len(b):
        return None
    k = len(s) - len(b)
    out = list(s[:k])
    for x, y in zip(s[k:], b):
        if not (x == 1 or y == 1 or x == y):
            return None
        out.append(y if x == 1 else x)
    return tuple(out)


def shape_wish(b, size):
    if b is None:
        return None
    if size is None:
        return b
    s = astuple(size)
    return s if len(s) >= len(b) and s[len(s) - len(b):] == b else None


# ------------------------------------------------------------------ parameters
def idx(shape, start=0):
    return np.arange(int(np.prod(shape, dtype=int))).reshape(shape) + start


def mean_of(shape, n, start=0):
    return 10.0 * idx(shape, start)[..., None] + np.arange(n)


def cov_of(shape, n, start=0):
    base = np.full((n, n), 0.5) + np.eye(n) + np.diag(np.arange(n) * 0.25)
    return (1.0 + idx(shape, start))[..., None, None] * base


def gamma_of(shape, n):
    h = np.full((n, n), 0.25, dtype=complex) + np.eye(n) * 2
    h += 0.25j * (np.triu(np.ones((n, n)), 1) - np.tril(np.ones((n, n)), -1))
    return (1.0 + idx(shape))[..., None, None] * h


def rel_of(shape, n):
    r = np.full((n, n), 0.125 + 0.125j) + np.eye(n) * (0.25 - 0.125j)
    return (1.0 / (1.0 + idx(shape)))[..., None, None] * r


def pick(a, shape, loc, trail):
    """The parameter of element loc of the broadcast shape."""
    lead = a.shape[:a.ndim - trail]
    k = len(loc) - len(lead)
    assert k >= 0
    return a[tuple(0 if d == 1 else i for i, d in zip(loc[k:], lead))]


def close(x, y):
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    return np.allclose(x, y, rtol=RTOL, atol=RTOL * max(1.0, np.abs(y).max()))


class Pair:
    def __init__(self, cls=PCG64):
        self.a, self.b = cls(7), cls(7)
        self.ea, self.eb = ExtendedGenerator(self.a), ExtendedGenerator(self.b)

    def same(self):
        self.b.state = self.a.state


def judge(p, f, want_shape, trail, elem, order=None, inputs=()):
    """f() on the first generator against elem(loc) called in C order on the second."""
    p.same()
    s0 = canon(p.a.state)
    keep = [x.copy() if isinstance(x, np.ndarray) else None for x in inputs]
    try:
        r = f()
    except Exception as e:
        if want_shape is not None:
            return f"refused: {type(e).__name__}: {str(e)[:120]}"
        if canon(p.a.state) != s0:
            return f"refused ({type(e).__name__}), but it drew from the stream"
        if not p.a.lock.acquire(False):
            return f"refused ({type(e).__name__}), and the lock is still held"
        p.a.lock.release()
        return None
    for x, k in zip(inputs, keep):
        if k is not None and not np.array_equal(x, k):
            return "an argument was changed"
    if want_shape is None:
        return f"accepted, and returned shape {np.shape(r)}"
    if np.shape(r) != want_shape + trail:
        return f"returned shape {np.shape(r)}, not {want_shape + trail}"
    r = np.asarray(r)
    want = np.empty_like(r)
    for loc in (np.ndindex(*want_shape) if order is None else order):
        want[loc] = elem(loc)
    if canon(p.a.state) != canon(p.b.state):
        return "the stream is not where single calls leave it"
    if not close(r, want):
        bad = next(loc for loc in np.ndindex(*want_shape) if not close(r[loc], want[loc]))
        return (f"element {bad} is {np.ravel(r[bad])[:3]}, not "
                f"{np.ravel(want[bad])[:3]} as its parameters give alone")
    return None


# -------------------------------------------------------------------- functions
def cn(p, sl, sg, sr, size, conv=None):
    loc = (idx(sl) + 1j * (idx(sl) + 0.5)) * 10
    gam = 2.0 + idx(sg)
    rel = 1.0 / (1 + idx(sr)) + 0.25j * (1 + idx(sr) % 3)
    if conv:
        loc, gam, rel = conv(loc), conv(gam), conv(rel)
    b = bcast(sl, sg, sr)
    A = [np.asarray(x) for x in (loc, gam, rel)]
    if all(x.ndim == 0 for x in A):
        w = () if size is None else astuple(size)
    else:
        w = shape_cn(b, size)

    def elem(i):
        j = i[len(i) - len(b):]
        return p.eb.complex_normal(complex(pick(A[0], b, j, 0)),
                                   complex(pick(A[1], b, j, 0)),
                                   complex(pick(A[2], b, j, 0)))
    return judge(p, lambda: p.ea.complex_normal(loc, gam, rel, size), w, (), elem,
                 inputs=(loc, gam, rel))


def mvn(p, sm, sc, n, method, size, conv=None):
    mean, cov = mean_of(sm, n), cov_of(sc, n)
    if conv:
        mean, cov = conv(mean), conv(cov)
    M, C = np.asarray(mean), np.asarray(cov)
    b = bcast(sm, sc)
    w = shape_mvn(b, size)

    def elem(i):
        j = i[len(i) - len(b):]
        return p.eb.multivariate_normal(pick(M, b, j, 1), pick(C, b, j, 2), method=method)
    return judge(p, lambda: p.ea.multivariate_normal(mean, cov, size, method=method), w,
                 (n,), elem, inputs=(mean, cov))


def mvc(p, sl, sg, sr, n, method, size, conv=None):
    loc = mean_of(sl, n) * (1 + 0.5j)
    gam = None if sg is None else gamma_of(sg, n)
    rel = None if sr is None else rel_of(sr, n)
    if conv:
        loc, gam, rel = conv(loc), conv(gam), conv(rel)
    b = bcast(sl, sg or (), sr or ())
    w = shape_mvn(b, size)
    G, R = (None if x is None else np.asarray(x) for x in (gam, rel))
    L = np.asarray(loc)

    def elem(i):
        j = i[len(i) - len(b):]
        return p.eb.multivariate_complex_normal(
            pick(L, b, j, 1), np.eye(n) if G is None else pick(G, b, j, 2),
            np.zeros((n, n)) if R is None else pick(R, b, j, 2), method=method)
    return judge(p, lambda: p.ea.multivariate_complex_normal(loc, gam, rel, size,
                                                             method=method),
                 w, (n,), elem, inputs=(loc, gam, rel))


def wis(p, sd, ss, n, method, size, rank=None, conv=None, base=1):
    df = base + idx(sd) % 5
    scale = cov_of(ss, n)
    if conv:
        df, scale = conv(df), conv(scale)
    D, S = np.asarray(df), np.asarray(scale)
    b = bcast(sd, ss)
    if b == ():
        w = () if size is None else astuple(size)
    else:
        w = shape_wish(b, size)
    if 0 in sd or 0 in ss:
        w = None
    if w is not None and not isinstance(size, (tuple, type(None))):
        size = type(size)(size) if isinstance(size, list) else size

    def elem(i):
        j = i[len(i) - len(b):]
        return p.eb.wishart(int(pick(D, b, j, 0)), pick(S, b, j, 2), method=method,
                            rank=rank)
    order = None
    if w is not None and b is not None:
        k = len(w) - len(b)
        order = [q + r for r in np.ndindex(*b) for q in np.ndindex(*w[:k])]
    return judge(p, lambda: p.ea.wishart(df, scale, size, method=method, rank=rank), w,
                 (n, n), elem, order, inputs=(df, scale))


def wishart_ref(g, df, dim):
    if df < dim:
        x = g.standard_normal((df, dim))
        return x.T @ x
    t = np.zeros((dim, dim))
    for i in range(dim):
        t[i, i] = np.sqrt(g.chisquare(df - i))
        for j in range(i + 1, dim):
            t[i, j] = g.standard_normal()
    return t.T @ t


def swi(p, df, dim, size, rescale):
    if size is None:
        w = ()
    else:
        w = astuple(size)
    g = Generator(p.b)

    def elem(i):
        x = wishart_ref(g, df, dim)
        return x / df if rescale else x
    return judge(p, lambda: p.ea.standard_wishart(df, dim, size, rescale), w, (dim, dim),
                 elem)


# ---------------------------------------------------------------------- layouts
def strided(x):
    x = np.asarray(x)
    if x.ndim == 0:
        return x
    big = np.zeros(tuple(2 * d for d in x.shape), x.dtype)
    v = big[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def reverse(x):
    x = np.asarray(x)
    sl = tuple(slice(None, None, -1) for _ in x.shape)
    return x[sl].copy()[sl]


def readonly(x):
    x = np.array(x)
    x.flags.writeable = False
    return x


def misaligned(x):
    x = np.asarray(x)
    b = np.zeros(x.nbytes + 1, np.uint8)
    v = b[1:].view(x.dtype).reshape(x.shape)
    v[...] = x
    return v


def narrow(x):
    x = np.asarray(x)
    return x.astype({"c": np.complex64, "f": np.float32, "i": np.int16}[x.dtype.kind])


def swapped(x):
    x = np.asarray(x)
    return x.astype(x.dtype.newbyteorder())


CONV = dict(fortran=lambda x: np.asarray(x, order="F"), strided=strided, reverse=reverse,
            readonly=readonly, misaligned=misaligned, narrow=narrow, swapped=swapped,
            list=lambda x: None if x is None else np.asarray(x).tolist())


def conv_of(name):
    if name is None:
        return None
    f = CONV[name]
    return lambda x: None if x is None else f(x)


# ------------------------------------------------------------------------ tasks
METHODS = ("svd", "eigh", "cholesky", "factor")
BG = dict(p=PCG64, m=MT19937, x=Philox)


def tasks(tier):
    big = tier == "thorough"
    out = []
    ns = (1, 2, 3, 4) if big else (1, 2, 3)
    for sl in LEADS + [(0,), (2, 0)] + ([(2, 1, 2), (1, 2, 1)] if big else []):
        out.append(dict(f="cn", s=sl, big=big))
    for sm in LEADS3:
        for method in METHODS:
            out.append(dict(f="mvn", s=sm, m=method, ns=ns))
            out.append(dict(f="wis", s=sm, m=method, ns=ns))
    for sl in (LEADS if big else SMALL):
        for method in METHODS[:3]:
            out.append(dict(f="mvc", s=sl, m=method, big=big, ns=(1, 2)))
    out.append(dict(f="swi", big=big))
    for name in CONV:
        out.append(dict(f="lay", c=name))
    return out


def cases(t):
    f = t["f"]
    if f == "cn":
        sl = tuple(t["s"])
        L = LEADS + [(0,)] + (list(itertools.product((1, 2), repeat=3)) if t["big"] else [])
        for sg in L:
            for sr in L:
                b = bcast(sl, sg, sr)
                for size in (sizes(b) if b is not None else [None, (2,)]):
                    yield "cn", (sl, sg, sr, size), {}
    elif f == "mvn":
        sm = tuple(t["s"])
        for sc in LEADS3:
            b = bcast(sm, sc)
            for size in (sizes(b) if b is not None else [None, (2,)]):
                for n in t["ns"]:
                    yield "mvn", (sm, sc, n, t["m"], size), {}
    elif f == "wis":
        sd = tuple(t["s"])
        for ss in LEADS3:
            b = bcast(sd, ss)
            for size in (sizes(b) if b is not None else [None, (2,)]):
                for n in t["ns"]:
                    yield "wis", (sd, ss, n, t["m"], size), {}
                if t["m"] != "factor":
                    yield "wis", (sd, ss, 3, t["m"], size), dict(rank=2, base=2)
    elif f == "mvc":
        sl = tuple(t["s"])
        L = (LEADS if t["big"] else SMALL) + [None]
        for sg in L:
            for sr in L:
                b = bcast(sl, sg or (), sr or ())
                for size in (sizes(b) if b is not None else [None, (2,)]):
                    for n in t["ns"]:
                        yield "mvc", (sl, sg, sr, n, t["m"], size), {}
    elif f == "swi":
        for df in range(1, 9 if t["big"] else 7):
            for dim in range(1, 7 if t["big"] else 5):
                for size in (None, 0, 1, 2, np.int64(3), (), (2,), [2, 3], (2, 3), (1, 2),
                             (2, 0), (2, 1, 2)):
                    for r in (True, False):
                        yield "swi", (df, dim, size, r), {}
    else:
        c = t["c"]
        for sa, sb, sc in itertools.product([(), (2,), (3, 1), (3, 2)], repeat=3):
            b = bcast(sa, sb, sc)
            for size in (None, (2,) + b):
                yield "cn", (sa, sb, sc, size), dict(conv=c)
                for m in METHODS[:3]:
                    if sc == ():
                        yield "mvn", (sa, sb, 3, m, size), dict(conv=c)
                        yield "wis", (sa, sb, 3, m, (2,) + bcast(sa, sb)), dict(conv=c)
                    if len(sa) < 2:
                        yield "mvc", (sa, sb, sc, 2, m, size), dict(conv=c)


FUN = dict(cn=cn, mvn=mvn, wis=wis, mvc=mvc, swi=swi)


def enc(a):
    return [dict(t=list(x)) if isinstance(x, tuple) else
            dict(l=x) if isinstance(x, list) else
            dict(i=int(x)) if isinstance(x, np.integer) else x for x in a]


def dec(a):
    return [(tuple(x["t"]) if "t" in x else x["l"] if "l" in x else np.int64(x["i"]))
            if isinstance(x, dict) else x for x in a]


def one(p, f, a, k):
    k = dict(k)
    if "conv" in k:
        k["conv"] = conv_of(k["conv"])
    return FUN[f](p, *a, **k)


def run(t):
    res = Res()
    p = Pair(dict(cn=PCG64, mvn=PCG64, wis=PCG64, mvc=PCG64, swi=MT19937,
                  lay=Philox)[t["f"]])
    n = 0
    for f, a, k in cases(t):
        m = one(p, f, a, k)
        n += 1
        if m:
            res.bad(dict(f=f, a=enc(a), k=k), f"{f}{a} {k or ''}: {m}",
                    key=f"{f} {m[:24]}")
            p = Pair()
    res.d["states"] = res.d["transitions"] = res.d["traces"] = n
    res.sample(f"{t['f']} {t.get('s')} {t.get('m', '')}: {n} calls")
    return res.out()


def replay(c):
    m = one(Pair(), c["f"], dec(c["a"]), c["k"])
    return [m] if m else []
