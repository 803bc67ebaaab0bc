"""C18: entropy requests are filled completely or fail visibly.

The entropy extension is built with stand-ins for the system calls of the entropy
source. Every script of outcomes of open, read, close and malloc in the bounds is
run against every request, and the result is judged from what the stand-ins wrote."""
import ctypes
import errno
import glob
import itertools
import os
import subprocess
import tempfile
import warnings

import numpy as np
from randomgen import entropy

from mc.core import Res

META = dict(
    level="model_checking",
    bounds=dict(
        quick="4 outcomes of open x read scripts of length <= 3 over 9 outcomes x 3 of "
              "close x 2 of malloc, 13 requests, 3 sources; seed_by_array: every word "
              "vector of length <= 3 over 6 boundary words, n <= 6, each encoding",
        thorough="read scripts of length <= 5, sequences of two requests; word vectors "
                 "of length <= 4"),
    assumptions=["the source is reached through open/read/close, getrandom or "
                 "getentropy; the Windows branch is compiled against stub headers"],
)
M64 = (1 << 64) - 1


class OS(ctypes.Structure):
    _fields_ = [("open_err", ctypes.c_int32 * 8), ("read_res", ctypes.c_int64 * 16),
                ("close_err", ctypes.c_int32 * 8), ("malloc_fail", ctypes.c_int32),
                ("fd", ctypes.c_int32), ("nopen", ctypes.c_int32),
                ("nread", ctypes.c_int32), ("nclose", ctypes.c_int32),
                ("nmalloc", ctypes.c_int32), ("outstanding", ctypes.c_int32),
                ("badfd", ctypes.c_int32), ("delivered", ctypes.c_int64),
                ("clock", ctypes.c_int64), ("ntime", ctypes.c_int32)]


_os = None


def script():
    global _os
    if _os is None:
        d = os.path.dirname(entropy.__file__)
        _os = OS.in_dll(ctypes.CDLL(glob.glob(os.path.join(d, "entropy.*.so"))[0]), "mc_os")
    return _os


def byte(i):
    z = (i // 8 + 1) * 0x9E3779B97F4A7C15 & M64
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    z ^= z >> 31
    return (z >> 8 * (i % 8) & 0xFF) | 1


BYTES = bytes(byte(i) for i in range(300000))
SIZES = [None, 0, 1, 2, 5, 7, (3,), (2, 3), (0,), (3, 0), (1, 1, 2), 600, 9000]
READS = ["all", 0, 1, 3, 4, "n-1", "half", -errno.EINTR, -errno.EIO]


def numel(size):
    return 1 if size is None else int(np.prod(size, dtype=int))


def setup(o, op, reads, close, mal, fd, n):
    ctypes.memset(ctypes.byref(o), 0, ctypes.sizeof(o))
    o.fd = fd
    for i, e in enumerate(op):
        o.open_err[i] = e
    for i in range(16):
        o.read_res[i] = -1000
    for i, r in enumerate(reads):
        r = {"all": -1000, "n-1": max(4 * n - 1, 0), "half": 2 * n}.get(r, r)
        o.read_res[i] = r
    for i, e in enumerate(close):
        o.close_err[i] = e
    o.malloc_fail = mal
    o.clock = 1000


def ask(size, source):
    """(value or None, exception name or None, warned)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v, x = entropy.random_entropy(size, source), None
        except RuntimeError as e:
            v, x = None, e
        except MemoryError as e:
            v, x = None, e
    return v, x, any(issubclass(i.category, RuntimeWarning) for i in w)


_fall = {}


def fallback(size):
    """The fallback result from the fixed clock with no faults."""
    k = repr(size)
    if k not in _fall:
        o = script()
        setup(o, (), (), (), 0, 55, numel(size))
        v, x, w = ask(size, "fallback")
        if x is not None or w:
            raise AssertionError(f"fallback without faults: {x}")
        setup(o, (), (), (), 0, 55, numel(size))
        o.clock = 987654321
        v2, _, _ = ask(size, "fallback")
        a, b = np.ravel(np.asarray(v)), np.ravel(np.asarray(v2))
        same = int((a == b).sum()) if a.size else 0
        _fall[k] = (v, same, a.size)
    return _fall[k]


def one(size, source, op, reads, close, mal, fd, again=False):
    """What is wrong with this request under this script, or None."""
    n = numel(size)
    fb, same, _ = fallback(size)
    if same > (0 if n < 50 else n // 1000):
        return f"{same} words of the fallback do not depend on the time: not filled"
    o = script()
    setup(o, op, reads, close, mal, fd, n)
    d0 = 0
    for rep in range(2 if again else 1):
        d0 = o.delivered
        o.clock = 1000
        v, x, warned = ask(size, source)
        used_fault = (any(o.open_err[i] for i in range(min(o.nopen, 8)))
                      or any(o.read_res[i] != -1000 for i in range(min(o.nread, 16)))
                      or any(o.close_err[i] for i in range(min(o.nclose, 8)))
                      or o.malloc_fail < mal)
        if o.badfd:
            return "read or closed a descriptor that was not open"
        if o.outstanding:
            return "left the entropy source open"
        if x is not None:
            if not used_fault:
                return f"raised without a fault: {x}"
            if source == "auto" and not o.malloc_fail < mal:
                return f"source 'auto' raised instead of falling back: {x}"
            continue
        shape = () if size is None else (size if isinstance(size, tuple) else (size,))
        if np.shape(v) != shape:
            return f"shape {np.shape(v)}, not {shape}"
        a = np.ravel(np.asarray(v))
        if size is not None and a.dtype != np.uint32:
            return f"dtype {a.dtype}"
        if size is None and not 0 <= v < 2**32:
            return f"value {v}"
        got = a.astype("<u4").tobytes()
        if source == "fallback" or warned:
            if source == "system":
                return "source 'system' warned instead of raising"
            if warned and not used_fault:
                return "fell back without a fault"
            if not np.array_equal(np.asarray(v), np.asarray(fb)):
                return "the fallback result is not the hash of the time that fallback gives"
            if source == "fallback" and o.nread:
                return "source 'fallback' read the system source"
        else:
            # the words must be bytes the system delivered in this request, complete
            lo, hi = d0, o.delivered
            want = BYTES[hi - 4 * n:hi]
            if hi - lo < 4 * n or got != want:
                if got == BYTES[lo:lo + 4 * n] and hi - lo >= 4 * n:
                    continue
                return "returned words the system did not deliver"
    return None


def sm64(s):
    s = (s + 0x9E3779B97F4A7C15) & M64
    z = s
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
    return s, z ^ z >> 31


def ref_seed(words, n):
    out, s, loc = [0] * n, 0, 0
    for i in range(max(n, len(words))):
        if i < len(words):
            s ^= words[i]
        s, out[loc] = sm64(s)
        loc = (loc + 1) % n
    return out


def encodings(words):
    if len(words) == 1:
        yield "int", words[0]
        yield "np.uint64", np.uint64(words[0])
        yield "0-d", np.array(words[0], dtype=np.uint64)
        for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64):
            if words[0] <= np.iinfo(t).max:
                yield t.__name__, t(words[0])
    yield "list", list(words)
    yield "tuple", tuple(words)
    yield "uint64", np.array(words, dtype=np.uint64)
    yield "object", np.array(words, dtype=object)
    b = np.zeros(2 * len(words) + 1, dtype=np.uint64)
    b[1::2] = words
    yield "strided", b[1::2]
    yield "reversed", np.array(words[::-1], dtype=np.uint64)[::-1]
    yield "big-endian", np.array(words, dtype=">u8")
    yield "2-d", np.array([words], dtype=np.uint64)
    for t in (np.uint8, np.int8, np.uint16, np.uint32, np.int32, np.int64):
        if all(w <= np.iinfo(t).max for w in words):
            yield t.__name__ + "s", np.array(words, dtype=t)
    if all(w <= 2**53 for w in words):
        yield "floats", np.array(words, dtype=float)
    r = np.array(words, dtype=np.uint64)
    r.flags.writeable = False
    yield "read-only", r


def seed_one(words, n, enc):
    x = dict(encodings(words))[enc]
    before = x.copy() if isinstance(x, np.ndarray) else x
    a = entropy.seed_by_array(x, n)
    if a.dtype != np.uint64 or a.shape != (n,):
        return f"gave {a.dtype} {a.shape}"
    if a.tolist() != ref_seed(words, n):
        return f"gave {a.tolist()[:3]}, not {ref_seed(words, n)[:3]}"
    if isinstance(x, np.ndarray) and not (x == before).all():
        return "changed its argument"
    a[:] = 0
    if entropy.seed_by_array(x, n).tolist() != ref_seed(words, n):
        return "the second call gave another result"
    return None


BADSEEDS = [-1, 2**64, 1.5, [1, -1], [2**64], [1.5], "a", [[1, 2], [3, 4]], None, 1j,
            [1, "a"], np.array([0.5]), float("nan"), [float("inf")], 1e30]


class Win(ctypes.Structure):
    _fields_ = [("acquire", ctypes.c_int32), ("gen", ctypes.c_int32),
                ("outstanding", ctypes.c_int32), ("clock", ctypes.c_int64)]


def windows(res):
    src = os.path.join(os.path.dirname(entropy.__file__), "src", "entropy", "entropy.c")
    here = os.path.join(os.path.dirname(__file__), "..", "shims", "win")
    with tempfile.TemporaryDirectory() as t:
        so = os.path.join(t, "w.so")
        p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-D_WIN32", "-I", here,
                            "-o", so, src], capture_output=True, text=True)
        if p.returncode:
            res.notes.append("the Windows branch does not compile against the stubs")
            return
        lib = ctypes.CDLL(so)
        lib.entropy_getbytes.restype = ctypes.c_bool
        lib.entropy_fallback_getbytes.restype = ctypes.c_bool
        lib.entropy_getbytes.argtypes = lib.entropy_fallback_getbytes.argtypes = [
            ctypes.c_void_p, ctypes.c_size_t]
        w = Win.in_dll(lib, "mc_win")
        for acq, gen, n in itertools.product((0, 1, 2), (0, 1), (4, 8, 12, 4000)):
            w.acquire, w.gen, w.outstanding = acq, gen, 0
            b = ctypes.create_string_buffer(b"\x5a" * (n + 8), n + 8)
            ok = lib.entropy_getbytes(b, n)
            full = b.raw[:n] == b"\xc7" * n
            res.d["states"] += 1
            res.d["transitions"] += 1
            res.d["traces"] += 1
            m = None
            if ok and not full:
                m = "success was reported for a buffer that was not filled"
            elif not ok and not acq and not gen:
                m = "failed without a fault"
            elif b.raw[n:] != b"\x5a" * 8:
                m = "wrote past the end"
            elif w.outstanding:
                m = "the provider was not released"
            if m:
                res.bad(None, f"Windows: acquire={acq} gen={gen} size={n}: {m}",
                        key=f"windows {m}")
            w.clock = 5
            lib.entropy_fallback_getbytes(b, n)
            if b.raw[n:] != b"\x5a" * 8:
                res.bad(None, "Windows: fallback wrote past the end")


def scripts(tier):
    L = 3 if tier == "quick" else 5
    rs = [()]
    for k in range(1, L + 1):
        base = READS if k <= 3 else ["all", 1, 0, -errno.EINTR]
        rs += list(itertools.product(base, repeat=k))
    for op in ((), (errno.ENOENT,), (errno.EMFILE,), (errno.EINTR,)):
        for r in rs:
            if op and len(r) > 1:
                continue
            for cl in ((), (errno.EIO,), (errno.EINTR,)):
                if cl and len(r) > 2:
                    continue
                for mal in (0, 1):
                    yield op, r, cl, mal


def tasks(tier):
    out = [dict(kind="os", size=i, tier=tier) for i in range(len(SIZES))]
    out += [dict(kind="seed", n=n, tier=tier) for n in range(1, 7)]
    out.append(dict(kind="misc"))
    return out


def run(task):
    res = Res()
    if task["kind"] == "os":
        size = SIZES[task["size"]]
        big = numel(size) > 5000
        for op, r, cl, mal in scripts(task["tier"]):
            if big and len(r) > 1:
                continue
            for source in ("system", "auto", "fallback"):
                if source == "fallback" and len(r) > 1:
                    continue
                for fd in (55, 0) if len(r) <= 1 else (55,):
                    again = len(r) <= 2
                    m = one(size, source, op, r, cl, mal, fd, again)
                    res.d["states"] += 1
                    res.d["transitions"] += 2 if again else 1
                    res.d["traces"] += 1
                    if m:
                        res.bad(dict(kind="os", size=task["size"], source=source, op=op,
                                     reads=r, close=cl, mal=mal, fd=fd, again=again),
                                f"random_entropy({size}, {source!r}) with open {op} read "
                                f"{r} close {cl} malloc {mal} fd {fd}: {m}", key=m[:50])
        res.sample(f"size {size}: every script such as open ok, read {r}")
    elif task["kind"] == "seed":
        B = [0, 1, M64, 1 << 63, (1 << 32) - 1, 0x0123456789ABCDEF]
        n = task["n"]
        for k in range(1, 4 if task["tier"] == "quick" else 5):
            for words in itertools.product(B, repeat=k):
                for enc, _ in encodings(words):
                    m = seed_one(words, n, enc)
                    res.d["states"] += 1
                    res.d["transitions"] += 2
                    res.d["traces"] += 1
                    if m:
                        res.bad(dict(kind="seed", words=words, n=n, enc=enc),
                                f"seed_by_array({words} as {enc}, {n}): {m}", key=m[:30])
        for b in BADSEEDS:
            res.d["states"] += 1
            try:
                v = entropy.seed_by_array(b, n)
            except (TypeError, ValueError, OverflowError):
                continue
            res.bad(dict(kind="bad", seed=repr(b), n=n),
                    f"seed_by_array({b!r}, {n}) gave {v.tolist()}", key="bad seed accepted")
    else:
        windows(res)
        for bad in ("x", "", "SYSTEM", None, 3):
            res.d["states"] += 1
            try:
                entropy.random_entropy(2, bad)
            except (ValueError, TypeError):
                continue
            res.bad(None, f"source {bad!r} accepted", key="source")
    return res.out()


def replay(case):
    if case["kind"] == "os":
        m = one(SIZES[case["size"]], case["source"], case["op"], case["reads"],
                case["close"], case["mal"], case["fd"], case["again"])
    elif case["kind"] == "seed":
        m = seed_one(tuple(case["words"]), case["n"], case["enc"])
    else:
        try:
            m = repr(entropy.seed_by_array(BADSEEDS[[repr(b) for b in BADSEEDS].index(
                case["seed"])], case["n"]))
        except (TypeError, ValueError, OverflowError):
            m = None
    return [m] if m else []
