"""A small compiled word source for UserBitGenerator.from_ctypes."""
import atexit
import ctypes
import os
import shutil
import subprocess
import tempfile

import numpy as np
from randomgen import UserBitGenerator

SRC = r"""
#include <stdint.h>
typedef struct { uint64_t n, pos, ctr; const uint64_t *tape; uint64_t calls[4]; } T;
/* tape words while there are any, then a counter */
static uint64_t next(T *t) { return t->pos < t->n ? t->tape[t->pos++] : t->ctr++; }
uint64_t mc_raw(void *p) { T *t = p; t->calls[0]++; return next(t); }
uint64_t mc_64(void *p) { T *t = p; t->calls[1]++; return next(t); }
uint32_t mc_32(void *p) { T *t = p; t->calls[2]++; return (uint32_t)next(t); }
double mc_double(void *p) { T *t = p; t->calls[3]++;
  return (next(t) >> 11) * (1.0 / 9007199254740992.0); }
"""


class State(ctypes.Structure):
    _fields_ = [("n", ctypes.c_uint64), ("pos", ctypes.c_uint64),
                ("ctr", ctypes.c_uint64), ("tape", ctypes.c_void_p),
                ("calls", ctypes.c_uint64 * 4)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        d = tempfile.mkdtemp(prefix="mc-chelp.")
        atexit.register(shutil.rmtree, d, True)
        with open(os.path.join(d, "w.c"), "w") as f:
            f.write(SRC)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(d, "w.so"),
                        os.path.join(d, "w.c")], check=True, stdin=subprocess.DEVNULL)
        _lib = ctypes.CDLL(os.path.join(d, "w.so"))
        for f, r in (("mc_raw", ctypes.c_uint64), ("mc_64", ctypes.c_uint64),
                     ("mc_32", ctypes.c_uint32), ("mc_double", ctypes.c_double)):
            getattr(_lib, f).restype = r
            getattr(_lib, f).argtypes = (ctypes.c_void_p,)
    return _lib


class Source:
    """A UserBitGenerator over a tape of words followed by a counter."""

    def __init__(self, tape=(), ctr=0):
        self.tape = np.array(tape, dtype=np.uint64)
        self.st = State(len(self.tape), 0, ctr, self.tape.ctypes.data)
        self.ptr = ctypes.cast(ctypes.pointer(self.st), ctypes.c_void_p)
        L = lib()
        self.bg = UserBitGenerator.from_ctypes(L.mc_raw, L.mc_64, L.mc_32, L.mc_double,
                                               self.ptr)

    def load(self, tape=(), ctr=0):
        self.tape = np.array(tape, dtype=np.uint64)
        self.st.n, self.st.pos, self.st.ctr = len(self.tape), 0, ctr
        self.st.tape = self.tape.ctypes.data
