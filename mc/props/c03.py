"""C03: advance(n) is exactly n draws, from every position, and composes."""
import itertools

from mc.core import Res
from mc.far import FarTape
from mc.gens import BYKEY, CONFIGS, Box, Model, apply_model

META = dict(
    level="model_checking",
    bounds=dict(
        quick="every position up to two internal blocks and both sides of the end of "
              "the period, with and without a pending half, x every power of two of "
              "the period, its neighbours and negatives; all sequences of 3 operations "
              "(advances and draws); counter=True the same",
        thorough="positions up to four blocks, all sequences of 4 operations"),
    assumptions=["words far away are taken from generators constructed with the "
                 "counter, or from the closed form of the congruential state"],
)
ADV = [c for c in CONFIGS if c.adv]
TAIL = [("u32", 0), ("raw", 1), ("u32", 0), ("u32", 0)]


def neg(cfg):
    return cfg.adv.get("neg", True)


def amounts(cfg, full=True):
    bits, b = cfg.adv["bits"], cfg.block
    small = [0, 1, 2, 3, b - 1, b, b + 1, 2 * b, 2 * b + 1]
    if not full:
        a = [1, b, b + 1, 3, 2**(bits // 2) + 1, 2**bits - 1]
        return a + [-1, -b - 1] if neg(cfg) else a
    a = small + [1 << k for k in range(bits)] + [(1 << k) - 1 for k in range(bits)]
    a += [(1 << bits) - 1, (1 << bits) - 5]
    if neg(cfg):
        a += [-x for x in small] + [-(1 << k) for k in range(0, bits, 3)]
        a += [1 << bits, (1 << bits) + 3, (1 << (bits + 5)) + 1, -(1 << bits) - 1]
    return list(dict.fromkeys(a))


def apply_adv(m, op, cfg):
    if op[0] == "adv":
        m.pos = (m.pos + op[1]) % m.t.period
        if op[1] % m.t.period:
            m.half = None
        elif m.half is not None:
            m.half = "either"
    else:  # advance(counter=True): blocks, from a block boundary
        n = cfg.block
        per = m.t.period // n
        if op[1] % per == 0 and op[1] == 0:
            if m.half is not None:
                m.half = "either"
            return
        m.pos = ((-(-m.pos // n) + op[1]) % per) * n
        m.half = None


def play(cfg, tape, seq, start):
    """None or what is wrong. start: position of the first word."""
    box = Box(tape._gen(start - start % tape.per))
    m = Model(tape, start - start % tape.per)
    r = start % tape.per
    if r:
        box.bg.random_raw(r)
        m.pos += r
    for op in list(seq) + TAIL + [("raw", cfg.block // cfg.raw_words + 1)]:
        if op[0] in ("adv", "advc"):
            box.do(cfg, op)
            apply_adv(m, op, cfg)
            continue
        got = box.do(cfg, op)
        if m.half == "either":
            if op[0] != "u32":
                h = None  # cannot be told apart here; find out from the state
                h = box.bg.state.get("has_uint32", 0)
                m2 = Model(tape, m.pos, None)
                want = apply_model(m2, op)
                m.pos = m2.pos
                m.half = "either" if h else None
                if got != want:
                    return f"{cfg.key}: {op} in {seq} from word {start}: {got} is not {want}"
                continue
            m1 = Model(tape, m.pos, m.prev)
            m2 = Model(tape, m.pos, None)
            w1, w2 = apply_model(m1, op), apply_model(m2, op)
            if got == w1:
                m.pos, m.half = m1.pos, m1.half
            elif got == w2:
                m.pos, m.half = m2.pos, m2.half
            else:
                return f"{cfg.key}: {op} in {seq} from word {start}: {got} is not {w2}"
            m.prev = m.half
            continue
        want = apply_model(m, op)
        m.prev = m.half
        m.pos %= tape.period
        if got != want:
            return (f"{cfg.key}: {op} after {seq} from word {start} "
                    f"gave {str(got)[:160]}, not {str(want)[:160]}")
    return None


def starts(cfg, tier):
    n = (2 if tier == "quick" else 4) * cfg.block + 2
    s = list(range(n))
    P = 1 << cfg.adv["bits"]
    e = cfg.block + 1
    s += list(range(P - e, P))
    if tier == "thorough":
        s += [P // 2 - 1, P // 2, P // 2 + 1, P // 4 + 1]
    if cfg.dec == "s32lh":
        # raw draws make pairs of words: only the start parity matters
        s = [x for x in s]
    return s


def tasks(tier):
    out = []
    for c in ADV:
        s = starts(c, tier)
        for i in range(0, len(s), 6):
            out.append(dict(cfg=c.key, kind="one", starts=s[i:i + 6]))
        for kind in ("seq", "seqc"):
            if kind == "seqc" and not c.adv.get("kw"):
                continue
            for f in range(len(alpha(c, kind))):
                out.append(dict(cfg=c.key, kind=kind, first=f,
                                n=3 if tier == "quick" else 4))
    out.sort(key=lambda t: t["kind"])
    return out


def alpha(cfg, kind):
    a = [("adv", n) for n in amounts(cfg, False)]
    if kind == "seqc":
        nb = cfg.adv["bits"] - (1 if cfg.block == 2 else 2)
        a = [("advc", 1), ("advc", 3), ("advc", -1), ("advc", 2**(nb - 1) + 1),
             ("advc", 0), ("adv", 1), ("adv", cfg.block + 1)]
    return a + [("raw", 1), ("u32", 0), ("dbl", 0)]


def run(task):
    res = Res()
    cfg = BYKEY[task["cfg"]]
    tape = FarTape(cfg)
    seen = set()

    def check(seq, start):
        what = play(cfg, tape, seq, start)
        res.d["traces"] += 1
        res.d["transitions"] += len(seq) + len(TAIL) + 1
        if what:
            res.bad(dict(cfg=cfg.key, seq=seq, start=start), what,
                    key=f"{cfg.key} {task['kind']} {len(res.violations)}")

    if task["kind"] == "one":
        am = amounts(cfg)
        if cfg.adv.get("kw"):
            nb = cfg.adv["bits"] - (1 if cfg.block == 2 else 2)
            amc = [0, 1, 2, -1] + [1 << k for k in range(nb)] + [
                (1 << k) - 1 for k in range(1, nb, 5)]
        else:
            amc = []
        for s in task["starts"]:
            for pre in ([], [("u32", 0)]):
                if pre and cfg.dec != "b64":
                    continue
                for n in am:
                    seen.add((s, len(pre), n))
                    check(pre + [("adv", n)], s)
                for n in amc:
                    seen.add((s, len(pre), n, 1))
                    check(pre + [("advc", n)], s)
            if len(res.violations) > 8:
                break
    else:
        a = alpha(cfg, task["kind"])
        f = a[task["first"]]
        for k in range(task["n"]):
            for rest in itertools.product(a, repeat=k):
                for s in (0, 1):
                    seen.add((s, f) + rest)
                    check([f] + list(rest), s)
                if len(res.violations) > 8:
                    return res.out()
    res.d["states"] = len(seen)
    res.sample(f"{cfg.key}: {str(task)[:90]}: {len(seen)} situations")
    return res.out()


def replay(case):
    cfg = BYKEY[case["cfg"]]
    m = play(cfg, FarTape(cfg), [tuple(x) for x in case["seq"]], case["start"])
    return [m] if m else []
