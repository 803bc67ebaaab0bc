"""Decides one property: builds the tree under test, hands the tasks of the
property module to worker processes, confirms what they report in a fresh
process, and writes the evidence."""
import json
import os
import queue
import select
import signal
import subprocess
import sys
import tempfile
import threading
import time

from mc import build

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_JOBS", os.cpu_count() or 4))
TASK_TIMEOUT = 300.0 if "quick" in sys.argv[2:3] else 3000.0


class Crash(Exception):
    hang = False


class Worker:
    def __init__(self, prop, dirs, variant="std"):
        env = dict(os.environ)
        env["PYTHONPATH"] = dirs[variant] + os.pathsep + ROOT
        env["MC_DIRS"] = json.dumps(dirs)
        env["MC_VARIANT"] = variant
        env.update(build.runtime(variant))
        fd, self.notes = tempfile.mkstemp(dir=build.base())
        os.ftruncate(fd, 4096)
        os.close(fd)
        env["MC_NOTE"] = self.notes
        self.err = tempfile.TemporaryFile(dir=build.base())
        self.p = subprocess.Popen([sys.executable, "-m", "mc.worker", prop], cwd="/",
                                  env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err,
                                  start_new_session=True)
        self.buf = b""
        r = self._read(120)
        if "import_error" in r:
            raise SystemExit("property module failed to import:\n" + r["import_error"])

    def _read(self, timeout):
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.kill()
                e = Crash(f"no answer within {timeout:.0f} s" + self.noted())
                e.hang = True
                raise e
            if not select.select([fd], [], [], min(left, 5))[0]:
                continue
            data = os.read(fd, 1 << 20)
            if not data:
                raise self.crash()
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def death(self):
        """How the process died, and in which case."""
        rc = self.p.wait()
        self.err.seek(0)
        sys.stderr.write("".join(x for x in [self.err.read().decode(errors="replace")[:6000]]))
        self.err.seek(0)
        err = [x for x in self.err.read().decode(errors="replace").splitlines()
               if "ERROR" in x or "runtime error" in x or "Fatal Python" in x]
        if rc == -signal.SIGALRM:
            return "no end within the time for a case" + self.noted()
        return (f"the process died with status {rc}" + (f": {err[0]}" if err else "") +
                self.noted())

    def crash(self):
        e = Crash(self.death())
        e.hang = self.p.wait() == -signal.SIGALRM
        return e

    def noted(self):
        case = open(self.notes, "rb").read().split(b"\n")[0].strip(b"\0").decode()
        return f" in {case}" if case else ""

    def ask(self, req, timeout=TASK_TIMEOUT):
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            raise self.crash()
        return self._read(timeout)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def load_known(prop):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = line[7:].strip().split(" | ")
                d = dict(x.split("=", 1) for x in f[:2])
                if d["property"] == prop:
                    out[d["key"]] = f[2]
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["MC_TIER"] = tier
    sys.path.insert(0, ROOT)
    variants = VARIANTS_OF.get(prop, ["std"])
    dirs = {}
    build.base()
    fails = []

    def one(v):
        try:
            dirs[v] = build.build(v)
        except BaseException as e:
            fails.append(e)

    bt = [threading.Thread(target=one, args=(v,)) for v in variants]
    for t in bt:
        t.start()
    for t in bt:
        t.join()
    if fails:
        raise fails[0]
    main_variant = variants[0]
    t_build = time.time() - t0

    def fresh():
        return Worker(prop, dirs, main_variant)

    if tier == "replay":
        case = json.load(open(sys.argv[3]))
        w = fresh()
        try:
            if case.get("task") is not None and case["case"] is None:
                r = w.ask(dict(op="run", task=case["task"]))
                msgs = [v["msg"] for v in r.get("violations", [])]
            else:
                msgs = w.ask(dict(op="replay", case=case["case"])).get("msgs")
        except Crash as e:
            msgs = [str(e)]
        print("\n".join(msgs or ["not reproduced"]))
        if msgs:
            print(f"VIOLATION property={prop} replay={sys.argv[3]}")
        return 1 if msgs else 0

    w = fresh()
    meta = w.ask(dict(op="meta"))["meta"]
    r = w.ask(dict(op="tasks", tier=tier))
    if "error" in r:
        raise SystemExit(r["error"])
    tasks = r["tasks"]
    w.kill()
    q = queue.Queue()
    for t in tasks:
        q.put(t)
    results, crashes, errors = [], [], []
    lock = threading.Lock()

    def loop():
        w = fresh()
        while True:
            try:
                t = q.get_nowait()
            except queue.Empty:
                break
            if any(c.hang for _, c in crashes):
                break
            try:
                r = w.ask(dict(op="run", task=t))
                with lock:
                    if "error" in r:
                        errors.append((t, r["error"]))
                    else:
                        r["task"] = t
                        results.append(r)
            except Crash as e:
                with lock:
                    crashes.append((t, e))
                if len(crashes) > 16 or any(c.hang for _, c in crashes):
                    break
                w = fresh()
        w.kill()

    ths = [threading.Thread(target=loop) for _ in range(min(NPROC, len(tasks)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    # a crash or hang of the code under test is a violation if it recurs alone
    viols = []
    hung = [c for c in crashes if c[1].hang][:1]
    for t, why in [c for c in crashes if not c[1].hang][:6] + hung:
        if why.hang and viols:
            break
        w = fresh()
        try:
            r = w.ask(dict(op="run", task=t))
            if "error" in r:
                errors.append((t, r["error"]))
            else:
                r["task"] = t
                results.append(r)
                sys.stderr.write(f"not repeated: {why} in task {t}\n")
        except Crash as e:
            viols.append(dict(case=None, task=t, key=f"crash in {json.dumps(t)}",
                              msg=f"{e} while exploring {json.dumps(t)}"))
        w.kill()
    for t, e in errors:
        sys.stderr.write(f"error in task {t}:\n{e}\n")

    found = []
    for r in results:
        for v in r["violations"]:
            v["task"] = r["task"]
            found.append(v)
    known = load_known(prop)
    seen_known, confirmed, unconfirmed = {}, viols, []
    # confirm each distinct finding in a fresh process
    bykey = {}
    for v in found:
        bykey.setdefault(v["key"], v)
    new = [v for k, v in bykey.items() if k not in known]
    for k, v in bykey.items():
        if k in known:
            seen_known[k] = known[k]
    for v in new[:12]:
        w = fresh()
        ok = False
        try:
            if v["case"] is not None:
                m = w.ask(dict(op="replay", case=v["case"]))
                ok = bool(m.get("msgs"))
        except Crash:
            ok = True
        w.kill()
        if not ok:
            w = fresh()
            try:
                rr = w.ask(dict(op="run", task=v["task"]))
                if any(x["key"] == v["key"] for x in rr.get("violations", [])):
                    ok = True
                    v["case"] = None
            except Crash:
                ok = True
            w.kill()
        (confirmed if ok else unconfirmed).append(v)

    d = {}
    for r in results:
        for k in ("states", "transitions", "traces", "evals", "distinct"):
            d[k] = d.get(k, 0) + r.get(k, 0)
    samples = []
    for r in results:
        samples += r.get("samples", [])[:1]
    samples = samples[:: max(1, len(samples) // 8)][:10]
    level = meta["level"]
    if level == "model_checking":
        cov = dict(states=d.get("states", 0), transitions=d.get("transitions", 0),
                   traces_validated_against_impl=d.get("traces", 0))
    else:
        cov = dict(evaluations=d.get("evals", 0), distinct_nontrivial=d.get("distinct", 0),
                   rule=meta["rule"])
    cov["samples"] = samples or ["(none)"]
    cov["tasks"] = len(results)
    cov["bounds"] = meta["bounds"][tier] if isinstance(meta["bounds"], dict) else meta["bounds"]
    cov["exhaustive"] = not (crashes or errors)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []),
              wall_s=round(time.time() - t0, 2),
              violations=len(confirmed))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k, what in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    rc = 0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for i, v in enumerate(confirmed):
        path = os.path.join(ROOT, "replays", f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, msg=v["msg"], case=v["case"], task=v["task"]),
                      f, indent=1)
        print(v["msg"])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    if not confirmed:
        for v in unconfirmed:
            sys.stderr.write(f"not reproduced: {v['msg']}\n")
        if errors or unconfirmed or not results:
            rc = 2
    c = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{prop} {tier}: {c} build {t_build:.0f}s total {time.time()-t0:.0f}s rc={rc}")
    return rc


# builds a property needs beside (or instead of) the standard one; first = workers'
VARIANTS_OF = {"C07": ["std", "portable", "sse2"], "C11": ["std", "rdrand"], "C12": ["rdrand"], "C18": ["entropy"],
               "C21": ["asan"]}

if __name__ == "__main__":
    sys.exit(main())
