# encoding: utf-8
"""Driver: seeds, workers, watchdog, minimisation, replay, evidence."""
import argparse
import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import loader

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALARM = 40


class TooLong(BaseException):
    """A simulated run used up its wall-clock allowance."""


class Violation(Exception):
    pass


class Outcome(object):
    """What one simulated run showed."""

    def __init__(self):
        self.violations = []          # [(kind, text)]
        self.faults = {}
        self.steps = 0
        self.sim_time = 0.0
        self.sig = None               # measure of distinctness
        self.nontrivial = True
        self.probes = {}
        self.trace = None

    def fail(self, kind, text):
        self.violations.append((kind, text))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def absorb(self, kernel):
        for k, n in kernel.fired.items():
            self.faults[k] = self.faults.get(k, 0) + n
        self.steps += kernel.steps
        self.sim_time += kernel.clock
        if kernel.escapes:
            self.fail("escape", "left the simulation: %s" % kernel.escapes[0])


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def seed_of(base, prop, index):
    return int(hashlib.sha256(("%d/%s/%d" % (base, prop, index)).encode()).hexdigest()[:15], 16)


def load(prop):
    return importlib.import_module("dst.props.%s" % prop.lower())


# ---------------------------------------------------------------------------
def reached(tb):
    """The exception came out of the code under test, or out of a check which looked at its results."""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith((loader.PREFIX, loader.PLUGIN_PREFIX)) or
               (f.name == "run" and os.sep + "props" + os.sep in f.filename) for f in frames)


def guarded(fn, sc):
    """Outcome of fn(sc); anything which is not an answer becomes one."""
    def on_alarm(signum, frame):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(ALARM)
    try:
        return fn(sc)
    except TooLong:
        o = Outcome()
        o.fail("hang", "the run did not end within %d s" % ALARM)
        o.poisoned = True
        return o
    except (MemoryError, RecursionError) as e:
        o = Outcome()
        o.fail("resources", "the run used up its %s" % type(e).__name__)
        return o
    except Exception as e:
        if reached(e.__traceback__):
            o = Outcome()
            o.fail("exception", "unexpected %s: %s" % (type(e).__name__, e))
            return o
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def quiet_gc():
    """Objects die when the simulator says so, not when an allocation counter overflows."""
    gc.collect()
    gc.freeze()
    gc.disable()


class Share(object):
    """One slot per worker: index under way, start time; a common stop flag."""

    def __init__(self, n):
        self.n = n
        self.m = mmap.mmap(-1, 16 * n + 8)

    def begin(self, w, index):
        self.m[16 * w:16 * w + 16] = struct.pack("<qd", index, time.monotonic())

    def get(self, w):
        return struct.unpack("<qd", self.m[16 * w:16 * w + 16])

    def stop(self):
        self.m[16 * self.n:16 * self.n + 1] = b"\1"

    def stopped(self):
        return self.m[16 * self.n] == 1


def worker(w, workers, prop, base, runs, tier, share, fd, deadline, first):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open("/dev/null", os.O_RDWR)
    for n in (0, 1, 2):
        os.dup2(devnull, n)
    mod = load(prop)
    quiet_gc()
    agg = {"runs": 0, "faults": {}, "steps": 0, "sim_time": 0.0, "sigs": set(), "nontrivial": 0, "probes": {},
           "samples": [], "hashes": {}, "bad": [], "error": None}
    index = first + w
    try:
        mod.setup(tier)
        while index < first + runs and not share.stopped() and time.monotonic() < deadline:
            share.begin(w, index)
            if agg["runs"] % 64 == 0:
                gc.collect()
            rng = random.Random(seed_of(base, prop, index))
            made = []

            def both(_):
                sc = mod.generate(rng, tier)
                made.append(sc)
                return mod.run(sc)
            o = guarded(both, None)
            sc = made[0] if made else None
            agg["runs"] += 1
            for k, n in o.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + n
            for k, n in o.probes.items():
                agg["probes"][k] = agg["probes"].get(k, 0) + n
            agg["steps"] += o.steps
            agg["sim_time"] += o.sim_time
            if o.nontrivial:
                agg["nontrivial"] += 1
                agg["sigs"].add(o.sig)
            if index < 40 or index % 97 == 0:
                agg["hashes"][index] = digest([sc, o.sig, o.violations, o.steps])
            if len(agg["samples"]) < 1 and o.nontrivial and o.steps:
                agg["samples"].append({"index": index, "scenario": sc, "steps": o.steps, "faults": o.faults})
            if o.violations:
                agg["bad"].append({"index": index, "scenario": sc, "violations": o.violations})
                if not mod_known(mod, o):
                    share.stop()
                    break
            if getattr(o, "poisoned", False):
                break
            index += workers
    except BaseException:
        agg["error"] = "run %d: %s" % (index, traceback.format_exc())
        share.stop()
    agg["sigs"] = sorted(str(s) for s in agg["sigs"])
    with os.fdopen(fd, "w") as f:
        json.dump(agg, f, default=repr)
    os._exit(0)


_known = None


def known_entries(prop):
    global _known
    if _known is None:
        _known = []
        path = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(path):
            with open(path) as f:
                _known = json.load(f).get("findings", [])
    return [k for k in _known if k["property"] == prop]


def mod_known(mod, o):
    """All violations of this outcome are listed findings."""
    entries = known_entries(mod.ID)
    return bool(entries) and all(any(v[0] == k["kind"] and k["match"] in v[1] for k in entries) for v in o.violations)


def campaign(prop, base, runs, tier, workers, cap, first=0):
    share = Share(workers)
    deadline = time.monotonic() + cap
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for k in kids:
                os.close(k[1])
            worker(w, workers, prop, base, runs, tier, share, wr, deadline, first)
            os._exit(3)
        os.close(wr)
        share.begin(w, -1)
        kids.append((pid, r, w))
    bufs = dict((w, []) for _, _, w in kids)
    open_fds = dict((r, w) for _, r, w in kids)
    import select
    stuck = []
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 0.5)
        for r in ready:
            data = os.read(r, 1 << 16)
            if data:
                bufs[open_fds[r]].append(data)
            else:
                del open_fds[r]
                os.close(r)
        now = time.monotonic()
        for r, w in list(open_fds.items()):
            index, since = share.get(w)
            if index >= 0 and now - since > ALARM + 20 and not bufs[w]:
                stuck.append(index)
                os.kill([k[0] for k in kids if k[2] == w][0], signal.SIGKILL)
                share.stop()
                share.begin(w, -2)
    results = []
    errors = []
    for pid, r, w in kids:
        _, status = os.waitpid(pid, 0)
        text = b"".join(bufs[w])
        if not text:
            index, _ = share.get(w)
            if index >= 0 and index not in stuck:
                stuck.append(index)
            elif index == -1:
                errors.append("worker %d ended with status %d before its first run" % (w, status))
            continue
        results.append(json.loads(text))
    total = {"runs": 0, "faults": {}, "steps": 0, "sim_time": 0.0, "nontrivial": 0, "probes": {}, "samples": [],
             "hashes": {}, "bad": [], "errors": errors}
    sigs = set()
    for a in results:
        for n in ("runs", "steps", "sim_time", "nontrivial"):
            total[n] += a[n]
        for n in ("faults", "probes"):
            for k, v in a[n].items():
                total[n][k] = total[n].get(k, 0) + v
        total["samples"] += a["samples"]
        total["hashes"].update(a["hashes"])
        total["bad"] += a["bad"]
        sigs.update(a["sigs"])
        if a["error"]:
            total["errors"].append(a["error"])
    for index in stuck:
        total["bad"].append({"index": index, "scenario": None,
                             "violations": [("hang", "run %d never ended" % index)]})
    total["distinct"] = len(sigs)
    total["bad"].sort(key=lambda b: b["index"])
    return total


# ---------------------------------------------------------------------------
def in_child(fn, seconds):
    """Value of fn() computed in a forked child, None when it takes too long or dies."""
    r, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = os.open("/dev/null", os.O_RDWR)
            for n in (0, 1, 2):
                os.dup2(devnull, n)
            value = fn()
            with os.fdopen(wr, "w") as f:
                json.dump(value, f, default=repr)
        except BaseException:
            pass
        os._exit(0)
    os.close(wr)
    import select
    end = time.monotonic() + seconds
    chunks = []
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return None


def kinds_of(o):
    return set(v[0] for v in o.violations)


def minimise(mod, sc, kind, seconds):
    """Smaller scenario with a violation of the same kind (greedy, in a child)."""
    def body():
        end = time.monotonic() + seconds
        best = sc
        tries = 0
        improved = True
        while improved and time.monotonic() < end:
            improved = False
            for cand in mod.shrink(best):
                if time.monotonic() > end:
                    break
                tries += 1
                try:
                    if not mod.valid(cand):
                        continue
                    o = guarded(mod.run, cand)
                except Exception:
                    continue
                if kind in kinds_of(o):
                    best = cand
                    improved = True
                    break
        return {"scenario": best, "tries": tries}
    if kind == "hang":
        return sc, 0
    res = in_child(body, seconds + ALARM + 5)
    if not res:
        return sc, 0
    return res["scenario"], res["tries"]


def write_replay(prop, base, bad, sc, tries):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, digest(sc)))
    mod = load(prop)
    o = in_child(lambda: vars_of(guarded(mod.run, sc)), ALARM + 30) if sc is not None else None
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": base, "run": bad["index"],
                   "violations": (o or {}).get("violations") or bad["violations"],
                   "scenario": sc, "original": bad["scenario"] if bad["scenario"] != sc else None,
                   "minimisation_tries": tries, "trace": (o or {}).get("trace")}, f, indent=1, default=repr)
    return path


def vars_of(o):
    return {"violations": o.violations, "trace": o.trace, "sig": o.sig, "steps": o.steps}


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = rec["property"]
    mod = load(prop)
    quiet_gc()
    mod.setup("quick")
    sc = rec["scenario"]
    if sc is None:
        sc_box = []

        def both(_):
            sc2 = mod.generate(random.Random(seed_of(rec["seed"], prop, rec["run"])), "quick")
            sc_box.append(sc2)
            return mod.run(sc2)
        res = in_child(lambda: vars_of(guarded(both, None)), ALARM + 30)
        if res is None:
            res = {"violations": [("hang", "run %d never ended" % rec["run"])]}
    else:
        o = guarded(mod.run, sc)
        res = vars_of(o)
    if res["violations"]:
        for kind, text in res["violations"][:10]:
            print("  %s: %s" % (kind, text))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation: %s" % path)
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", "-P")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--hashes", help="write digests of sampled runs (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-shrink", action="store_true", help="only tell that there is a violation")
    args = ap.parse_args(argv)
    os.environ["COLUMNS"] = "80"
    loader.install()
    loader.preload()
    if args.replay:
        return replay(args.replay)
    if args.self_test:
        from . import selftest
        return selftest.main()
    prop = args.property
    mod = load(prop)
    tier = args.tier
    runs = args.runs or mod.RUNS[tier]
    cap = args.cap or (150 if tier == "quick" else 3600)
    print("%s tier=%s seed=%d runs=%d workers=%d" % (prop, tier, args.seed, runs, args.workers))
    t0 = time.monotonic()
    total = campaign(prop, args.seed, runs, tier, args.workers, cap, args.first)
    wall = time.monotonic() - t0
    if args.hashes:
        with open(args.hashes, "w") as f:
            json.dump(total["hashes"], f, sort_keys=True, indent=0)
    known = []
    unknown = []
    for b in total["bad"]:
        o = Outcome()
        o.violations = [tuple(v) for v in b["violations"]]
        (known if mod_known(mod, o) else unknown).append(b)
    code = 0
    if unknown:
        bad = unknown[0]
        kind = bad["violations"][0][0]
        sc, tries = bad["scenario"], 0
        print("  run %d: %s: %s" % (bad["index"], kind, bad["violations"][0][1]))
        sys.stdout.flush()
        if args.no_shrink:
            print("VIOLATION property=%s replay=-" % prop)
            return 1
        if sc is not None:
            sc, tries = minimise(mod, sc, kind, 40 if tier == "quick" else 120)
        path = write_replay(prop, args.seed, bad, sc, tries)
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "random"
        try:
            res = subprocess.run([sys.executable, "-m", "dst", "--replay", path], cwd=VERIF, env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=ALARM * 3)
            same = res.returncode == 1
        except subprocess.TimeoutExpired:
            same = True
        if not same and sc != bad["scenario"]:
            sc = bad["scenario"]
            path = write_replay(prop, args.seed, bad, sc, 0)
        print("  minimised with %d tries, replayed in a fresh process: %s" % (tries, "same" if same else "DIFFERENT"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif total["errors"]:
        sys.stderr.write("HARNESS ERROR\n%s\n" % "\n".join(total["errors"]))
        code = 2
    if known:
        for k in known_entries(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        hour = total["runs"] / wall * 3600 if wall else 0
        ev = {
            "property": prop, "tier": tier, "seed": args.seed, "level": "exploration",
            "coverage": {
                "evaluations": total["runs"],
                "distinct_nontrivial": total["distinct"],
                "rule": mod.RULE,
                "samples": total["samples"][:3],
                "simulated_runs": total["runs"],
                "nontrivial_runs": total["nontrivial"],
                "seeds_per_hour": int(hour),
                "simulated_steps": total["steps"],
                "simulated_seconds": round(total["sim_time"], 3),
                "faults_injected": dict(sorted(total["faults"].items())),
                "probes": dict(sorted(total["probes"].items())),
                "distinct_measure": mod.MEASURE,
                "real_components": mod.REAL,
                "stub_components": mod.STUB,
                "known_findings_hit": len(known),
            },
            "assumptions": list(mod.ASSUMPTIONS),
            "wall_s": round(time.monotonic() - t0, 2),
            "violations": len(unknown),
        }
        path = os.path.join(VERIF, "evidence", "%s.json" % prop)
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)
    print("%s: %d runs in %.1f s, %d distinct, %d steps, faults %s" % (
        prop, total["runs"], wall, total["distinct"], total["steps"],
        " ".join("%s=%d" % kv for kv in sorted(total["faults"].items()))))
    if total["probes"]:
        print("  probes %s" % " ".join("%s=%d" % kv for kv in sorted(total["probes"].items())))
    return code
