# encoding: utf-8
"""A result never depends on what was processed before."""
import json
import os
import subprocess
import sys

from .procs import setup
from . import procs
from .. import core, jobs, loader, procsim, shrink as shr, simos, threadsim
from ..core import Outcome, digest
from .p06 import difference

ID = "P07"
RUNS = {"quick": 3500, "thorough": 400000}
RULE = ("a seeded history of 2-7 jobs in one process, a part of them aborted by an exception at a seeded source line, or "
        "(command-line mode) hit by I/O faults and interrupts; every job which was not aborted must give the result it "
        "gives alone in a fresh process; batches of jobs are repeated in processes with other hash seeds; non-trivial: "
        "at least 2 jobs of the history were judged")
MEASURE = "distinct (job kinds, abort points) histories"
REAL = ["all of gcodeutils as a library, and its command-line entry points called repeatedly in one process"]
STUB = ["in command-line mode: system calls, file system, pipes, clock"]
ASSUMPTIONS = ["jobs do not share programs or filters"]


def generate(rng, tier):
    r = rng.random()
    if r < 0.007:
        return {"mode": "hash", "hashseed": rng.randint(1, 4000000000), "jobs": [jobs.generate(rng) for _ in range(12)]}
    if r < 0.7:
        n = rng.choice([2, 3, 3, 4, 5, 7])
        kind = rng.choice(["mod", "arcs", "stretch", "tempcal", "load", "feed", "edit"]) if rng.random() < 0.4 else None
        sc = {"mode": "lib", "jobs": [jobs.generate(rng, kind) for _ in range(n)], "faults": []}
        if rng.random() < 0.3:
            # the same job again, after everything else
            sc["jobs"].append(dict(sc["jobs"][0]))
        for i in range(n - 1):
            if rng.random() < 0.5:
                lines = ticks(sc["jobs"][i])
                sc["faults"].append({"t": i, "line": rng.randint(0, max(1, lines - 1)), "kind": rng.choice(["mem", "int"])})
        return sc
    n = rng.choice([2, 3, 4])
    todo = []
    for i in range(n):
        j = procsim.job(rng)
        while j["tool"] not in loader.TOOLS:
            j = procsim.job(rng)
        todo.append({"tool": j["tool"], "args": j["args"], "positional": j.get("positional", []), "program": j["program"],
                     "dst": rng.choice(["same", "out", "stdout"])})
    sc = {"mode": "cli", "jobs": todo, "faults": [], "io": procsim.io_config(rng)}
    if rng.random() < 0.7:
        kernel = cli(sc, ())[0]
        for _ in range(rng.choice([1, 1, 2])):
            sc["faults"] += procsim.place_faults(rng, kernel.log, n=1, kinds=[
                "int", "eio", "enospc", "eintr", "eacces", "emfile", "eperm"])
    return sc


def ticks(j):
    return threadsim.Sim([lambda: jobs.outcome(loader.Lib(), j)], []).run().tick


def attempt(fn, *args):
    try:
        return fn(*args)
    except (RuntimeError, ValueError, TypeError, AttributeError, IndexError, ZeroDivisionError, KeyError) as e:
        return "error %s: %s" % (type(e).__name__, e)


# -- library ---------------------------------------------------------------
def run_lib(sc, o):
    lib = loader.Lib()
    judged = 0
    kept = []
    for i, j in enumerate(sc["jobs"]):
        faults = [dict(f, t=0) for f in sc["faults"] if f["t"] == i]
        if faults:
            s = threadsim.Sim([lambda j=j: jobs.outcome(lib, j)], [], faults).run()
            o.steps += s.tick
            for kind, n in s.fired.items():
                o.faults["line:" + kind] = o.faults.get("line:" + kind, 0) + n
            if s.fired:
                o.probe("aborted")
                continue
            got = s.results[0]
        else:
            keep = []
            got = jobs.outcome(lib, j, keep)
            kept += [(i, j, g, attempt(jobs.held, g)) for g in keep]
            o.steps += 1
        judged += 1
        want = jobs.solo(j)
        if got != want:
            o.fail("history", "job %d (%s) gives another result than in a fresh process: %s" % (
                i, j["kind"], difference(want, got)))
            return
    for i, j, g, before in kept:
        after = attempt(jobs.held, g)
        if after != before:
            o.fail("history", "the program of job %d (%s), which the host still holds, changed during later jobs: %s" % (
                i, j["kind"], difference(before, after)))
            return
    o.nontrivial = judged >= 2
    o.sig = digest(["lib", [j["kind"] for j in sc["jobs"]], sc["faults"]])


# -- command line ----------------------------------------------------------
def cli(sc, faults):
    k = simos.Kernel(faults=faults, max_steps=400000)
    results = [None] * len(sc["jobs"])
    for i, j in enumerate(sc["jobs"]):
        k.disk.put("/work/in%d.gcode" % i, procsim.encode(j["program"]))
    p = simos.Proc(k, 0, ["host"], sc.get("io"))
    p.fds[0] = simos.OpenFile(k.disk.names["/dev/null"])
    for fd in (1, 2):
        p.fds[fd] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
    out = p.fds[1]
    k.procs = [p]

    def body():
        import importlib
        for i, j in enumerate(sc["jobs"]):
            before = dict(k.fired)
            start = len(out.sink)
            sys.argv = [j["tool"]] + j["args"] + j["positional"] + ["/work/in%d.gcode" % i]
            name = {"same": "/work/in%d.gcode" % i, "out": "/work/out%d.gcode" % i, "stdout": None}[j["dst"]]
            if name:
                sys.argv.append(name)
            try:
                importlib.import_module(loader.TOOLS[j["tool"]]).main()
                status = 0
            except SystemExit as e:
                status = e.code
            except Exception as e:
                status = type(e).__name__
            except KeyboardInterrupt:
                status = "interrupted"
            hit = [n for n in k.fired if n not in k.BENIGN and k.fired[n] != before.get(n, 0)]
            ino = k.disk.names.get(name) if name else None
            data = bytes(out.sink[start:]) if name is None else None if ino is None else bytes(ino.data)
            results[i] = (status, data, bool(hit))
    simos.run_single(k, p, body)
    return k, p, results


def run_cli(sc, o):
    k, p, results = cli(sc, sc["faults"])
    o.absorb(k)
    judged = 0
    spill = False
    for i, j in enumerate(sc["jobs"]):
        if results[i] is None:
            o.fail("history", "job %d was never started: %s %s" % (i, p.status, p.error))
            return
        status, data, hit = results[i]
        if hit:
            o.probe("disturbed")
            # what an interrupted write to the standard output left in its buffer comes out later
            spill = spill or j["dst"] == "stdout"
            continue
        if spill and j["dst"] == "stdout":
            continue
        judged += 1
        alone = dict(sc, jobs=[j], faults=[], io={})
        want = cli(alone, ())[2][0]
        if (status, data) != (want[0], want[1]):
            o.fail("history", "job %d (%s) ends with %s and %s bytes after the others, but with %s and %s bytes alone" % (
                i, j["tool"], status, data and len(data), want[0], want[1] and len(want[1])))
            return
    o.nontrivial = judged >= 2
    o.sig = digest(["cli", [[j["tool"], j["dst"]] for j in sc["jobs"]], sc["faults"], [str(r[0]) for r in results]])


# -- hash seeds --------------------------------------------------------------
def run_hash(sc, o):
    env = dict(os.environ, PYTHONHASHSEED=str(sc["hashseed"]))
    r = subprocess.run([sys.executable, "-m", "dst.hashrun"], input=json.dumps(sc["jobs"]), env=env, text=True,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    if r.returncode != 0:
        raise RuntimeError("hash seed run failed: %s" % r.stderr[-300:])
    for i, (j, got) in enumerate(zip(sc["jobs"], json.loads(r.stdout))):
        want = jobs.solo(j)
        o.steps += 1
        if got != want:
            o.fail("hash", "job %d (%s) gives another result with hash seed %d: %s" % (
                i, j["kind"], sc["hashseed"], difference(want, got)))
            return
    o.sig = digest(["hash", sc["hashseed"]])
    o.probe("jobs compared across hash seeds", len(sc["jobs"]))


def run(sc):
    o = Outcome()
    {"lib": run_lib, "cli": run_cli, "hash": run_hash}[sc["mode"]](sc, o)
    o.probe("mode " + sc["mode"])
    return o


def valid(sc):
    return len(sc["jobs"]) >= 1


def shrink(sc):
    for c in shr.drop_chunks(list(sc.get("faults", ()))):
        yield dict(sc, faults=c)
    if sc.get("io"):
        yield dict(sc, io={})
    for i in range(len(sc["jobs"])):
        if sc["mode"] == "cli" and sc["faults"]:
            break
        if len(sc["jobs"]) > 1:
            yield dict(sc, jobs=sc["jobs"][:i] + sc["jobs"][i + 1:],
                       faults=[dict(f, t=f["t"] - (f["t"] > i)) for f in sc.get("faults", ()) if f.get("t") != i])
    for i, j in enumerate(sc["jobs"]):
        for c in shr.drop_chunks(list(j["program"])):
            yield dict(sc, jobs=sc["jobs"][:i] + [dict(j, program=c)] + sc["jobs"][i + 1:])
