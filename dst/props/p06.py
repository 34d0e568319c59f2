# encoding: utf-8
"""Programs processed concurrently do not affect each other."""
from .procs import setup
from .. import gen, jobs, loader, shrink as shr, threadsim
from ..core import Outcome, digest

ID = "P06"
RUNS = {"quick": 1800, "thorough": 200000}
RULE = ("2-4 threads of one process, each with its own seeded job (load, transform, write); a seeded scheduler may switch "
        "before every source line of the package, some threads are aborted by an exception at a seeded line; every "
        "other thread's result must equal the one of the job alone in a fresh copy of the package; non-trivial: at "
        "least one thread was preempted while it was inside of the package")
MEASURE = "distinct (job kinds, switch points) executions"
REAL = ["all of gcodeutils as a library (loading, filters, stretching, visitors, gradient, comparison, editing)",
        "threads of CPython, of which one runs at a time"]
STUB = ["the choice which thread runs (seeded, before every source line of the package)"]
ASSUMPTIONS = ["threads do not share programs or filters", "preemption within a source line is not explored"]


def generate(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    kind = rng.choice(["mod", "arcs", "arcs", "stretch", "stretch", "tempcal", "load", "feed", "edit"]) if rng.random() < 0.6 else None
    sc = {"jobs": [jobs.generate(rng, kind) for _ in range(n)], "switches": [], "quantum": 0, "faults": []}
    if kind and rng.random() < 0.3:
        # the same options for all of them
        for j in sc["jobs"][1:]:
            for name in sc["jobs"][0]:
                if name not in ("program", "format", "other", "edits"):
                    j[name] = sc["jobs"][0][name]
        if kind == "mod" and rng.random() < 0.7:
            layer = rng.choice([0, 1, 1, 2])
            for j in sc["jobs"]:
                j["p"] = layer
                j["program"] = gen.layered_program(rng, layers=rng.choice([2, 3]), per_layer=rng.choice([1, 2, 3]))
    r = rng.random()
    if r < 0.3:
        sc["quantum"] = rng.choice([1, 2, 3, 7, 17, 61, 203])
        return sc
    total = 0
    each = []
    for j in sc["jobs"]:
        s = threadsim.Sim([lambda j=j: jobs.outcome(loader.Lib(), j)], []).run()
        each.append(s.tick)
        total += s.tick
    count = rng.choice([1, 2, 3, 5, 10, 30, 100])
    ticks = sorted(rng.randint(0, max(1, total)) for _ in range(count))
    sc["switches"] = [[t, rng.randrange(n)] for t in ticks]
    if rng.random() < 0.2:
        t = rng.randrange(n)
        sc["faults"] = [{"t": t, "line": rng.randint(0, max(1, each[t] - 1)), "kind": rng.choice(["mem", "int"])}]
    return sc


def run(sc):
    o = Outcome()
    lib = loader.Lib()
    sim = threadsim.Sim([lambda j=j: jobs.outcome(lib, j) for j in sc["jobs"]], sc["switches"], sc["faults"], sc["quantum"])
    sim.run()
    o.steps = sim.tick
    for kind, n in sim.fired.items():
        o.faults["thread:" + kind] = o.faults.get("thread:" + kind, 0) + n
    o.faults["preemption"] = len(sim.taken)
    o.sig = digest([[j["kind"] for j in sc["jobs"]], sim.taken])
    o.trace = ["tick %d: thread %d" % t for t in sim.taken[:60]]
    o.nontrivial = len(sim.taken) >= len(sc["jobs"])
    if sim.stopping:
        o.fail("stuck", "the threads do not end: %s" % sim.stopping)
        return o
    hit = set(f["t"] for f in sc["faults"])
    for i, j in enumerate(sc["jobs"]):
        if i in hit and sim.errors[i] is not None:
            o.probe("thread aborted")
            continue
        if sim.errors[i] is not None:
            o.fail("interference", "job %d (%s) fails with %s: %s when it runs with the others" % (
                i, j["kind"], type(sim.errors[i]).__name__, sim.errors[i]))
            continue
        want = jobs.solo(j)
        if sim.results[i] != want:
            o.fail("interference", "job %d (%s) gives another result when it runs with the others: %s" % (
                i, j["kind"], difference(want, sim.results[i])))
    return o


def difference(a, b):
    xs, ys = a.split("\n"), b.split("\n")
    for n, (x, y) in enumerate(zip(xs, ys)):
        if x != y:
            return "line %d %r instead of %r" % (n, y[:80], x[:80])
    return "%d lines instead of %d" % (len(ys), len(xs))


def valid(sc):
    return len(sc["jobs"]) >= 1


def shrink(sc):
    for c in shr.drop_chunks(list(sc["switches"])):
        yield dict(sc, switches=c)
    if sc["faults"]:
        yield dict(sc, faults=[])
    if sc["quantum"]:
        sim = threadsim.Sim([lambda j=j, lib=lib: jobs.outcome(lib, j) for lib in [loader.Lib()] for j in sc["jobs"]],
                            [], sc["faults"], sc["quantum"]).run()
        yield dict(sc, quantum=0, switches=[list(t) for t in sim.taken])
    if len(sc["jobs"]) > 2 and not sc["faults"]:
        for i in range(len(sc["jobs"])):
            yield dict(sc, jobs=sc["jobs"][:i] + sc["jobs"][i + 1:],
                       switches=[[t, w - (w > i)] for t, w in sc["switches"] if w != i])
    for i, j in enumerate(sc["jobs"]):
        for c in shr.drop_chunks(list(j["program"])):
            yield dict(sc, jobs=sc["jobs"][:i] + [dict(j, program=c)] + sc["jobs"][i + 1:])
