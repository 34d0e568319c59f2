# encoding: utf-8
"""Tools chained through pipes behave like one after the other."""
from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import gen, pipesim, procsim, shrink as shr
from ..core import Outcome, digest

ID = "P05"
RUNS = {"quick": 1200, "thorough": 150000}
RULE = ("2-4 tools run at the same time, connected by pipes of seeded capacity; every system call is a scheduling point "
        "of a seeded scheduler; half of the runs kill, stall, interrupt or fail a stage; the run must end, stages that "
        "exit with 0 must have delivered everything, and an undisturbed pipeline must equal the tools run in sequence; "
        "non-trivial: the schedule switched between the processes at least 3 times")
MEASURE = "distinct (stages, process switches by system call number, fault, exit statuses) executions"
TOOLS = ["gcode_mod", "gcode_mod", "gcode_mod", "gcode_stretch", "gcode_optimize_arcs", "gcode_tempcal"]


def generate(rng, tier):
    n = rng.choice([2, 2, 3, 3, 4])
    stages = []
    program = None
    for i in range(n):
        j = procsim.job(rng, tool=rng.choice(TOOLS))
        st = {"tool": j["tool"], "args": j["args"], "positional": j.get("positional", []), "io": procsim.io_config(rng)}
        if rng.random() < 0.1:
            st["dash"] = True
        if program is None:
            program = j["program"]
        stages.append(st)
    r = rng.random()
    if any(s["tool"] == "gcode_stretch" for s in stages) and r < 0.7:
        program = gen.slicer_program(rng)["lines"]
    elif any(s["tool"] == "gcode_tempcal" for s in stages) and r < 0.8:
        program = gen.layered_program(rng, layers=rng.choice([4, 5, 7]), height=rng.choice([0.2, 0.3]))
    sc = {"stages": stages, "program": program,
          "caps": [rng.choice([1, 2, 7, 16, 64, 64, 256, 1024, 4096, 65536]) for _ in range(n - 1)],
          "src": rng.choice(["file", "pipe", "pipe"]), "dst": rng.choice(["pipe", "pipe", "file"]),
          "sched_seed": rng.randint(0, 10 ** 9), "rate": rng.choice([0.02, 0.1, 0.3, 0.5, 1.0]), "faults": []}
    size = sum(len(l) + 1 for l in program)
    # tiny pipes make huge runs of big programs
    sc["caps"] = [max(c, size // 300) for c in sc["caps"]]
    if rng.random() < 0.5:
        dry = pipesim.execute(sc, faults=())
        calls = dry.kernel.log
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            pid = rng.randrange(n)
            if rng.random() < 0.3:
                at = rng.choice([c[1] for c in calls if c[0] == pid] or [0])
                sc["faults"].append({"p": pid, "at": at, "kind": "stall", "n": rng.choice([5, 50, 500, 5000])})
                continue
            kinds = ["kill", "int", "eio", "eintr", "reader_gone", "enospc", "emfile"]
            if sc["dst"] == "file":
                kinds += ["full"]
            sc["faults"] += procsim.place_faults(rng, calls, n=1, kinds=kinds, pid=pid)
    return sc


def switches(r):
    """Where the control passed from one process to another."""
    out = []
    last = None
    for n, (pid, k, name, detail) in enumerate(r.kernel.log):
        if pid != last:
            out.append((pid, k))
            last = pid
    return out


def run(sc):
    o = Outcome()
    r = pipesim.execute(sc)
    k = r.kernel
    o.absorb(k)
    sw = switches(r)
    statuses = [s.status for s in r.stages]
    o.sig = digest([[s["tool"] for s in sc["stages"]], sw, [str(s) for s in statuses]])
    o.trace = ["%d:%d %s %s" % c for c in k.log[-80:]] + ["exit %s %s" % (s.status, s.error or "") for s in r.stages] + [
        "schedule %s" % "".join(map(str, r.schedule[-200:]))]
    o.nontrivial = len(sw) >= 3
    if r.stopping:
        o.fail("stuck", "the pipeline does not end: %s after %d system calls" % (r.stopping, k.steps))
        return o
    data = procsim.encode(sc["program"])
    expected = []
    feed = data
    for st in sc["stages"]:
        res = pipesim.alone(st, feed)
        expected.append(res)
        feed = res[1]
    disturbed = bool(k.fired_faults())
    o.probe("disturbed" if disturbed else "undisturbed")
    file_dst = sc.get("dst") == "file"
    for i, (st, s) in enumerate(zip(sc["stages"], r.stages)):
        who = "stage %d (%s)" % (i, st["tool"])
        if s.status in ("hang", "abort"):
            o.fail("stuck", "%s did not end: %s" % (who, s.error))
            return o
        want = pipesim.alone(st, s.consumed)
        if s.status == 0:
            if want[0] == 0 and s.written != want[1]:
                o.fail("incomplete", "%s exits with 0, but delivered %s of %d bytes" % (
                    who, "none" if s.written is None else len(s.written), len(want[1])))
            elif want[0] != 0:
                o.fail("incomplete", "%s exits with 0, but with %s when it runs alone on the same input" % (who, want[0]))
        elif not s.own_faults and not s.reader_gone and want[0] == 0 and i < len(sc["stages"]) - 1:
            o.fail("spurious", "%s fails with %s (%s) although nothing happened to it or its reader" % (who, s.status, s.error))
    if not disturbed:
        for i, (s, e) in enumerate(zip(r.stages, expected)):
            if s.status != e[0]:
                o.fail("differs", "stage %d (%s) exits with %s, but %s one after the other" % (
                    i, sc["stages"][i]["tool"], s.status, e[0]))
                return o
        final = r.final
        if expected[-1][0] != 0 and file_dst:
            if final is not None:
                o.fail("differs", "a failed last stage left a file")
        elif (final or b"") != expected[-1][1]:
            o.fail("differs", "the pipeline delivers something else than the tools one after the other: %d bytes, not %d" % (
                len(final or b""), len(expected[-1][1])))
    elif all(s == 0 for s in statuses) and all(e[0] == 0 for e in expected) and r.final != expected[-1][1]:
        o.fail("differs", "all stages report success, but the pipeline did not deliver the program")
    return o


def valid(sc):
    return len(sc["stages"]) >= 2


def shrink(sc):
    for c in shr.drop_chunks(list(sc.get("faults", ()))):
        yield dict(sc, faults=c)
    if "schedule" not in sc:
        yield dict(sc, schedule=[])
        r = pipesim.execute(sc)
        yield dict(sc, schedule=r.schedule)
    else:
        s = sc["schedule"]
        for cut in (len(s) // 2, len(s) * 3 // 4, len(s) - 10, len(s) - 1):
            if 0 <= cut < len(s):
                yield dict(sc, schedule=s[:cut])
    for c in shr.drop_chunks(list(sc["program"])):
        yield dict(sc, program=c)
    for i, st in enumerate(sc["stages"]):
        if st.get("io"):
            yield dict(sc, stages=sc["stages"][:i] + [dict(st, io={})] + sc["stages"][i + 1:])
    n = len(sc["stages"])
    if n > 2 and not sc["faults"]:
        yield dict(sc, stages=sc["stages"][1:], caps=sc["caps"][1:])
        yield dict(sc, stages=sc["stages"][:-1], caps=sc["caps"][:-1])
    for i, c in enumerate(sc["caps"]):
        if c < 65536:
            yield dict(sc, caps=sc["caps"][:i] + [65536] + sc["caps"][i + 1:])
