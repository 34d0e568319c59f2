# encoding: utf-8
"""Options given together do what they do one after the other."""
import re

from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import gen, oracles, pipesim, procsim, shrink as shr
from ..core import Outcome, digest

ID = "P25"
RUNS = {"quick": 2500, "thorough": 300000}
RULE = ("a seeded program goes through one run with several options (translations on both axes, relative extrusion, pause), "
        "and through a pipeline of runs with one option each, in a seeded order and with translations split into parts, "
        "scheduled call by call; both have to deliver the same program up to the printed precision; some runs are also "
        "repeated (a conversion which was done changes nothing); non-trivial: at least two options which changed the program")
MEASURE = "distinct (program, options, order of the stages, process switches) executions"
_WORD = re.compile(r"([A-Za-z])\s*([-+]?\d*\.?\d+)")


def generate(rng, tier):
    r = rng.random()
    if r < 0.5:
        prog = gen.free_program(rng)
    elif r < 0.8:
        prog = gen.layered_program(rng, layers=rng.choice([3, 4, 5]), height=rng.choice([0.2, 0.3]), per_layer=rng.choice([1, 2, 3]))
    else:
        prog = gen.slicer_program(rng)["lines"]
    options = []
    for axis in "xy":
        if rng.random() < 0.6:
            whole = rng.choice([10.0, -5.5, 0.125, -100.0, 3.333, 25.4, round(rng.uniform(-50, 50), 3)])
            part = round(rng.choice([0.0, whole, rng.uniform(-20, 20)]), 3) if rng.random() < 0.4 else None
            options.append([axis, whole, part])
    if rng.random() < 0.6:
        options.append(["e", 1, rng.random() < 0.3])
    if rng.random() < 0.5:
        options.append(["p", rng.randint(0, 4), None])
    stages = split(rng, options)
    sc = {"program": prog, "options": options, "stages": stages,
          "caps": [max(rng.choice([1, 16, 256, 4096, 65536]), sum(len(l) + 1 for l in prog) // 300) for _ in stages[1:]],
          "src": rng.choice(["file", "pipe"]), "dst": rng.choice(["pipe", "file"]),
          "sched_seed": rng.randint(0, 10 ** 9), "rate": rng.choice([0.05, 0.3, 1.0]), "faults": []}
    return sc


def args(name, value):
    return ["-e"] if name == "e" else ["-" + name, "%d" % value if name == "p" else "%.3f" % value]


def split(rng, options):
    stages = []
    for name, value, extra in options:
        if name in "xy" and extra is not None:
            stages += [args(name, extra), args(name, value - extra)]
        elif name == "e" and extra:
            stages += [args(name, 1), args(name, 1)]
        else:
            stages.append(args(name, value))
    rng.shuffle(stages)
    # stages which set several options as well
    if len(stages) > 2 and rng.random() < 0.3 and stages[0][0] != stages[1][0]:
        stages[0:2] = [stages[0] + stages[1]]
    stages = stages or [[], []]
    return [{"tool": "gcode_mod", "args": ["-q", "-q"] + s, "io": procsim.io_config(rng)} for s in stages]


def words(line):
    head = re.split(r"[;(]", line, 1)[0]
    return [(c.upper(), float(v)) for c, v in _WORD.findall(head)]


def plain(lines):
    """The program without selections of relative extrusion while it is selected already."""
    out, selected = [], False
    for line in lines:
        name = oracles.Cmd(line).name
        if name == "M83" and selected and line.strip() == "M83":
            continue
        if name == "M83":
            selected = True
        elif name in ("G90", "G91", "M82"):
            selected = False
        out.append(line)
        i = len(out) - 1
        # (a pause and a selection at the start of the same layer don't affect each other)
        while name == "M226" and i and out[i - 1].strip() == "M83":
            out[i - 1], out[i] = out[i], out[i - 1]
            i -= 1
    return out


def differs(a, b, stages):
    """The first difference of two programs beyond the printed precision."""
    inch = False
    for n in range(max(len(a), len(b))):
        if n >= len(a) or n >= len(b):
            return "%d lines, not %d" % (len(a), len(b))
        name = oracles.Cmd(a[n]).name
        if name in ("G20", "G21"):
            inch = name == "G20"
        if a[n] == b[n]:
            continue
        x, y = words(a[n]), words(b[n])
        if [c for c, _ in x] != [c for c, _ in y] or a[n].split(";")[1:] != b[n].split(";")[1:]:
            return "line %d is %r, not %r" % (n, a[n], b[n])
        for (c, v), (_, w) in zip(x, y):
            # each stage rounds once
            tol = (6e-4 if c != "E" else 1.1e-5) * (stages + 1)
            if abs(v - w) > tol:
                return "line %d is %r, not %r" % (n, a[n], b[n])
    return None


def run(sc):
    o = Outcome()
    together = [w for name, value, _ in sc["options"] for w in args(name, value)]
    st = {"tool": "gcode_mod", "args": ["-q", "-q"] + together}
    status, data = pipesim.alone(st, procsim.encode(sc["program"]))
    r = pipesim.execute(sc)
    o.absorb(r.kernel)
    k = r.kernel
    sw, last = [], None
    for pid, n, _, _ in k.log:
        if pid != last:
            sw.append((pid, n))
            last = pid
    o.sig = digest([sc["program"], sc["options"], [s["args"] for s in sc["stages"]], sw])
    o.trace = ["together %s" % " ".join(together)] + ["then %s" % " ".join(s["args"]) for s in sc["stages"]]
    o.nontrivial = False
    if r.stopping:
        o.fail("stuck", "the pipeline does not end: %s" % r.stopping)
        return o
    if status != 0:
        o.fail("refused", "the run with all options fails with %s" % status)
        return o
    bad = [s.status for s in r.stages if s.status != 0]
    if bad:
        o.fail("refused", "a run with one of the options fails with %s" % bad[0])
        return o
    a, b = plain(oracles.text_lines(data)), plain(oracles.text_lines(r.final or b""))
    o.nontrivial = len(sc["options"]) >= 2 and a != oracles.clean(sc["program"])
    o.probe("stages", len(sc["stages"]))
    if a != b:
        o.probe("equal up to rounding")
    d = differs(b, a, len(sc["stages"]))
    if d:
        o.fail("differs", "one after the other: %s" % d)
    return o


def valid(sc):
    return True


def shrink(sc):
    for lines in shr.drop_chunks(list(sc["program"])):
        yield dict(sc, program=lines)
    if "schedule" not in sc:
        yield dict(sc, schedule=[])
    for i in range(len(sc["options"])):
        name = sc["options"][i][0]
        options = sc["options"][:i] + sc["options"][i + 1:]
        stages = [s for s in sc["stages"] if "-" + name not in s["args"]]
        if stages:
            yield dict(sc, options=options, stages=stages, caps=sc["caps"][:len(stages) - 1])
    if any(s["io"] for s in sc["stages"]):
        yield dict(sc, stages=[dict(s, io={}) for s in sc["stages"]])
