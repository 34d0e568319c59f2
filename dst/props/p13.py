# encoding: utf-8
"""Translation moves every placed position by exactly the offset."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup, shrink
from .. import gen, oracles

ID = "P13"
RUNS = {"quick": 25000, "thorough": 3000000}
CATS = ("position", "rewrite", "verbatim", "extrusion", "lost")


def offset(rng):
    return rng.choice(["10", "-5.5", "0.125", "-100", "3.333", "0.001", "25.4", "0", "%.3f" % rng.uniform(-50, 50)])


def generate(rng, tier):
    r = rng.random()
    if r < 0.75:
        prog = gen.free_program(rng, linenos=rng.random() < 0.05, imperial=rng.random() < 0.1)
    elif r < 0.9:
        prog = gen.layered_program(rng)
    else:
        prog = gen.slicer_program(rng)["lines"]
    if rng.random() < 0.08:
        prog = gen.to_inches(prog)
    j = {"tool": "gcode_mod", "args": ["-q"], "program": prog, "extra": {}}
    which = rng.choice(["x", "y", "xy", "xy", "xy"])
    if "x" in which:
        j["args"] += ["-x", offset(rng)]
    if "y" in which:
        j["args"] += ["-y", offset(rng)]
    return finish(rng, j)


def run(sc):
    opt = oracles.options(sc)
    return run_and_judge(sc, lambda a, b: oracles.check_mod(a, b, opt["x"], opt["y"], opt["e"], None), CATS)


def valid(sc):
    return "-e" not in sc["args"]
