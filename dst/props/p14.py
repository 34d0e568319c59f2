# encoding: utf-8
"""Relative extrusion pushes the same filament at every point."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup, shrink
from .. import gen, oracles

ID = "P14"
RUNS = {"quick": 25000, "thorough": 3000000}
CATS = ("extrusion", "mode", "position", "rewrite", "verbatim", "lost")


def generate(rng, tier):
    r = rng.random()
    if r < 0.7:
        prog = gen.free_program(rng, linenos=rng.random() < 0.05, imperial=rng.random() < 0.1)
    elif r < 0.9:
        prog = gen.layered_program(rng)
    else:
        prog = gen.slicer_program(rng)["lines"]
    if rng.random() < 0.08:
        prog = gen.to_inches(prog)
    j = {"tool": "gcode_mod", "args": ["-q", "-e"], "program": prog, "extra": {}}
    return finish(rng, j)


def run(sc):
    return run_and_judge(sc, lambda a, b: oracles.check_mod(a, b, e=True), CATS)


def valid(sc):
    return "-e" in sc["args"]
